#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : builds the harness of a property from
/repo's working tree, explores, writes evidence/ID.json.
   exit 0 property held on everything explored; exit 1 VIOLATION line; exit 2 error of the check."""
import argparse, hashlib, json, os, signal, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from checks import CHECKS

def parse_out(text, who):
    stats, samples, viols, done, err = {}, [], [], False, None
    for line in text.splitlines():
        if line.startswith("STAT "):
            p = line.split(); stats[p[1]] = stats.get(p[1], 0) + int(p[2])
        elif line.startswith("SAMPLE "): samples.append(line[7:])
        elif line.startswith("VIOL "):
            k, _, d = line[5:].partition("|"); viols.append((k, d, who))
        elif line.startswith("HARNESS-ERROR"): err = line
        elif line == "DONE": done = True
    return stats, samples, viols, done, err

def run_jobs(cmds, limit, env):
    """all commands at once (at most 8); returns (cmd, output, rc, timedout)"""
    pend = list(cmds); live = []; out = []
    while pend or live:
        while pend and len(live) < 8:
            c = pend.pop(0)
            f = open(os.path.join(B.BUILD, f"out_{os.getpid()}_{len(out)+len(live)}_{len(pend)}.txt"), "w+")
            p = subprocess.Popen(c, stdout=f, stderr=subprocess.DEVNULL, env=env, start_new_session=True, cwd="/tmp")
            live.append((c, p, f, time.time()))
        time.sleep(0.05)
        for it in list(live):
            c, p, f, t = it; to = False
            if p.poll() is None:
                if time.time() - t < limit: continue
                to = True; os.killpg(p.pid, signal.SIGTERM)
                try: p.wait(5)
                except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.wait()
            f.flush(); f.seek(0); txt = f.read(); f.close(); os.unlink(f.name)
            out.append((c, txt, p.returncode, to)); live.remove(it)
    return out

def load_known(pid):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("KNOWN "):
                d = dict(x.split("=", 1) for x in l.split(" ## ")[0].split()[1:])
                if d["property"] == pid: known.append((d["key"], l.split(" ## ", 1)[1] if " ## " in l else ""))
    return known

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=None); ap.add_argument("--replay")
    a = ap.parse_args(); pid = a.id; tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    ck = CHECKS[pid]; t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay)); B.build([r["program"]])
        return subprocess.call([os.path.join(B.BUILD, "bin", r["program"])] + r["args"])
    env = dict(os.environ); env.update({"OMP_NUM_THREADS": "2", "HDF5_USE_FILE_LOCKING": "FALSE", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C"})
    progs = ck["programs"]
    B.build([p["name"] for p in progs])
    tb = time.time() - t0
    cmds = []
    for p in progs:
        n = p.get("shards", 8)
        for s in range(n):
            extra = list(p.get("args", []))
            if tier == "thorough": extra += ["--thorough"] + p.get("thorough_args", [])
            bud = p.get("budget", {}).get(tier)
            if bud: extra += ["--budget", str(bud)]
            cmds.append([os.path.join(B.BUILD, "bin", p["name"])] + extra + ["--shard", f"{s}/{n}"])
    limit = 420 if tier == "quick" else 3 * 3600
    res = run_jobs(cmds, limit, env)
    stats, samples, viols, errors = {}, [], [], []
    for c, txt, rc, to in res:
        st, sa, vi, done, err = parse_out(txt, c)
        if err: errors.append(err)
        if to:
            # replay the case alone before calling it a hang
            case = next((d.split(" in case ")[-1].strip() for k, d, _ in vi if "no end in sight" in d), None)
            vi = [v for v in vi if "no end in sight" not in v[1]]
            if case is None: errors.append(f"time limit without a case: {' '.join(c)}")
            else:
                base = c[:c.index("--shard")]
                r2 = run_jobs([base + ["--only", case]], 150, env)[0]
                s2, _, v2, d2, e2 = parse_out(r2[1], c)
                if r2[3]: vi.append(("hang", f"no end in sight in case {case}", c))
                elif r2[2] != 0 or v2: vi += v2
                else: stats["cap_time"] = 1
        elif not done:
            if not vi: errors.append(f"{' '.join(c)} ended with {rc}: {txt[-400:]}")
        for k, v in st.items(): stats[k] = stats.get(k, 0) + v
        samples += sa; viols += vi
    known = load_known(pid); shown = set(); new = []
    for k, d, c in viols:
        hit = next((x for x in known if x[0] == k), None)
        if hit:
            if hit[0] not in shown: shown.add(hit[0]); print(f"KNOWN-FINDING: property={pid} {hit[0]}: {hit[1]}")
        else: new.append((k, d, c))
    rd = os.path.join(B.BUILD, "replays"); os.makedirs(rd, exist_ok=True)
    seen = {}
    for k, d, c in new:
        if k in seen: continue
        case = ""
        if d.startswith("case "): case = d[5:].split(": ", 1)[0]
        elif " in case " in d: case = d.split(" in case ")[-1].strip()
        path = os.path.join(rd, f"{pid}-{hashlib.md5(k.encode()).hexdigest()[:8]}.json")
        base = c[1:c.index("--shard")] if "--shard" in c else c[1:]
        json.dump({"property": pid, "program": os.path.basename(c[0]), "args": base + (["--only", case] if case else []), "key": k, "details": d}, open(path, "w"), indent=1)
        seen[k] = path
        if len(seen) <= 10:
            print(f"VIOLATION property={pid} replay={path}"); print(f"  {k}: {d[:600]}")
    cov = {}
    lv = ck["level"]; g = lambda n: stats.get(n, 0)
    if lv == "model_checking":
        cov = {"states": g("states"), "transitions": g("transitions"), "traces_validated_against_impl": g("executions")}
    else:
        cov = {"evaluations": g("evaluations"), "distinct_nontrivial": g("nontrivial"), "rule": ck["rule"]}
    cov["samples"] = samples[:6]
    cov["exhaustive"] = not any(k.startswith("cap") for k in stats)
    cov["bounds"] = ck.get("bounds", "")
    cov["counters"] = {k: v for k, v in sorted(stats.items())}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": lv, "coverage": cov,
          "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid} {tier}: " + ", ".join(f"{k}={v}" for k, v in sorted(stats.items())) + f"; build {tb:.0f}s, total {time.time()-t0:.0f}s")
    if new: return 1
    if errors:
        for e in errors[:5]: print("CHECK-ERROR", e)
        return 2
    main_n = cov.get("states", cov.get("evaluations", 0))
    if main_n == 0: print("CHECK-ERROR nothing was explored"); return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
