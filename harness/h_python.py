"""C31: the Python front end.  Every call of run() from a family of arguments, every sequence of operations on a settings
object up to a bound, every failure of the program, and every way of reading back what was written, against a model of the
settings.  The programs are stand-ins that record how they were called (p_standin); data files come from the real writer."""
import sys, os, re, io, time, shutil, tempfile, itertools, subprocess, glob, hashlib, copy, inspect
import xml.etree.ElementTree as ET
REPO = os.environ.get("ALS_REPO", "/repo"); BUILD = os.environ["ALS_BUILD"]

class H:
    thorough = False; shard = 0; nshards = 1; only = None; budget = 0
    counter = 0; cur = "start"; counts = {}; keys = {}; samples = 0; states = set(); t0 = time.time()
def begin(name):
    c = H.counter; H.counter += 1
    if H.only is not None:
        if H.only != name: return False
    elif c % H.nshards != H.shard: return False
    H.cur = name
    if "HX_CASES" in os.environ: print("CASE", round(time.time() - H.t0, 1), name, file=sys.stderr)
    return True
def viol(key, d):
    H.keys[key] = H.keys.get(key, 0) + 1; count("violations")
    if H.keys[key] <= 3: print(f"VIOL {key}|case {H.cur}: {d[:1500]}".replace("\n", " "), flush=True)
def count(n, k=1): H.counts[n] = H.counts.get(n, 0) + k
def sample(t):
    if H.samples < 2: print("SAMPLE " + t.replace("\n", " ")[:600])
    H.samples += 1
def timeUp():
    if H.budget and time.time() - H.t0 > H.budget: H.counts["cap_time"] = 1; return True
    return False
a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == "--thorough": H.thorough = True
    elif x == "--shard": H.shard, H.nshards = map(int, a.pop(0).split("/"))
    elif x == "--only": H.only = a.pop(0)
    elif x == "--budget": H.budget = float(a.pop(0))

SCR = tempfile.mkdtemp(prefix="hx_scratch_", dir="/tmp")
TMP = SCR + "/tmp"; WORK = SCR + "/work"; BIN = SCR + "/bin"; PKG = SCR + "/pkg"; REC = SCR + "/record"; ELSE = SCR + "/else"
for d in (TMP, WORK, BIN, PKG + "/alsvinn", ELSE): os.makedirs(d)
os.environ.update(TMPDIR=TMP, MPLBACKEND="Agg", MPLCONFIGDIR=SCR + "/mpl", STANDIN_OUT=REC, PATH=BIN + ":" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1")
os.environ.pop("OMP_NUM_THREADS", None); os.environ.pop("STANDIN_END", None); tempfile.tempdir = TMP
for n in ("mpirun", "wrap", "cliA", "cliB", "uqA", "uqB"): os.symlink(BUILD + "/bin/p_standin", BIN + "/" + n)
for f in glob.glob(REPO + "/python/alsvinn/*.py"): shutil.copy(f, PKG + "/alsvinn")
cfg = open(REPO + "/python/alsvinn/config.py.in").read()
cfg = cfg.replace("${CMAKE_BINARY_DIR}/alsvinncli/alsvinncli", BIN + "/cliA").replace("${CMAKE_BINARY_DIR}/alsuqcli/alsuqcli", BIN + "/uqA")
cfg = cfg.replace("${ALSVINN_USE_FLOAT}", "OFF").replace("${ALSVINN_USE_CUDA}", "OFF").replace("${ALSVINN_USE_MPI}", "ON").replace("${CMAKE_SOURCE_DIR}", REPO)
open(PKG + "/alsvinn/config.py", "w").write(re.sub(r"\$\{\w+\}", "x", cfg))
sys.path.insert(0, PKG); sys.dont_write_bytecode = True
def clean():
    shutil.rmtree(SCR, ignore_errors=True)
import atexit; atexit.register(clean)
os.chdir(WORK)
try: import alsvinn, numpy, netCDF4, matplotlib, matplotlib.pyplot
except Exception as e: print("HARNESS-ERROR cannot import the front end: %r" % e); sys.exit(3)

# ---------------------------------------------------------------- settings in canonical form
LISTS = {"parameters", "stats", "functionals", "values"}
def words(t):
    out = []
    for w in str(t).split():
        try: out.append(float(w))
        except ValueError: out.append(w)
    return tuple(out)
def empty(v): return v in ({}, [], ())
def norm(v, key=""):
    """dict/list/text -> canonical form (lists for the lists of the format, tuples of words for text)"""
    if isinstance(v, dict):
        r = {k: norm(x, k) for k, x in v.items()}
        r = {k: x for k, x in r.items() if not empty(x)}
        if key in LISTS: return [y for x in r.values() for y in (x if isinstance(x, list) else [x])]
        return r
    if isinstance(v, (list, tuple, numpy.ndarray)):
        if key in LISTS: return [norm(x) for x in v]
        return tuple(y for x in v for y in words(x))
    if v is None: return ()
    if v is True or v is False: return (float(v),)
    return words(v)
def tree(e):
    """the settings a configuration file states"""
    kids = list(e)
    if not kids: return words(e.text or "")
    if e.tag in LISTS:
        if e.tag == "values" and any(k.tag != "value" for k in kids): raise ValueError("values must be <value> elements")
        return [tree(k) for k in kids]
    r = {}
    for k in kids:
        if k.tag in r: raise ValueError(k.tag + " is given twice")
        r[k.tag] = tree(k)
    return {k: x for k, x in r.items() if not empty(x)}
def parse(text): return tree(ET.fromstring(text))
def differ(a, b, p=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a: return f"{p}/{k} = {b[k]} is extra" if True else ""
            if k not in b: return f"{p}/{k} = {a[k]} is missing"
            d = differ(a[k], b[k], p + "/" + k)
            if d: return d
        return ""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b): return f"{p} has {len(b)} items instead of {len(a)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{p}[{i}]")
            if d: return d
        return ""
    return "" if a == b else f"{p} is {b} instead of {a}"

# ---------------------------------------------------------------- calls of the programs
def records():
    if not os.path.exists(REC): return []
    d = open(REC, "rb").read(); os.unlink(REC); pos = 0; out = []
    def field():
        nonlocal pos
        e = d.index(b"\n", pos); n = int(d[pos:e]); pos = e + 1 + n
        return d[e + 1:pos].decode()
    while pos < len(d):
        n = int(field()); argv = [field() for _ in range(n)]
        out.append(dict(argv=argv, omp=field(), xml=field(), script=field()))
    return out
def command(argv, prefix=0):
    """(prefix words, started through, program, division, configuration file)"""
    pre = argv[:prefix]; a = argv[prefix:]; through = ""; np_ = 1
    if os.path.basename(a[0]) == "mpirun":
        through = "mpirun"
        if a[1] not in ("-np", "-n"): raise ValueError("mpirun without a number of processes")
        np_ = int(a[2]); a = a[3:]
    prog = a[0]; a = a[1:]; div = {}; xml = []
    while a:
        w = a.pop(0)
        if w in ("--multi-x", "--multi-y", "--multi-z", "--multi-sample"):
            if w in div: raise ValueError(w + " is given twice")
            div[w] = int(a.pop(0))
        else: xml.append(w)
    return pre, np_, prog, {k: v for k, v in div.items() if v != 1}, xml
def fresh():
    for d in (WORK, ELSE, TMP):
        for f in os.listdir(d):
            p = d + "/" + f; shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    if os.path.exists(REC): os.unlink(REC)
def leftovers(): return [f for f in os.listdir(TMP)]

def expectCall(rec, name, settings, script, prog, uq, mx, my, mz, ms, prefix, omp, what):
    """checks one recorded call against what it should be"""
    if len(rec) != 1: viol("calls", f"{what}: {len(rec)} programs were started instead of one"); return None
    r = rec[0]; pre = prefix.split()
    try: got = command(r["argv"], len(pre))
    except Exception as e: viol("command", f"{what}: {e}: {r['argv']}"); return None
    n = mx * my * mz * ms; div = {k: v for k, v in (("--multi-x", mx), ("--multi-y", my), ("--multi-z", mz), ("--multi-sample", ms if uq else 1)) if v != 1}
    want = (pre, n, prog, div, [name + ".xml"])
    if got != want: viol("command", f"{what}: called {r['argv']}, wanted (prefix, processes, program, division, file) {want}")
    if r["omp"] != ("\x01unset" if omp is None else str(omp)): viol("threads", f"{what}: OMP_NUM_THREADS was {r['omp']!r} instead of {omp}")
    if r["xml"].startswith("\x01"): viol("settings", f"{what}: no configuration file"); return None
    try: t = parse(r["xml"])
    except Exception as e: viol("settings", f"{what}: unreadable configuration: {e}"); return None
    H.states.add(hashlib.md5(repr(t).encode()).digest()[:8])
    if settings is not None:
        d = differ(settings, t)
        if d: viol("settings", f"{what}: {d}")
    if script is not None and r["script"] != script: viol("script", f"{what}: the initial data script is {r['script'][:200]!r} instead of {script[:200]!r}")
    return t

# ---------------------------------------------------------------- run() and its arguments
S1, S2 = "rho = 1.0\nux = 0.\np = 2 # <first> & é\n", "rho = x\nux = y\np = 1\n"
FUN = [dict(name="moment", functionalParameters=dict(order=2, variables="rho"), numberOfSaves=3, writer=dict(type="netcdf", basename="f&g <1>")),
       dict(name="identity", time=0.5, timeRadius=0.25, writer=dict(type="python", basename="w", pythonFile="a b.py"))]
ARGS = dict(
    name=["n1", "other name"], equation=["burgers", "euler3"], lower_corner=[[-1.5, 0.25, 2], (0, -3, 0.1)], upper_corner=[[3, 4.5, 7], numpy.array([10., 1e-3, 12345678.901])],
    dimension=[[4, 3, 2], (7, 1, 1)], flux=["godunov", "roe"], T=[0.1, 2], boundary=["periodic"], reconstruction=["eno3", "none"], cfl=[0.25, "auto"], integrator=["forwardeuler"],
    initial_parameters=[{}, {"X": [0.5]}, {"a": [1.0, 2.5, -3e-7], "b": [4]}], number_of_saves=[3, 0], initial_data_file=["in.py", "sub/deep.py", "SAME"], initial_data_script=[S1],
    equation_parameters=[{"gamma": 1.67}, {"a": 1.0, "b": 2}], platform=["cuda"], alsvinncli=[BIN + "/cliB"], alsuqcli=[BIN + "/uqB"], prepend_alsvinncli=["wrap", "wrap -x  3"], omp_num_threads=[3],
    multix=[2], multiy=[3], multiz=[2], uq=[True], sampleStart=[0, 5], multiSample=[2], statistics=[[], ["meanvar", "structure"]], samples=[1, 12], generator=["stlmersenne", "auto"],
    diffusion=[("tecno1", "none"), ("tecnoroe", "eno2")], functionals=[[], FUN[:1], FUN], write_initial_timestep=[False])
DIRECT = dict(equation="equation", flux="flux", T="endTime", boundary="boundary", reconstruction="reconstruction", cfl="cfl", integrator="integrator", platform="platform")

def apply(base, args, hasBase, baseScript):
    """the settings run() should ask for: those of the base with what the arguments say; and the script"""
    t = copy.deepcopy(base); f = t.setdefault("fvm", {}); u = t.setdefault("uq", {})
    given = lambda k: k in args
    if given("name"): f["name"] = words(args["name"])
    name = args.get("name", None); nm = f["name"]
    for k, tag in DIRECT.items():
        if given(k): f[tag] = words(args[k])
    for k, tag in (("lower_corner", "lowerCorner"), ("upper_corner", "upperCorner"), ("dimension", "dimension")):
        if given(k): f["grid"][tag] = norm(args[k])
    first = (float(args.get("write_initial_timestep", True)),)
    if given("number_of_saves") or not hasBase:
        f["writer"] = dict(type=("netcdf",), basename=nm, numberOfSaves=words(args.get("number_of_saves", None if hasBase else DEFSAVES)), writeInitialTimestep=first)
    script = baseScript
    if given("initial_data_script"): script = args["initial_data_script"]
    elif given("initial_data_file"): script = CONTENT[args["initial_data_file"]]
    f["initialData"]["python"] = words(" ".join(nm) + ".py")
    if given("initial_data_script") or given("initial_data_file") or not hasBase or given("initial_parameters"):
        p = args.get("initial_parameters", {}); out = []
        for k, v in p.items():
            e = dict(name=words(k), length=(float(len(v)),))
            if len(v) == 1: e["value"] = words(v[0])
            else: e["values"] = [words(x) for x in v]
            out.append(e)
        f["initialData"].pop("parameters", None)
        if out: f["initialData"]["parameters"] = out
    if given("equation_parameters"): f["equationParameters"] = norm(args["equation_parameters"])
    if given("statistics") or not hasBase:
        saves = args.get("number_of_saves", 1 if hasBase else DEFSAVES)
        st = [dict(name=words(s), numberOfSaves=words(saves), writeInitialTimestep=first, writer=dict(type=("netcdf",), basename=nm)) for s in args.get("statistics", DEFSTATS)]
        u.pop("stats", None)
        if st: u["stats"] = st
    if given("functionals"):
        f.pop("functionals", None)
        if args["functionals"]: f["functionals"] = norm(args["functionals"], "functionals")
    for k in ("samples", "generator", "sampleStart"):
        if given(k): u[k] = words(args[k])
    if given("diffusion"): f["diffusion"] = dict(name=words(args["diffusion"][0]), reconstruction=words(args["diffusion"][1]))
    return {k: v for k, v in t.items() if not empty(v)}, script
CONTENT = {}
def putFiles(name):
    os.makedirs(WORK + "/sub", exist_ok=True)
    for k, c in (("in.py", "rho = 3\n"), ("sub/deep.py", "rho = 4 # deep\n")): open(WORK + "/" + k, "w").write(c); CONTENT[k] = c
    CONTENT["SAME"] = "rho = 5 # in place\n"
def callRun(args, base_xml, name):
    k = dict(args)
    if "diffusion" in k: k["diffusion_operator"], k["diffusion_reconstruction"] = k.pop("diffusion")
    if k.get("initial_data_file") == "SAME": k["initial_data_file"] = name + ".py"; open(name + ".py", "w").write(CONTENT["SAME"])
    if base_xml: k["base_xml"] = base_xml
    return alsvinn.run(**copy.deepcopy(k))
def sensible(args, hasBase):
    if args.get("multiSample", 1) != 1 and not args.get("uq"): return False       # only ensembles have samples to divide
    if hasBase and "write_initial_timestep" in args and not ("number_of_saves" in args or "statistics" in args): return False
    if hasBase and ("initial_data_file" in args or "initial_data_script" in args) and "initial_parameters" not in args: return False   # whether the old parameters stay is left open
    if "initial_data_file" in args and "initial_data_script" in args: return False
    return True
def show(args): return ", ".join(f"{k}={v!r}" for k, v in args.items())
DEFSAVES = 1; DEFSTATS = []; DEFAULT = None; DEFSCRIPT = None; DEFNAME = None
def learnDefaults():
    """what run() without arguments asks for is where the other runs start from"""
    global DEFAULT, DEFSCRIPT, DEFNAME, DEFSAVES, DEFSTATS
    fresh(); alsvinn.run(); r = records()
    if len(r) != 1: raise RuntimeError("run() started %d programs" % len(r))
    DEFAULT = parse(r[0]["xml"]); DEFSCRIPT = r[0]["script"]; DEFNAME = " ".join(DEFAULT["fvm"]["name"])
    DEFSAVES = int(DEFAULT["fvm"]["writer"]["numberOfSaves"][0]); DEFSTATS = [" ".join(s["name"]) for s in DEFAULT["uq"].get("stats", [])]
def oneRun(args, what, base_xml=None, base=None, baseScript=None):
    name = args.get("name", " ".join(base["fvm"]["name"]) if base else DEFNAME); putFiles(name)
    before = open(base_xml).read() if base_xml else None
    count("transitions"); count("executions")
    try: o = callRun(args, base_xml, name)
    except Exception as e: viol("refused", f"{what}: {type(e).__name__}: {e}"); records(); return None
    want, script = apply(base or DEFAULT, args, base is not None, baseScript if base else DEFSCRIPT)
    uq = args.get("uq", False)
    prog = args.get("alsuqcli", BIN + "/uqA") if uq else args.get("alsvinncli", BIN + "/cliA")
    expectCall(records(), name, want, script, prog, uq, args.get("multix", 1), args.get("multiy", 1), args.get("multiz", 1), args.get("multiSample", 1),
               args.get("prepend_alsvinncli", ""), args.get("omp_num_threads"), what)
    if base_xml and open(base_xml).read() != before: viol("base-changed", f"{what}: the base configuration was changed")
    if leftovers(): viol("leftover", f"{what}: left {leftovers()} among the temporary files")
    for k, c in CONTENT.items():
        if k != "SAME" and open(WORK + "/" + k).read() != c: viol("source-changed", f"{what}: {k} was changed")
    for k, v in args.items():
        pass
    return o
def combos(depth):
    items = [(k, v) for k in ARGS for v in range(len(ARGS[k]))]
    for d in range(depth + 1):
        for c in itertools.combinations(items, d):
            if len({k for k, _ in c}) == d: yield c

# ---------------------------------------------------------------- base configurations
def baseXml(variant):
    stats, funs, pars, style, uqpars = variant
    c = "<!-- a remark -->" if style == "remarks" else ""
    sp = {"plain": " ", "remarks": " ", "spaces": "  ", "tabs": "\t", "lines": "\n     "}[style]
    pad = "\n      " if style in ("lines", "spaces") else ""
    def t(tag, s): return f"<{tag}>{c}{pad}{s}{pad}{c}</{tag}>"
    def lst(tag, items): return f"<{tag}>{c}" + c.join(items) + f"</{tag}>"
    stat = [f"<stat>{t('name', n)}{t('numberOfSaves', 2)}{extra}<writer>{t('type', 'netcdf')}{t('basename', b)}</writer></stat>" for n, b, extra in
            (("meanvar", "mv", ""), ("onepointmoment", "opm", "<p>3</p>"), ("structure_cube", "sc", "<p>2</p>"))[:stats]]
    fun = [f"<functional>{t('name', n)}<functionalParameters>{t('order', 2)}</functionalParameters><writer>{t('type', 'netcdf')}{t('basename', n)}</writer></functional>" for n in ("moment", "identity")[:funs]]
    par = [f"<parameter>{t('name', 'a')}<length>1</length><value>0.5</value></parameter>", f"<parameter>{t('name', 'b')}<length>3</length><values>{c}<value>1</value><value>-2.5</value><value>3e-5</value></values></parameter>",
           "<parameter><name>c</name><length>4</length><values><value>7</value></values></parameter>"][:pars]
    up = [f"<parameter>{t('name', n)}<length>{l}</length><type>{ty}</type>{extra}</parameter>" for n, l, ty, extra in (("a", 1, "uniform", ""), ("b", 3, "normal", "<mean>2</mean>"))[:max(uqpars, 0)]]
    uq = "" if stats is None or stats < 0 else f"<uq>{t('samples', 8)}{t('generator', 'auto')}{lst('parameters', up)}{lst('stats', stat)}</uq>"
    return f"""<?xml version="1.0"?>
{c}<config>{c}
<fvm>{c}{t('name', 'base')}{t('platform', 'cpu')}<grid>{c}<lowerCorner>{pad}{sp.join(['-5', '0.125', '1e-3'])}{pad}</lowerCorner><upperCorner>{sp.join(['5', '3.5', '2'])}</upperCorner>{t('dimension', sp.join(['16', '4', '2']))}</grid>
{t('boundary', 'neumann')}{t('flux', 'hll3')}{t('endTime', '1.25')}{t('equation', 'euler3')}{t('reconstruction', 'none')}{t('cfl', 'auto')}{t('integrator', 'auto')}
<initialData>{c}<python>{c}PYTHON{c}</python>{c}{lst('parameters', par)}</initialData>{lst('functionals', fun)}<equationParameters>{t('gamma', 1.4)}</equationParameters>
<writer>{t('type', 'netcdf')}{t('basename', 'base')}{t('numberOfSaves', 4)}{t('writeInitialTimestep', 'true')}</writer></fvm>{uq}</config>
"""
VARIANTS = [v for v in itertools.product((-1, 0, 1, 2, 3), (0, 1, 2), (0, 1, 2, 3), ("plain", "remarks", "spaces", "tabs", "lines"), (0, 1, 2)) if v[0] >= 0 or v[4] == 0]
PLACES = [("base.py", "else"), ("script.py", "else"), ("sub/script.py", "else"), ("script.py", "here"), ("base.py", "here")]
def baseCase(variant, place):
    """writes the files of a base configuration; returns (path, settings, script)"""
    py, where = place; text = baseXml(variant).replace("PYTHON", py)
    d = ELSE if where == "else" else WORK
    os.makedirs(os.path.dirname(d + "/" + py), exist_ok=True); open(d + "/" + py, "w").write(S2); open(d + "/source.xml", "w").write(text)
    t = parse(text); f = t["fvm"]
    if "uq" in t and variant[4] == 0 and "parameters" in f["initialData"]:       # uncertain parameters left out: all of them, uniform
        t["uq"]["parameters"] = [dict({k: x for k, x in p.items() if k in ("name", "length")}, type=("uniform",)) for p in f["initialData"]["parameters"]]
    return (d + "/source.xml" if where == "else" else "source.xml"), t, S2

def runs():
    for c in combos(3 if H.thorough else 2):
        args = {k: ARGS[k][v] for k, v in c}
        what = "run(" + show(args) + ")"
        if not sensible(args, False) or not begin("run " + " ".join(f"{k}:{v}" for k, v in c)): continue
        if timeUp(): return
        fresh(); o = oneRun(args, what); sample(what)
    if True:   # everything at once, and everything but one
        full = {k: v[-1] for k, v in ARGS.items() if k != "initial_data_script"}
        for drop in [None] + list(full):
            args = {k: v for k, v in full.items() if k != drop}
            if sensible(args, False) and begin(f"all but {drop}"): fresh(); oneRun(args, f"run(everything but {drop})")
def usable(variant): return variant[0] < 0 or variant[4] > 0 or variant[2] > 0      # an ensemble needs parameters
def based():
    for variant in VARIANTS:
        for place in PLACES if H.thorough or variant[0] == variant[4] == 1 else PLACES[:2]:
            if not usable(variant) or not begin(f"base {variant} {place}".replace(": ", ":")): continue
            if timeUp(): return
            fresh(); p, t, s = baseCase(variant, place); oneRun({}, f"run(base_xml) of {variant} with the script {place}", p, t, s)
    pick = [v for v in VARIANTS if usable(v) and v[3] == "plain" and v[:3] in ((-1, 0, 0), (2, 2, 3), (1, 1, 1), (0, 0, 1))][:: 1 if H.thorough else 2]
    for variant in pick:
        for place in PLACES[:3]:
            for c in combos(2 if H.thorough or (variant[:3] == (1, 1, 1) and place[0] == "base.py") else 1):
                args = {k: ARGS[k][v] for k, v in c}
                if not args or not sensible(args, True): continue
                if variant[0] < 0 and ({"samples", "generator", "sampleStart", "statistics"} & set(args)): pass
                if not begin(f"base {variant} {place} with " + " ".join(f"{k}:{v}" for k, v in c)): continue
                if timeUp(): return
                fresh(); p, t, s = baseCase(variant, place); oneRun(args, f"run(base_xml {variant}, {show(args)})", p, t, s)
    for f in sorted(glob.glob(REPO + "/examples/**/*.xml", recursive=True)):
        if not begin("example " + os.path.relpath(f, REPO)): continue
        text = open(f).read()
        try: t = parse(text)
        except Exception: continue
        py = t.get("fvm", {}).get("initialData", {}).get("python")
        if not py or not os.path.exists(os.path.join(os.path.dirname(f), " ".join(py))): continue
        if "uq" in t and "parameters" not in t["uq"]: continue
        fresh(); oneRun({}, f"run(base_xml={f})", f, t, open(os.path.join(os.path.dirname(f), " ".join(py))).read())

# ---------------------------------------------------------------- sequences of operations on a settings object
class Model:
    def __init__(s, t, script): s.t = copy.deepcopy(t); s.script = script
def setf(k, v):
    def m(M): M.t["fvm"][k] = norm(v, k)
    return (f"set_fvm_value({k},{v})", lambda o: o.set_fvm_value(k, v), m)
def operations():
    ops = [setf("flux", "godunov"), setf("flux", "roe"), setf("endTime", 0.75), setf("name", "renamed")]
    def data(par, n):
        def f(o):
            open(WORK + f"/data{n}.py", "w").write(f"rho = {n}\n"); o.set_initial_data(WORK + f"/data{n}.py", par)
        def m(M):
            M.script = f"rho = {n}\n"; M.t["fvm"]["initialData"] = {}
            if par: M.t["fvm"]["initialData"]["parameters"] = [dict(name=words(k), length=(float(len(v)),), **(dict(value=words(v[0])) if len(v) == 1 else dict(values=[words(x) for x in v]))) for k, v in par.items()]
        return (f"set_initial_data({n},{par})", f, m)
    ops += [data(None, 1), data({"q": [2.5]}, 2), data({"q": [1, 2], "r": [3]}, 3)]
    ops += [("remove_fvm_writer", lambda o: o.remove_fvm_writer(), lambda M: M.t["fvm"].pop("writer", None))]
    def eqp(p): return (f"set_equation_parameters({p})", lambda o: o.set_equation_parameters(dict(p)), lambda M: M.t["fvm"].__setitem__("equationParameters", norm(p)))
    ops += [eqp({"gamma": 1.25})]
    def wr(ty, b, n, i):
        return (f"set_fvm_writer({ty},{b},{n},{i})", lambda o: o.set_fvm_writer(ty, b, n, i),
                lambda M: M.t["fvm"].__setitem__("writer", dict(type=words(ty), basename=words(b), numberOfSaves=words(n), writeInitialTimestep=(float(i),))))
    ops += [wr("netcdf", "out", 5, True), wr("hdf5", "o2", 1, False)]
    def grid(lo, up, di): return (f"set_cartesian_grid", lambda o: o.set_cartesian_grid(list(lo), list(up), list(di)), lambda M: M.t["fvm"].__setitem__("grid", dict(lowerCorner=norm(lo), upperCorner=norm(up), dimension=norm(di))))
    ops += [grid((0, 1, 2), (3.5, 4, 5), (6, 7, 8))]
    def part(fn, tag, v):
        return (f"{fn}({v})", lambda o: getattr(o, fn)(list(v)), lambda M: M.t["fvm"].setdefault("grid", {}).__setitem__(tag, norm(v)))
    ops += [part("set_lower_corner", "lowerCorner", (-7, -8, -9.5)), part("set_upper_corner", "upperCorner", (70, 80, 90)), part("set_dimension", "dimension", (3, 1, 1))]
    ops += [("set_uq_value(samples)", lambda o: o.set_uq_value("samples", 9), lambda M: M.t.setdefault("uq", {}).__setitem__("samples", (9.,)))]
    def stat(n, b, k, i):
        def m(M): M.t.setdefault("uq", {}).setdefault("stats", []).append(dict(name=words(n), numberOfSaves=words(k), writeInitialTimestep=(float(i),), writer=dict(type=("netcdf",), basename=words(b))))
        return (f"add_statistics({n})", lambda o: o.add_statistics(n, "netcdf", b, k, i), m)
    ops += [stat("meanvar", "s1", 2, True), stat("structure", "s2", 1, False)]
    def fun(x):
        def m(M): M.t["fvm"].setdefault("functionals", []).append(norm(x))
        return (f"add_functional({x['name']})", lambda o: o.add_functional(copy.deepcopy(x)), m)
    ops += [fun(FUN[0]), fun(FUN[1])]
    def dist(M):
        for p in M.t["uq"]["parameters"]: p["type"] = ("normal",)
    ops += [("set_distribution(normal)", lambda o: o.set_distribution("normal"), dist)]
    ops += [("set_diffusion", lambda o: o.set_diffusion("tecno1", "eno2"), lambda M: M.t["fvm"].__setitem__("diffusion", dict(name=("tecno1",), reconstruction=("eno2",))))]
    ops += [("run", None, None)]
    return ops
CONF = {"name": "conf", "platform": "cpu", "boundary": "periodic", "flux": "hll", "endTime": 0.5, "equation": "euler1", "reconstruction": "none", "cfl": "auto", "integrator": "auto",
        "grid": {"lowerCorner": [0, 0, 0], "upperCorner": [1, 0, 0], "dimension": [8, 1, 1]}, "initialData": {"python": "conf_data.py"}, "writer": {"type": "netcdf", "basename": "conf"}}
def starts():
    def fromXml(variant, place):
        def f(): p, t, s = baseCase(variant, place); return alsvinn.Alsvinn(p), Model(t, s)
        return f
    def fromConf():
        open(WORK + "/conf_data.py", "w").write(S1); c = copy.deepcopy(CONF); o = alsvinn.Alsvinn(configuration=c); return o, Model({"fvm": norm(CONF)}, S1)
    def fromRun():
        o = alsvinn.run(); records(); return o, Model(DEFAULT, DEFSCRIPT)
    return [("xml 1 1", fromXml((1, 1, 1, "plain", 1), PLACES[0])), ("xml 0 0", fromXml((0, 0, 2, "remarks", 0), PLACES[1])), ("xml 2 2", fromXml((2, 2, 3, "lines", 2), PLACES[2])), ("configuration", fromConf), ("run", fromRun)]
RUNS = [dict(), dict(multix=2, multiz=3), dict(uq=True), dict(uq=True, multiSample=2, multiy=2)]
def doRun(o, M, r, what):
    name = " ".join(M.t["fvm"]["name"]); count("executions")
    try: o.run(**r)
    except Exception as e: viol("refused", f"{what}: {type(e).__name__}: {e}"); records(); return
    t = copy.deepcopy(M.t); t["fvm"]["initialData"] = dict(t["fvm"]["initialData"], python=words(name + ".py"))
    t = {k: v for k, v in t.items() if not empty(v)}
    expectCall(records(), name, t, M.script, BIN + ("/uqA" if r.get("uq") else "/cliA"), r.get("uq", False), r.get("multix", 1), r.get("multiy", 1), r.get("multiz", 1), r.get("multiSample", 1), "", None, what)
def sequences():
    ops = operations(); method = [o[0].split("(")[0] for o in ops]
    reps = [i for i in range(len(ops)) if method.index(method[i]) == i]           # one of each method
    for sname, start in starts():
        main = sname in ("xml 1 1", "configuration")
        def seqs():
            for d in range(4 if H.thorough else 3): yield from itertools.product(range(len(ops)), repeat=d)
            if main: yield from itertools.product(reps, repeat=4 if H.thorough else 3)
        for seq in seqs():
                if not begin(f"ops {sname} " + " ".join(map(str, seq))): continue
                if timeUp(): return
                fresh(); what = f"{sname}: " + ", ".join(ops[i][0] for i in seq)
                try: o, M = start()
                except Exception as e: viol("refused", f"{what}: cannot start: {type(e).__name__}: {e}"); continue
                bad = False
                for n, i in enumerate(seq):
                    nm, f, m = ops[i]; count("transitions")
                    if f is None: doRun(o, M, RUNS[(n + 1) % 4], what + f" (run at {n})"); continue
                    if nm.startswith("set_distribution") and not M.t.get("uq", {}).get("parameters"): continue
                    try: f(o); m(M)
                    except Exception as e: viol("refused", f"{what}: {nm}: {type(e).__name__}: {e}"); bad = True; break
                if not bad: doRun(o, M, RUNS[len(seq) % 4], what)
                sample(what)

# ---------------------------------------------------------------- programs that fail
def failures():
    for uq, np_ in itertools.product((False, True), (1, 2)):
        for how in ("code1", "code255", "code2 talk", "signal11", "signal6", "signal9", "signal15 talk", "code0 talk", "missing"):
            for again in (False, True):
                if not begin(f"end {how} uq {uq} processes {np_} again {again}".replace(" talk", "+talk")): continue
                fresh(); bad = not how.startswith("code0"); kw = dict(uq=uq, multix=np_)
                count("executions"); count("transitions")
                if how == "missing": kw.update({"alsuqcli" if uq else "alsvinncli": SCR + "/nowhere"})
                else: os.environ["STANDIN_END"] = how
                if how == "missing" and np_ == 2: os.environ["STANDIN_END"] = "code1"      # mpirun reports it
                try: alsvinn.run(**kw); raised = False
                except Exception as e: raised = True
                finally: os.environ.pop("STANDIN_END", None)
                if raised != bad: viol("outcome", f"{'uq' if uq else 'fvm'} on {np_}: a program ending with {how} was {'reported as failed' if raised else 'taken for a success'}")
                n = len(records())
                if n != (0 if how == "missing" and np_ == 1 else 1): viol("calls", f"{how}: {n} programs were started")
                if leftovers(): viol("leftover", f"{how}: left {leftovers()} among the temporary files")
                if again: oneRun({}, f"run() after a failure ({how})")

# ---------------------------------------------------------------- reading back
def code(q, s, i, j, k): return 1000000. * q + 100000. * s + 10000. * i + 100. * j + k
NAMES = ["rho", "mx", "E"]
def write(dims, lo, up, base, saves, T, names=NAMES):
    subprocess.run([BUILD + "/bin/p_write"] + [repr(x) if isinstance(x, float) else str(x) for x in list(dims) + list(lo) + list(up)] + [base, str(saves), repr(float(T))] + names, check=True)
def ensembleFile(path, dims, samples, names, s, T):
    """a file of single samples: sample_<n>_<variable>, axes as in the other files"""
    with netCDF4.Dataset(path, "w") as f:
        nx, ny, nz = dims; shape = [("z", nz), ("y", ny), ("x", nx)] if nz > 1 else [("y", ny), ("x", nx), ("z", nz)] if ny > 1 else [("x", nx), ("y", ny), ("z", nz)]
        f.createDimension("t", 1)
        for n, l in shape: f.createDimension(n, l)
        f.createVariable("time", "f8", ("t",))[:] = T
        for m in samples:
            for q, v in enumerate(names):
                d = f.createVariable(f"sample_{m}_{v}", "f8", tuple(n for n, _ in shape)); idx = numpy.indices([l for _, l in shape]); ax = {n: idx[i] for i, (n, _) in enumerate(shape)}
                d[:] = code(q + 10 * m, s, ax["x"], ax["y"], ax["z"])
def expectArray(dims, q, s):
    nx, ny, nz = dims
    if nz > 1: return numpy.array([[[code(q, s, i, j, k) for i in range(nx)] for j in range(ny)] for k in range(nz)])
    if ny > 1: return numpy.array([[code(q, s, i, j, 0) for i in range(nx)] for j in range(ny)])
    return numpy.array([code(q, s, i, 0, 0) for i in range(nx)])
def same(a, b): return numpy.shape(a) == numpy.shape(b) and bool(numpy.all(numpy.asarray(a) == numpy.asarray(b)))
def close(a, b, scale): return numpy.shape(a) == numpy.shape(b) and bool(numpy.all(numpy.abs(numpy.asarray(a) - numpy.asarray(b)) <= 1e-12 * scale))
def mid(lo, up, n): return numpy.array([lo + (up - lo) * (i + 0.5) / n for i in range(n)])
def checkGrid(o, dims, lo, up, what):
    nx, ny, nz = dims; sc = max(map(abs, list(lo) + list(up)))
    if not close(o.get_line_segment(), mid(lo[0], up[0], nx), sc): viol("coordinates", f"{what}: get_line_segment gives {o.get_line_segment()} instead of the cell midpoints {mid(lo[0], up[0], nx)}")
    if ny > 1 and nz == 1:
        x, y = o.get_2d_grid(); mx, my = mid(lo[0], up[0], nx), mid(lo[1], up[1], ny)
        if numpy.shape(x) != (ny, nx) or numpy.shape(y) != (ny, nx): viol("coordinates", f"{what}: get_2d_grid has shape {numpy.shape(x)}, the data {(ny, nx)}")
        elif not all(abs(x[j][i] - mx[i]) <= 1e-12 * sc and abs(y[j][i] - my[j]) <= 1e-12 * sc for i in range(nx) for j in range(ny)): viol("coordinates", f"{what}: get_2d_grid does not give the cell midpoints: {x.tolist()}, {y.tolist()}")
    d = 3 if nz > 1 else 2 if ny > 1 else 1
    if o.get_dimension() != d: viol("dimension", f"{what}: get_dimension gives {o.get_dimension()} instead of {d}")
def checkPlot(o, dims, lo, up, var, k, q, what, **kw):
    nx, ny, nz = dims; plt = matplotlib.pyplot; plt.close("all")
    o.plot(var, k, **kw); ax = plt.gcf().axes[0]
    if ny == 1:
        l = ax.get_lines()
        if len(l) != 1 or not close(l[0].get_xdata(), mid(lo[0], up[0], nx), 1e3) or not same(l[0].get_ydata(), expectArray(dims, q, k)): viol("plot", f"{what}: the curve is not the data over the cell midpoints")
    else:
        m = ax.collections[0]; c = numpy.asarray(m.get_coordinates()); v = numpy.asarray(m.get_array()).reshape(c.shape[0] - 1, c.shape[1] - 1)
        for i, x in enumerate(mid(lo[0], up[0], nx)):
            for j, y in enumerate(mid(lo[1], up[1], ny)):
                hit = [v[a][b] for a in range(v.shape[0]) for b in range(v.shape[1]) if min(c[a][b][0], c[a + 1][b + 1][0]) < x < max(c[a][b][0], c[a + 1][b + 1][0]) and min(c[a][b][1], c[a + 1][b + 1][1]) < y < max(c[a][b][1], c[a + 1][b + 1][1])]
                if hit != [code(q, k, i, j, 0)]: viol("plot", f"{what}: at the midpoint of cell {i},{j} the plot shows {hit} instead of {code(q, k, i, j, 0)}"); plt.close("all"); return
    plt.close("all")
def reading():
    shapes = [(2, 1, 1), (5, 1, 1), (12, 1, 1), (2, 3, 1), (5, 2, 1), (3, 3, 1), (2, 3, 4), (4, 2, 3), (3, 3, 3)] + ([(31, 1, 1), (7, 11, 1), (2, 2, 2), (5, 4, 3)] if H.thorough else [])
    places = [((0., 0., 0.), (1., 1., 1.)), ((-5., 0.5, 3.), (5., 2.25, 3.5)), ((100., -1e-3, 0.), (100.5, 1e-3, 7.))]
    for dims, (lo, up), saves, where in itertools.product(shapes, places, (0, 1, 3, 11), ("here", "else")):
        if not begin(f"read {dims} {lo} {up} saves {saves} {where}"): continue
        if timeUp(): return
        fresh(); what = f"{dims} from {lo} to {up}, {saves} saves, {where}"; T = 0.7
        o = alsvinn.run(name="out", dimension=list(dims), lower_corner=list(lo), upper_corner=list(up), T=T, number_of_saves=saves); records()
        d = WORK if where == "here" else ELSE; o.data_path = "" if where == "here" else ELSE
        write(dims, lo, up, d + "/out", saves, T); count("executions")
        try:
            for k in range(saves + 1):
                for q, n in enumerate(NAMES):
                    count("transitions"); g = o.get_data(n, k)
                    if not same(g, expectArray(dims, q, k)): viol("data", f"{what}: {n} of snapshot {k} is {numpy.asarray(g).tolist()} instead of {expectArray(dims, q, k).tolist()}")
                if where == "here" and abs(float(o.get_time(k)) - T * k / max(saves, 1)) > 1e-14: viol("time", f"{what}: snapshot {k} is said to be at {o.get_time(k)}")
            checkGrid(o, dims, lo, up, what)
            if where == "here" and dims[2] == 1 and dims[0] > 1: checkPlot(o, dims, lo, up, "mx", saves, 1, what)
        except Exception as e: viol("unread", f"{what}: {type(e).__name__}: {e}")
        for v, k in (("nothing", 0), ("rho", saves + 1)):
            try: o.get_data(v, k); viol("unread", f"{what}: {v} of snapshot {k} does not exist and was read")
            except Exception: pass
        H.states.add((dims, lo, saves)); sample("read back " + what)
    for dims in shapes:
        for samples in ((0,), (0, 1, 2), (0, 1, 10, 11)):
            if not begin(f"samples {dims} {samples}"): continue
            fresh(); o = alsvinn.run(name="out", dimension=list(dims), lower_corner=[0, 0, 0], upper_corner=[1, 1, 1], number_of_saves=1); records(); count("executions")
            for k in (0, 1): ensembleFile(WORK + f"/out_{k}.nc", dims, samples, NAMES, k, k)
            for k, m, (q, n) in itertools.product((0, 1), samples, enumerate(NAMES)):
                count("transitions")
                try:
                    g = o.get_data(n, k, sample=m)
                    if not same(g, expectArray(dims, q + 10 * m, k)): viol("data", f"{dims}: {n} of sample {m}, snapshot {k} is {numpy.asarray(g).tolist()}")
                except Exception as e: viol("unread", f"{dims}: {n} of sample {m}, snapshot {k}: {type(e).__name__}: {e}")
            try: o.get_data("rho", 0, sample=max(samples) + 1); viol("unread", f"{dims}: a sample that does not exist was read")
            except Exception: pass
    STATS = [("meanvar", "", ["mean", "variance"]), ("onepointmoment", "<p>3</p>", ["m3"]), ("onepointmoment", "<p>2</p>", ["m2"]), ("structure_2pt", "", ["structure_2pt"]), ("structure_cube", "<p>2</p>", ["structure_cube_2"]),
             ("structure_cube", "<p>3</p>", ["structure_cube_3"]), ("bv_direction", "<p>2</p>", ["bv_x_2", "bv_y_2", "bv_z_2"]), ("functional", "<functionalName>moment</functionalName>", ["mean_moment"])]
    EVERY = [s for x in STATS for s in x[2]] + ["m4", "other", "structure_cube", "bv"]
    for n in (1, 2, 3) if H.thorough else (1, 2):
        for sel in itertools.permutations(range(len(STATS)), n):
            for how in ("xml", "object"):
                if not begin(f"statistics {how} {sel}"): continue
                fresh(); what = f"statistics {[STATS[i][:2] for i in sel]} ({how})"; count("executions"); dims = (3, 2, 1)
                try:
                    if how == "xml":
                        text = baseXml((0, 0, 0, "lines" if n == 2 else "plain", 1)).replace("PYTHON", "base.py"); st = "".join(f"<stat><name>{STATS[i][0]}</name>{STATS[i][1]}<writer><type>netcdf</type><basename>b{i}</basename></writer></stat>" for i in sel)
                        open("source.xml", "w").write(re.sub(r"<stats></stats>", f"<stats>{st}</stats>", text)); open("base.py", "w").write(S1); o = alsvinn.Alsvinn("source.xml")
                        if "b%d" % sel[0] not in open("source.xml").read(): raise RuntimeError("harness: no statistics in the file")
                        o.set_dimension(list(dims))
                    else:
                        if any(STATS[i][1] for i in sel): continue
                        o = alsvinn.run(name="out", dimension=list(dims), lower_corner=[0, 0, 0], upper_corner=[1, 1, 0], statistics=[]); records()
                        for i in sel: o.add_statistics(STATS[i][0], "netcdf", f"b{i}", 1, True)
                except Exception as e: viol("refused", f"{what}: {type(e).__name__}: {e}"); continue
                for i in sel:
                    for m, s in enumerate(STATS[i][2]): write(dims, (0, 0, 0), (1, 1, 0), f"b{i}_{s}", 1, 1, [f"d{n}" for n in range(3 * i + m)] + ["E"])
                have = {s: 3 * i + m for i in sel for m, s in enumerate(STATS[i][2])}
                for s in EVERY:
                    for k in (0, 1):
                        count("transitions")
                        try: g = o.get_data("E", k, statistics=s); err = None
                        except Exception as e: err = e
                        if s in have and err is not None: viol("unread", f"{what}: {s} {k}: {type(err).__name__}: {err}")
                        elif s in have and not same(g, expectArray(dims, have[s], k)): viol("data", f"{what}: {s} {k} is {numpy.asarray(g).tolist()}")
                        elif s not in have and err is None: viol("unread", f"{what}: {s} was not asked for and was read")

try: learnDefaults()
except Exception as e: viol("refused", f"run(): {type(e).__name__}: {e}"); DEFAULT = None
if DEFAULT is not None:
    count("executions"); start = time.time()
    for part in (failures, reading, based, sequences, runs):
        part()
        if "HX_CASES" in os.environ: print("PART", part.__name__, round(time.time() - start, 1), file=sys.stderr)
H.counts["states"] = len(H.states)
for k, v in H.counts.items(): print("STAT", k, v)
print("DONE", flush=True); clean(); os._exit(0)
