HX = ["hx.cpp", "mcrt.cpp", "fakepnetcdf.cpp", "sim.cpp"]
def T(name, **k):
    return dict(dict(variant="mc", sources=[name + ".cpp"] + HX), **k)
TARGETS = {n: T(n) for n in ["h_halo", "h_decomp", "h_parallel", "h_flux", "h_entropy", "h_rk", "h_recon", "h_bc", "h_conserve", "h_cfl", "h_monotone", "h_direction", "h_volume", "h_constraint", "h_saves", "h_windows", "h_output", "h_functional", "h_stats", "h_init"]}
for m in (19, 20, 21):
    TARGETS[f"h_ensemble{m}"] = T("h_ensemble", sources=["h_ensemble.cpp"] + HX, cxxflags=f"-DMODE={m}", without=["/PythonInitialData.cpp"])
TARGETS["h_config"] = T("h_config", without=["/PythonInitialData.cpp"])
TARGETS["h_faults"] = T("h_faults", sources=["h_faults.cpp", "cli_main.cpp", "uqcli_main.cpp"] + HX, without=["/PythonInitialData.cpp"])
TARGETS["h_plugin"] = T("h_plugin", ldflags="-rdynamic -Wl,--wrap=MPI_Barrier")
TARGETS["h_cli"] = T("h_cli", sources=["h_cli.cpp", "cli_main.cpp", "uqcli_main.cpp"] + HX, without=["/PythonInitialData.cpp"], ldflags="-Wl,--wrap=MPI_Finalize")
RT = ["hx.cpp", "mcrt.cpp", "fakepnetcdf.cpp"]
def TSI(name, **k):
    return dict(dict(variant="tsi", sources=[name + ".cpp", "sim.cpp"], plain=[name + ".cpp", "sim.cpp"], runtime=RT + ["racert.cpp"],
                     ldflags="-rdynamic -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset"), **k)
TARGETS["h_races"] = TSI("h_races")
TARGETS["h_queue"] = TSI("h_queue")
TARGETS["h_threads"] = dict(TSI("h_threads", runtime=RT + ["racert.cpp", "omprt.cpp"]), variant="omp")
TARGETS["p_standin"] = dict(variant="mc", sources=["p_standin.cpp"], lib="none", libs="")
TARGETS["p_write"] = T("p_write")
# a Python program that uses two others
TARGETS["h_python"] = dict(script="h_python.py", needs=["p_standin", "p_write"])
