"""Run one example project with forced serial or parallel generation; digest its tree."""
import sys, runpy, os, contextlib, io
mode, path = sys.argv[1:3]
import nrpy.params as par
orig = par.set_parval_from_str
def forced(name, value):
    return orig(name, (mode == "parallel") if name == "parallel_codegen_enable" else value)
par.set_parval_from_str = forced
sys.argv = [path]
runpy.run_path(path, run_name="__main__")
