#!/opt/veriftools/pyvenv/bin/python
"""check.py <property id>: decide one property on /repo's current tree."""
import os, sys, importlib
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
import engine

pid = sys.argv[1]
mod = importlib.import_module(pid)
r = engine.Run(pid)
try:
    mod.main(r)
except Exception:
    import traceback
    r.errors.append(traceback.format_exc())
sys.exit(r.finish(**getattr(mod, "META", {})))
