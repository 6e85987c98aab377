"""Warm build: the macro in the configuration most checks use (each check rebuilds what it needs)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
ctx = vlib.Ctx("setup")
try:
    print("built", vlib.macro_so(ctx))
finally:
    import shutil
    shutil.rmtree(ctx.scratch, ignore_errors=True)
