import importlib, sys
from . import core

pid = sys.argv[1]
mod = importlib.import_module(f"harness.{pid.lower()}")
sys.exit(core.main(pid, mod.check))
