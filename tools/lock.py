"""records the loop skeleton of every function under contract (run on the unchanged tree only)"""
import importlib, json, os, sys
sys.path[:0] = ["/verif/tools", "/verif/units"]
import common
from rsx import Crate
crate = Crate(common.expand())
lock = {}
for f in sorted(os.listdir("/verif/units")):
    if f.startswith("u_") and f.endswith(".py"):
        lock[f[2:-3]] = importlib.import_module(f[:-3]).unit().build(crate)[2]
json.dump(lock, open("/verif/units/lock.json", "w"), indent=0, sort_keys=True)
print({k: len(v) for k, v in lock.items()})
