import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from rv import env  # the real code, from /repo's working tree
from rv import monitor

NAMES = {f[:3].upper(): f[:-3] for f in sorted(os.listdir(os.path.join(HERE, "rv", "checks"))) if f.startswith("c") and f.endswith(".py")}

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:  # nothing to compile; show that the real code and the framework load
        import importlib

        for n in NAMES.values():
            importlib.import_module("rv.checks." + n)
        print("checks:", " ".join(sorted(NAMES)))
        sys.exit(0)
    sys.exit(monitor.run(NAMES[sys.argv[1]], sys.argv[2:]))
