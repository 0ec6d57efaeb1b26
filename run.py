#!/opt/venv/bin/python
"""python run.py <property id> [--tier quick|thorough] [--replay FILE]"""

import argparse
import glob
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument(
        "--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick"
    )
    ap.add_argument("--replay")
    a = ap.parse_args()
    from mc import core

    if a.selftest:  # the environment is complete, every check can be loaded
        core.load_target()
        for f in sorted(glob.glob(os.path.join(HERE, "mc", "c[0-9]*_*.py"))):
            importlib.import_module("mc." + os.path.basename(f)[:-3])
        os.makedirs(core.EVIDENCE, exist_ok=True)
        print("ready")
        sys.exit(0)

    name = glob.glob(os.path.join(HERE, "mc", f"{a.pid.lower()}_*.py"))[0]
    mod = importlib.import_module("mc." + os.path.basename(name)[:-3])
    sys.exit(core.run_check(a.pid, mod, a.tier, a.replay))
