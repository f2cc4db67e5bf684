#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property from /repo's current source."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
PY = "/opt/veriftools/pyvenv/bin/python3"
if os.path.exists(PY) and os.environ.get("WFA_PY") != "1":
    os.environ["WFA_PY"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(PY, [PY] + sys.argv)
from wfa.program import AnalysisBroken


def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    try:
        m = importlib.import_module("checks." + pid.lower())
        rc = m.run(tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        sys.exit(3)
    sys.exit(rc)


if __name__ == "__main__":
    main()
