#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree (see DESIGN.md)."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        core.TIER = sys.argv[2]
        os.environ["VERIF_TIER"] = sys.argv[2]
    rep = core.Report(prop)
    try:
        mod, fn = TABLE[prop]
        m = __import__("vlib." + mod, fromlist=[fn])
        getattr(m, fn)(rep)
        return rep.finish()
    except core.TooManyCrashes as e:
        if not rep.violations:
            rep.violation("the code under test dies or hangs on many inputs, one of them: %s -> %s" % e.args[:2], {"request": e.args[0], "answer": e.args[1]})
        rep.finish()
        return 1
    except core.CheckError as e:
        if rep.violations:
            rep.finish()
            return 1
        print("ERROR of the check %s: %s" % (prop, e))
        return 2
    except Exception:
        if rep.violations:
            rep.finish()
            return 1
        traceback.print_exc()
        return 2


TABLE = {"S%02d" % k: ("scan", "s%02d" % k) for k in range(1, 11)}
TABLE.update({"T%02d" % k: ("text", "t%02d" % k) for k in range(1, 5)})
TABLE.update({"R%02d" % k: ("prn", "r%02d" % k) for k in range(1, 4)})
TABLE.update({"P%02d" % k: ("path", "p%02d" % k) for k in range(1, 7)})
TABLE.update({"H%02d" % k: ("hdr", "h%02d" % k) for k in range(1, 4)})
TABLE["S11"] = ("misc", "s11")
TABLE["M04"] = ("mem", "m04")
TABLE["M05"] = ("par", "m05")
TABLE.update({"E%02d" % k: ("pipe", "e%02d" % k) for k in range(1, 4)})
TABLE.update({"M%02d" % k: ("misc", "m%02d" % k) for k in range(1, 4)})

if __name__ == "__main__":
    sys.exit(main())
