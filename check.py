#!/usr/bin/env python3
"""check.py <PROPERTY> [--replay FILE]: decide one property on /repo's working tree."""
import sys, os, json, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
from common import ToolError, build

FAMILY = {}
for i in range(1, 12): FAMILY["P%02d" % i] = "fam_pkg"
for i in (14, 15): FAMILY["P%d" % i] = "fam_crash"
FAMILY["P16"] = "fam_query"
for i in (12, 13): FAMILY["P%d" % i] = "fam_conc"
for i in (1, 2, 3, 4, 5, 7, 8, 9, 10): FAMILY["C%02d" % i] = "fam_repo"
for i in (12, 13): FAMILY["C%02d" % i] = "fam_int"
FAMILY["C14"] = "fam_excl"
for i in (6, 11): FAMILY["C%02d" % i] = "fam_pub"
for i in (1, 2): FAMILY["B%02d" % i] = "fam_build"
for i in (1, 2): FAMILY["L%02d" % i] = "fam_ports"

def main():
    if sys.argv[1:] == ["--build"]:
        build(); return 0
    pid = sys.argv[1]
    mod = __import__(FAMILY[pid])
    c = core.Check(pid)
    try:
        build()
        if "--replay" in sys.argv:
            data = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            mod.replay(c, data["data"])
        else:
            mod.run(c)
        return c.finish()
    except ToolError as e:
        print("TOOL ERROR:", e)
        return 1 if c.viol and c.finish() else 2
    except Exception:
        traceback.print_exc()
        return 1 if c.viol and c.finish() else 2

if __name__ == "__main__":
    sys.exit(main())
