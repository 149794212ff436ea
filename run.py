#!/usr/bin/env python3
"""run.py <property>: decides one property; see DESIGN.md."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core


def main():
    pid = sys.argv[1]
    import parsing, decoding, deriving
    checks = {**parsing.CHECKS, **decoding.CHECKS, **deriving.CHECKS}
    try:
        return checks[pid]()
    except core.HarnessDoesNotBuild as e:
        print("  types that the documentation allows do not compile against "
              "/repo, see %s" % e.log)
        print("VIOLATION property=%s replay=%s" % (pid, e.log))
        return 1
    except core.CheckError as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
