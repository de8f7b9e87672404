#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current source. Exit 0 held, 1 violated, 2 no answer."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vc
import checks


def main():
    pid = sys.argv[1]
    t0 = time.time()
    if pid not in checks.CHECKS:
        print("no check for " + pid)
        return 2
    w = None
    try:
        w = vc.Work()
        coverage, findings, assumptions = checks.CHECKS[pid](w)
        return vc.verdict(pid, t0, "other", coverage, findings, assumptions)
    except vc.NoAnswer as e:
        print("NO ANSWER property=%s: %s" % (pid, e))
        return 2
    finally:
        if w:
            w.close()


sys.exit(main())
