#!/usr/bin/env python3
"""Says whether the tools which the checks need are there, and tries the parts once."""
import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cv import build, tlc  # noqa: E402
from cv.base import CheckError  # noqa: E402

if __name__ == "__main__":
    for t in ("g++", "java", "tlc"):
        if not shutil.which(t):
            print("missing: " + t)
            sys.exit(1)
    try:
        print(build.build(("drv",)))
        r = tlc.model("MC_sched", cfg="MC_sched.cfg")
        print("TLC: %d states" % r.distinct)
    except CheckError as e:
        print(e)
        sys.exit(1)
