#!/usr/bin/env python3
"""check.py <property>: decides one property.   check.py replay <file>: runs a recorded violation again."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cv import engine  # noqa: E402

if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        sys.exit(engine.replay(sys.argv[2]))
    sys.exit(engine.main(sys.argv))
