"""Paths, limits and the exceptions of the checks."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(ROOT, "sim")
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
EVIDENCE = os.path.join(ROOT, "evidence")
JOBS = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The check itself could not do its work: neither held nor violated."""


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def say(*a):
    print(*a)
    sys.stdout.flush()
