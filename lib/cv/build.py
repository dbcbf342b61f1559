"""Builds the drivers from the working tree of the library, instrumented for the simulator."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess

from .base import BUILD, CheckError, JOBS, REPO, SIM

TSAN = ["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
COMMON = ["-c", "-m64", "-g", "-std=c++20", "-DNDEBUG", "-fconcepts"]


def _uninstrumented(path):
    # The bottom of the context switch and of the exception handling: they run while the stack is being exchanged
    base = os.path.basename(path)
    return base.startswith("co_vos") or base == "co_exception.cpp"


def _files(top, exts):
    out = []
    for d, dirs, names in os.walk(top):
        dirs.sort()
        for n in sorted(names):
            if os.path.splitext(n)[1] in exts:
                out.append(os.path.join(d, n))
    return out


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _cc(args):
    cmd, src = args
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise CheckError("cannot compile %s:\n%s" % (src, p.stderr[-3000:]))


def build(drivers=("drv",)):
    """Returns {driver: path of its executable}."""
    lib = _files(os.path.join(REPO, "source"), {".cpp", ".cc", ".c", ".S", ".s"})
    hdr = _files(os.path.join(REPO, "include"), {".h", ".hpp", ".inl"}) + \
        _files(os.path.join(REPO, "source"), {".h", ".hpp", ".inl"})
    own = sorted(glob.glob(os.path.join(SIM, "*.cpp")) + glob.glob(os.path.join(SIM, "*.h")))
    if not lib:
        raise CheckError("no sources in " + REPO)
    key = _hash(lib + hdr + own + [os.path.abspath(__file__)])
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, key)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        os.makedirs(os.path.join(d, "o"), exist_ok=True)
        jobs = []
        libobjs = []
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + SIM]
        for f in lib:
            o = os.path.join(d, "o", os.path.relpath(f, REPO).replace("/", "_") + ".o")
            libobjs.append(o)
            flags = ["-O3"] if _uninstrumented(f) else TSAN
            jobs.append((f, o, ["g++"] + COMMON + flags + inc + [f, "-o", o]))
        simo = os.path.join(d, "o", "sim.o")
        jobs.append(("sim", simo, ["g++", "-c", "-m64", "-g", "-std=c++20", "-O2", "-I" + SIM,
                                   os.path.join(SIM, "sim.cpp"), "-o", simo]))
        dobj = {}
        for n in drivers:
            o = os.path.join(d, "o", "drv__" + n + ".o")
            dobj[n] = o
            src = os.path.join(SIM, n + ".cpp")
            jobs.append((src, o, ["g++"] + COMMON + TSAN + inc + [src, "-o", o]))
        todo = [(c[:-1] + [o + ".tmp"], src) for src, o, c in jobs if not os.path.exists(o)]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(_cc, todo))
        for src, o, c in jobs:
            if not os.path.exists(o):
                os.rename(o + ".tmp", o)
        out = {}
        for n in drivers:
            exe = os.path.join(d, n)
            if not os.path.exists(exe):
                p = subprocess.run(["g++", "-rdynamic", "-o", exe + ".tmp", dobj[n], simo] + libobjs + ["-lpthread", "-ldl"],
                                   capture_output=True, text=True)
                if p.returncode:
                    raise CheckError("cannot link %s:\n%s" % (n, p.stderr[-3000:]))
                os.rename(exe + ".tmp", exe)
            out[n] = exe
        os.utime(d)
        old = sorted((x for x in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(x)), key=os.path.getmtime)
        for x in old[:-4]:
            if x != d:
                shutil.rmtree(x, ignore_errors=True)
    return out
