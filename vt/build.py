"""Builds the code under test from /repo's working tree into /verif/build/<variant>/.

Objects are cached by the content of the source and of every header it included,
so an unchanged tree costs nothing and any edit to /repo is always picked up.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VT_BUILD", os.path.join(VERIF, "build"))

COMMON = ["-std=c++11", "-w", "-DCOMPILE_TIME=1", "-DTT_BRANCH=\"vt\"", "-DTT_COMMIT=\"vt\"",
          "-Wno-psabi", "-pthread"]
VARIANTS = {
    # what users run: the project's own optimisation flags
    "rel": ["-O2", "-ffast-math", "-g1"],
    # same sources with address and undefined-behaviour sanitizers
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-ffast-math"],
}


class BuildError(Exception):
    pass


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _deps(dfile):
    with open(dfile) as f:
        text = f.read().replace("\\\n", " ")
    return text.split(":", 1)[1].split()


def _key(src, flags, dfile):
    h = hashlib.sha256(" ".join(flags).encode())
    h.update(_sha(src).encode())
    for d in sorted(set(_deps(dfile))):
        if not os.path.exists(d):
            return None
        if d.startswith("/usr/"):
            continue
        h.update(d.encode())
        h.update(_sha(d).encode())
    return h.hexdigest()


def _compile(src, obj, flags):
    dfile, kfile = obj[:-2] + ".d", obj[:-2] + ".k"
    try:
        with open(kfile) as f:
            if os.path.exists(obj) and f.read() == _key(src, flags, dfile):
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = ["g++"] + flags + ["-MMD", "-MF", dfile, "-c", src, "-o", obj]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    with open(kfile, "w") as f:
        f.write(_key(src, flags, dfile) or "")
    return True


def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def sources():
    return sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*/*.cpp"))


def _objects(variant, extra=()):
    flags = COMMON + VARIANTS[variant] + ["-I", REPO + "/include"] + list(extra)
    out = os.path.join(BUILD, variant)
    jobs = []
    for s in sources():
        jobs.append((s, os.path.join(out, "objs", os.path.relpath(s, REPO + "/src")[:-4] + ".o"), flags))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        changed = list(ex.map(lambda j: _compile(*j), jobs))
    return [j[1] for j in jobs], any(changed)


def _link(objs, exe, variant, changed, libs=()):
    lst = exe + ".lst"
    sig = "\n".join(objs)
    same = os.path.exists(lst) and open(lst).read() == sig
    if changed or not same or not os.path.exists(exe) or \
            any(os.path.getmtime(o) > os.path.getmtime(exe) for o in objs):
        tmp = exe + ".tmp"
        r = subprocess.run(["g++", "-pthread", "-rdynamic"] + VARIANTS[variant] + ["-o", tmp] + objs + ["-lz"] + list(libs),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (exe, r.stderr[-4000:]))
        os.rename(tmp, exe)
        with open(lst, "w") as f:
            f.write(sig)
    return exe


def server(variant="rel"):
    """Path of the tt server built from the current /repo."""
    with _lock():
        objs, changed = _objects(variant)
        return _link(objs, os.path.join(BUILD, variant, "tt"), variant, changed)


def tool(name, variant="rel"):
    """Path of a /repo/tools program (e.g. inspect)."""
    with _lock():
        objs, changed = _objects(variant)
        objs = [o for o in objs if not o.endswith("/objs/main.o")]
        flags = COMMON + VARIANTS[variant] + ["-I", REPO + "/include"]
        o = os.path.join(BUILD, variant, "tools", name + ".o")
        changed |= _compile(os.path.join(REPO, "tools", name + ".cpp"), o, flags)
        return _link([o] + objs, os.path.join(BUILD, variant, name), variant, changed)


def native(name, variant="asan"):
    """Path of a /verif/native harness linked with /repo's sources (all but main)."""
    with _lock():
        objs, changed = _objects(variant)
        objs = [o for o in objs if not o.endswith("/objs/main.o")]
        flags = COMMON + VARIANTS[variant] + ["-I", REPO + "/include"]
        o = os.path.join(BUILD, variant, "native", name + ".o")
        changed |= _compile(os.path.join(VERIF, "native", name + ".cpp"), o, flags)
        return _link([o] + objs, os.path.join(BUILD, variant, name), variant, changed)


def shim(variant="rel"):
    """Path of the preload library that controls time, crash points and schedules."""
    with _lock():
        src = os.path.join(VERIF, "shim", "shim.c")
        # a sanitizer has its own memory functions
        own = [] if variant in ("", "rel") else ["-DVT_NO_MALLOC"]
        so = os.path.join(BUILD, "shim-san.so" if own else "shim.so")
        key = _sha(src)
        kf = so + ".k"
        if not os.path.exists(so) or not os.path.exists(kf) or open(kf).read() != key:
            r = subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-fno-builtin"] + own + [src, "-o", so + ".tmp", "-ldl", "-pthread"],
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError(r.stderr)
            os.rename(so + ".tmp", so)
            with open(kf, "w") as f:
                f.write(key)
        return so


if __name__ == "__main__":
    for what in sys.argv[1:]:
        kind, _, arg = what.partition(":")
        print({"server": server, "tool": tool, "native": native, "shim": shim}[kind](arg))
