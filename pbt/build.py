"""Builds the harness binaries from /repo's current working tree (never from build products found there).

Everything lands in /verif/build/<key>/, where <key> is a digest of the sources, the harness and the flags; an
existing complete build of the same key is reused, any other is made from scratch. Nothing is written in /repo.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MDB_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=gnu11", "-g", "-fPIC", "-fno-omit-frame-pointer", "-w", "-D_GNU_SOURCE", "-pthread"]
UBSAN = "-fsanitize=bounds,integer-divide-by-zero,null,unreachable,return,vla-bound"

FLAVOURS = {
    # the flavour every model-based check runs on; allocations of the code can be made to fail (see mdbh.c), those of the
    # generated scanners and parsers, and what they do to queues, cannot
    "asan": dict(defs=["-D%s=mdbh_%s" % (x, x) for x in ("malloc", "calloc", "realloc", "strdup", "strndup")],
                 gendefs=["-Dqueue_offer=mdbh_queue_offer"], cc="clang", src=["-O1", "-fsanitize=address", UBSAN, "-fno-sanitize-recover=all",
                                  "-ftrivial-auto-var-init=pattern"],
                 harness=["-O1", "-fsanitize=address"], link=["-fsanitize=address", UBSAN], main="mdbh.c"),
    # thread sanitizer, for the concurrency check
    "tsan": dict(cc="clang", src=["-O1", "-fsanitize=thread"],
                 harness=["-O1", "-fsanitize=thread"], link=["-fsanitize=thread"], main="mdbh.c"),
    # coverage-guided fuzzing of the whole statement pipeline
    "fuzz": dict(cc="clang", src=["-O1", "-fsanitize=fuzzer-no-link,address", UBSAN, "-fno-sanitize-recover=all",
                                  "-ftrivial-auto-var-init=pattern"],
                 harness=["-O1", "-fsanitize=fuzzer-no-link,address"], link=["-fsanitize=fuzzer,address", UBSAN],
                 main="fuzz_sql.c"),
}


def _files(root, exts):
    out = []
    for d, dirs, names in os.walk(root):
        dirs.sort()
        for n in sorted(names):
            if n.endswith(exts):
                out.append(os.path.join(d, n))
    return out


def sources():
    src = os.path.join(REPO, "src")
    c = [f for f in _files(src, (".c",)) if not f.startswith(os.path.join(src, "main") + os.sep)]
    l = _files(src, (".l",))
    y = _files(src, (".y",))
    return c, l, y


def digest(flavour):
    h = hashlib.sha256()
    h.update(repr(sorted(FLAVOURS[flavour].items())).encode())
    c, l, y = sources()
    for f in c + l + y + _files(os.path.join(REPO, "include"), (".h",)) + \
            [os.path.join(HARNESS, FLAVOURS[flavour]["main"])]:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("build step failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def build(flavour="asan"):
    """Returns the path of the binary."""
    os.makedirs(BUILD, exist_ok=True)
    key = "%s-%s" % (flavour, digest(flavour))
    d = os.path.join(BUILD, key)
    binary = os.path.join(d, "bin")
    with open(os.path.join(BUILD, ".lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, "ok")):
            return binary
        # at most a few old builds stay around
        old = sorted((os.path.getmtime(os.path.join(BUILD, n)), n) for n in os.listdir(BUILD)
                     if n.startswith(flavour + "-"))
        for _, n in old[:-3]:
            shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        f = FLAVOURS[flavour]
        c, l, y = sources()
        gen = []
        for s in y:
            o = os.path.join(d, os.path.basename(s)[:-2] + ".tab.c")
            _run(["bison", "-d", "-o", o, s])
            gen.append(o)
        for s in l:
            b = os.path.join(d, os.path.basename(s)[:-2])
            _run(["flex", "--header-file=" + b + ".yy.h", "-o", b + ".yy.c", s])
            gen.append(b + ".yy.c")
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + d]
        jobs, objs = [], []
        for i, s in enumerate(c + gen):
            o = os.path.join(d, "%03d_%s.o" % (i, os.path.basename(s)))
            jobs.append([f["cc"]] + COMMON + f["src"] + f.get("defs" if s in c else "gendefs", []) + inc + ["-c", s, "-o", o])
            objs.append(o)
        o = os.path.join(d, "harness.o")
        jobs.append([f["cc"]] + COMMON + f["harness"] + inc + ["-c", os.path.join(HARNESS, f["main"]), "-o", o])
        objs.append(o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(_run, jobs))
        _run([f["cc"], "-g", "-pthread"] + f["link"] + objs + ["-o", binary, "-lm"])
        for o in objs:
            os.unlink(o)
        open(os.path.join(d, "ok"), "w").close()
        return binary


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["asan"]:
        print(build(fl))
