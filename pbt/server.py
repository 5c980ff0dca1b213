"""Client side of harness/mdbh.c: runs one case per forked child and decodes what it printed."""
import os
import re
import struct
import subprocess


def hx(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return s.hex() if s else "-"


def unhx(h):
    return b"" if h == "-" else bytes.fromhex(h)


class Outcome:
    """how the child ended and what it printed"""

    def __init__(self, how, code, out, err):
        self.how, self.code = how, code
        self.lines = out.decode("ascii", "replace").split("\n")
        if self.lines and self.lines[-1] == "":
            self.lines.pop()
        self.completed = bool(self.lines) and self.lines[-1] == "END"
        if self.completed:
            self.lines.pop()
        self.err = err.decode("latin-1", "replace")

    def crash(self):
        """None, or a short signature of the abnormal end (stable across runs)"""
        if self.completed and self.how == "E" and self.code == 0:
            return None
        if self.how == "K":
            return "hang(blocked)"
        if self.how == "M":
            return "memory exhausted"
        if self.how == "S" and self.code in (24, 9):
            return "hang(cpu)"
        m = re.search(r"BUG_ON: (\S+?):(\d+):(\w+)", self.err)
        if m:
            return "exit:BUG_ON in %s" % m.group(3)
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", self.err)
        if m:
            kind = m.group(1)
            fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (?:/repo|/tmp/\w+)/(?:src|include)", self.err)]
            return "asan:%s in %s" % (kind, fr[0] if fr else "?")
        m = re.search(r"runtime error: ([^\n]+)", self.err)
        if m:
            fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (?:/repo|/tmp/\w+)/(?:src|include)", self.err)]
            return "ubsan:%s in %s" % (re.sub(r"[0-9]+", "N", m.group(1))[:60], fr[0] if fr else "?")
        m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", self.err)
        if m:
            fr = [f for f in re.findall(r"#\d+ (\S+) (?:/repo|/tmp/\w+)/(?:src|include)", self.err)]
            return "tsan:%s in %s" % (m.group(1).strip(), fr[0] if fr else "?")
        if self.how == "S":
            return "signal %d" % self.code
        tail = [x for x in self.err.strip().split("\n") if x.strip()]
        return "exit(%d) %s" % (self.code, re.sub(r"[0-9]+", "N", tail[-1][:80]) if tail else "")


class Server:
    def __init__(self, binary, tz="UTC", reuse=False):
        self.binary = binary
        self.tz = tz
        self.reuse = reuse  # freed memory is handed out again at once, as in production: no quarantine
        self.p = None

    def start(self):
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "TZ": self.tz, "LC_ALL": "C",
               "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:report_signal_unsafe=0"}
        if self.reuse:
            env["ASAN_OPTIONS"] = "quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
        for v in ("ASAN_SYMBOLIZER_PATH",):
            if v in os.environ:
                env[v] = os.environ[v]
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd="/")

    def stop(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()
            self.p = None

    def run(self, lines, cpu=10):
        if self.p is None:
            self.start()
        payload = ("\n".join(lines) + "\n").encode("ascii")
        self.p.stdin.write(b"CASE %d %d\n" % (len(payload), cpu) + payload)
        self.p.stdin.flush()
        hdr = self.p.stdout.readline().split()
        if len(hdr) != 5 or hdr[0] != b"RES":
            rc = self.p.poll()
            raise RuntimeError("harness server died: %r rc=%r" % (hdr, rc))
        ol, el = int(hdr[3]), int(hdr[4])
        out = self.p.stdout.read(ol)
        err = self.p.stdout.read(el)
        return Outcome(hdr[1].decode(), int(hdr[2]), out, err)


# ---------------------------------------------------------------- decoding
TYPES = ["VARCHAR", "INTEGER", "TINYINT", "DOUBLE", "DATE", "DATETIME"]
OK_ROWS, OK_EXEC, ERROR = 0, 1, 2


def dval(tok):
    """a printed value -> None | ('i', n) | ('b', n) | ('d', float-bits) | ('s', bytes) | ('t', n)"""
    k, v = tok[0], tok[1:]
    if k == "N":
        return None
    if k in "ibt":
        return (k, int(v))
    if k == "d":
        return (k, v)
    if k == "s":
        if v == "NULLPTR" or v.endswith("!"):
            return ("s!", v)
        return (k, unhx(v))
    return ("?", tok)


def fbits(f):
    return struct.pack(">d", f).hex()


def bitsf(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


class Q:
    """result of one query_execute"""
    __slots__ = ("status", "naff", "msg", "cols", "rows", "end")

    def __init__(self):
        self.cols, self.rows, self.end = [], [], None


class T:
    """dump of one table"""
    __slots__ = ("exists", "name", "cols", "rows", "meta")

    def __init__(self):
        self.cols, self.rows, self.meta, self.exists, self.name = [], [], None, False, None


def _col(line):
    f = line.split(" ")
    return dict(name=unhx(f[1]).decode("latin-1"), type=TYPES[int(f[2])] if 0 <= int(f[2]) < 6 else f[2],
                prec=int(f[3]), nullable=int(f[4]), unique=int(f[5]), auto_inc=int(f[6]), pk=int(f[7]),
                indexed=int(f[8]), is_count=int(f[9]))


def decode(lines):
    """list of decoded records in order: Q, T objects or raw lines"""
    out, curr = [], None
    for ln in lines:
        c = ln[:2]
        if c == "Q ":
            f = ln.split(" ")
            curr = Q()
            curr.status = int(f[1]) if f[1] != "NULL" else None
            curr.naff = int(f[2])
            curr.msg = unhx(f[3])
            out.append(curr)
        elif c == "D ":
            f = ln.split(" ")
            curr = T()
            curr.exists = f[1] == "1"
            if curr.exists:
                curr.name = unhx(f[2]).decode("latin-1")
            out.append(curr)
        elif ln == ".":
            curr = None
        elif curr is not None and c == "c ":
            curr.cols.append(_col(ln))
        elif curr is not None and (c == "r " or ln == "r"):
            curr.rows.append(tuple(dval(x) for x in ln.split(" ")[1:]))
        elif curr is not None and c == "e ":
            f = ln.split(" ")
            curr.end = tuple(int(x) for x in f[1:])
        elif curr is not None and c == "m ":
            f = ln.split(" ")
            curr.meta = tuple(int(x) for x in f[1:])
        else:
            out.append(ln)
    return out


def show(v):
    if v is None:
        return "NULL"
    if v[0] == "d":
        return repr(bitsf(v[1]))
    return "%s:%r" % v
