"""Running git-who under harness/fscage.c (ptrace): a record of everything it
does to files, and crashes and errors at chosen points of its cache storage."""
import os, time, urllib.parse

from . import env as E
from . import run as R
from .shim import compile_c


def build():
    return compile_c("fscage", "fscage")


class Trace:
    def __init__(self, text):
        self.mut, self.ops, self.total, self.hit = [], [], 0, None
        for l in text.split("\n"):
            f = l.split(" ")
            if f[0] == "M" and len(f) >= 6:
                self.mut.append((int(f[1]), f[2], int(f[3]), urllib.parse.unquote(f[4]), urllib.parse.unquote(f[5])))
            elif f[0] == "C" and len(f) >= 5:
                self.ops.append((int(f[1]), f[2], f[3], urllib.parse.unquote(f[4])))
            elif f[0] == "N":
                self.total = int(f[1])
            elif f[0] == "X":
                self.hit = int(f[1])

    def op(self, n):
        for o in self.ops:
            if o[0] == n:
                return o
        return None


class Cage:
    def __init__(self, c):
        self.c, self.exe, self.n = c, c.ctx["cage"], 0

    def __call__(self, cwd, *args, watch=None, k=0, action="none", cpus=None, nocache=False, tz=None, env=None,
                 path_prefix=None, **kw):
        self.n += 1
        logp = os.path.join(self.c.dir, "cage%d" % self.n)
        e = self.c.sb.whoenv()
        if cpus:
            e["GOMAXPROCS"] = str(cpus)
        if nocache:
            e["GIT_WHO_DISABLE_CACHE"] = "1"
        if tz:
            e["TZ"] = tz
        if env:
            e.update(env)
        if path_prefix:
            e["PATH"] = path_prefix + ":" + e["PATH"]
        e = {k2: v for k2, v in e.items() if v is not None}
        self.c.who.runs += 1
        res = R.execute([self.exe, logp, os.path.realpath(watch or self.c.sb.cache), str(k), action, "--",
                         self.c.bin["plain"], *args], cwd, e, **kw)
        if res.rc in (124, 125, 126, 127):
            raise E.HarnessError("fscage failed: %r %r" % (res.rc, res.err[-500:]))
        res.args = list(args)
        res.extra = Trace(open(logp, errors="surrogateescape").read())
        os.unlink(logp)
        return res


def pre(binaries):
    from . import shim
    return dict(cage=build(), shim=shim.build(), fakehome=shim.fakehome())
