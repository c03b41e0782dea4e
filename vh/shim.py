"""A stand-in for git put in front of the real one on PATH (harness/gitshim.c)."""
import os, re, shutil, subprocess

from . import env as E


def compile_c(name, out, libs=()):
    E.BUILD.mkdir(parents=True, exist_ok=True)
    src = E.VERIF / "harness" / (name + ".c")
    out = E.BUILD / out
    out.parent.mkdir(parents=True, exist_ok=True)
    tmp = str(out) + ".%d" % os.getpid()
    r = subprocess.run(["gcc", "-O1", "-o", tmp, str(src), *libs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise E.HarnessError("gcc failed: " + r.stdout.decode(errors="replace")[-2000:])
    os.replace(tmp, out)
    return str(out)


def fakehome():
    """A library for LD_PRELOAD that makes $HOME everyone's home."""
    return compile_c("fakehome", "fakehome.so", ["-shared", "-fPIC"])


def build():
    """Directory to put in front of PATH."""
    return os.path.dirname(compile_c("gitshim", "shim/git"))


REAL = shutil.which("git") or "/usr/bin/git"


class Log:
    def __init__(self, text):
        self.starts, self.ends, self.fired = [], {}, 0
        for l in text.split("\n"):
            f = l.split(" ")
            if f[0] == "S" and len(f) >= 6:
                self.starts.append(dict(n=int(f[1]), cls=f[2], k=int(f[3]), pid=int(f[4]), t=float(f[5]), args=f[6:]))
            elif f[0] == "E" and len(f) >= 4:
                self.ends[int(f[1])] = float(f[2])
            elif f[0] == "F":
                self.fired += 1

    def of(self, cls):
        return [s for s in self.starts if s["cls"] == cls]

    def end_order(self, cls):
        """The order in which invocations of a class ended."""
        return tuple(s["k"] for s in sorted(self.of(cls), key=lambda s: self.ends.get(s["n"], 1e18)))

    def overlapped(self, cls):
        """Whether two invocations of a class ran at the same time."""
        iv = sorted((s["t"], self.ends.get(s["n"], 1e18)) for s in self.of(cls))
        return any(a[1] > b[0] for a, b in zip(iv, iv[1:]))


class Shim:
    def __init__(self, c, name="shim"):
        self.dir = os.path.join(c.dir, name)
        self.path = c.ctx["shim"]
        self.n = 0

    def kw(self, rules="", seed=0, asked=False):
        """Keyword arguments for a run of git-who under this stand-in."""
        self.n += 1
        d = os.path.join(self.dir, str(self.n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        self.cur = d
        return dict(path_prefix=self.path, env=dict(VH_GIT=REAL, VH_DIR=d, VH_RULES=rules, VH_SEED=str(seed), **(dict(VH_ASKED="1") if asked else {})))

    def log(self):
        p = os.path.join(self.cur, "log")
        return Log(open(p, errors="replace").read() if os.path.exists(p) else "")

    def asked(self):
        """Hashes of the commits whose changes git was asked for on its standard
        input (kw(asked=True)), as often as it was."""
        out = []
        for s in self.log().starts:
            p = os.path.join(self.cur, "asked.%d" % s["n"])
            if os.path.exists(p) and {"--no-walk", "--numstat", "--stat", "--raw", "-p", "--patch", "diff-tree"} & set(s["args"]):
                with open(p, errors="replace") as f:
                    out += re.findall(r"(?m)^[0-9a-f]{40,64}\b", f.read())
        return out


def pre(binaries):
    """For check.main(pre=...)."""
    return dict(shim=build(), fakehome=fakehome())
