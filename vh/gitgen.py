"""Seeded generator of Git repositories, written with git fast-import."""
import os, random, subprocess

NICE_NAMES = ["Ada Lovelace", "Bob", "Carol Danvers", "Dmitri M", "Eve O'Neil",
              "Frank Zed", "Grace Hopper", "Heidi", "Ivan", "Judy Bloom", "Kay, Lee"]
ODD_NAMES = ["José Núñez", "Zoë", "李小龍", "山田 太郎", "O\"Quote\"", "Comma, Jr.",
             "semi;colon", "tab\there", "=cmd()", "Ｗｉｄｅ", "e\u0301clair",
             "👩‍💻 dev", "A very long author name that will surely not fit in its column",
             "name (with) parens", "back\\slash", "#hash", "-dash", "'q'", "\"", ",",
             "Łukasz", "a  b", "%an", "{x = y}", "ÅÄÖ", "x.y", "\\.", "...", "dotty....x",
             "nbsp\u00a0", "\u3000wide", "en\u2002", "عربي", "नमस्ते", "한글", "ẞ", "cr\rx"]


def quote_path(p):
    out = '"'
    for b in p:
        if b == 0x22:
            out += '\\"'
        elif b == 0x5c:
            out += "\\\\"
        elif 0x20 <= b < 0x7f:
            out += chr(b)
        else:
            out += "\\%03o" % b
    return (out + '"').encode()


class File:
    __slots__ = ("mode", "lines", "raw")

    def __init__(self, mode, lines=None, raw=None):
        self.mode, self.lines, self.raw = mode, lines, raw

    def data(self):
        if self.raw is not None:
            return self.raw
        return b"".join(self.lines)


class Gen:
    """
    Options (all have defaults):
      commits        number of commits
      authors        list of (name bytes, email bytes)
      names          path component pool, list of bytes
      merges         probability of a merge commit
      octopus        probability that a merge has more than two parents
      branches       maximum number of live heads
      orphans        probability of a new root
      empty          probability of a commit without changes
      span           seconds over which author dates are spread
      end            unix time of the last author date
      ties           probability that a date equals the previous one
      jitter         seconds of disorder of author dates
      kinds          weights of the kinds of file change
      maxops         max file changes per commit
      same_committer committer date = author date
    """

    KINDS = dict(add=5, edit=8, delete=2, rename=2, copy=1, binary=1, symlink=1,
                 submodule=1, chmod=1, file2dir=1, dir2file=1, rewrite=1)

    def __init__(self, rng, **o):
        self.rng = rng
        self.o = o
        self.n = o.get("commits", 20)
        self.authors = o.get("authors") or [
            (n.encode(), (n.split()[0].lower() + "@example.com").encode())
            for n in rng.sample(NICE_NAMES, o.get("nauthors", 4))]
        self.weights = o.get("weights") or [rng.choice([1, 1, 2, 5]) for _ in self.authors]
        self.names = o.get("names") or [b"a", b"b", b"c", b"src", b"lib", b"doc",
                                        b"main.go", b"x.txt", b"y.txt", b"README", b"z.py"]
        self.depth = o.get("depth", 3)
        self.kinds = dict(self.KINDS)
        if o.get("kinds"):
            self.kinds = {k: o["kinds"].get(k, 0) for k in self.KINDS}
        self.end = o.get("end", 1_600_000_000)
        self.span = o.get("span", 200 * 86400)
        self.counter = 0
        self.heads = []   # [(mark, state)]
        self.out = bytearray()
        self.marks = 0
        self.dates = []

    # -- content ----------------------------------------------------------
    def newlines(self, k):
        r = []
        for _ in range(k):
            self.counter += 1
            if self.rng.random() < 0.1:
                r.append(b"common\n")
            else:
                r.append(b"line %d\n" % self.counter)
        return r

    def newpath(self, state):
        rng = self.rng
        for _ in range(30):
            comps = [rng.choice(self.names) for _ in range(rng.randint(1, self.depth))]
            p = b"/".join(comps)
            if p in state or any(q.startswith(p + b"/") for q in state):
                continue
            if any(p.startswith(q + b"/") for q in state):
                continue
            return p
        self.counter += 1
        return b"f%d" % self.counter

    def mutate(self, state):
        """Applies one change to state; returns list of fast-import commands."""
        rng = self.rng
        ks = list(self.kinds)
        kind = rng.choices(ks, [self.kinds[k] for k in ks])[0]
        files = sorted(state)
        text = [p for p in files if state[p].lines is not None]
        if kind != "add" and not files:
            kind = "add"
        if kind in ("edit", "rewrite", "copy") and not text:
            kind = "add"
        if kind == "add":
            p = self.newpath(state)
            lines = self.newlines(rng.choice([0, 1, 1, 2, 3, 5, 8, 30]))
            if lines and rng.random() < 0.15:
                lines[-1] = lines[-1].rstrip(b"\n")
            state[p] = File("100644", lines)
        elif kind == "edit":
            p = rng.choice(text)
            lines = list(state[p].lines)
            for _ in range(rng.randint(1, 3)):
                at = rng.randint(0, len(lines))
                if rng.random() < 0.5 or not lines:
                    lines[at:at] = self.newlines(rng.randint(1, 4))
                else:
                    del lines[at:at + rng.randint(1, 3)]
            state[p] = File(state[p].mode, lines)
        elif kind == "rewrite":
            p = rng.choice(text)
            state[p] = File(state[p].mode, self.newlines(rng.randint(1, 6)))
        elif kind == "delete":
            del state[rng.choice(files)]
        elif kind == "rename":
            p = rng.choice(files)
            f = state.pop(p)
            q = self.newpath(state)
            if f.lines is not None and f.lines and rng.random() < 0.4:
                lines = list(f.lines)
                at = rng.randint(0, len(lines))
                lines[at:at] = self.newlines(1)
                f = File(f.mode, lines)
            state[q] = f
        elif kind == "copy":
            p = rng.choice(text)
            state[self.newpath(state)] = state[p]
        elif kind == "binary":
            p = rng.choice(files) if rng.random() < 0.3 else self.newpath(state)
            state[p] = File("100644", None, bytes(rng.randrange(256) for _ in range(20)) + b"\0\0")
        elif kind == "symlink":
            p = self.newpath(state)
            state[p] = File("120000", None, b"target%d" % rng.randint(0, 9))
        elif kind == "submodule":
            subs = [p for p in files if state[p].mode == "160000"]
            p = rng.choice(subs) if subs and rng.random() < 0.6 else self.newpath(state)
            state[p] = File("160000", None, b"%040x" % rng.getrandbits(160))
        elif kind == "chmod":
            c = [p for p in files if state[p].mode in ("100644", "100755")]
            if c:
                p = rng.choice(c)
                f = state[p]
                state[p] = File("100755" if f.mode == "100644" else "100644", f.lines, f.raw)
        elif kind == "file2dir":
            p = rng.choice(files)
            del state[p]
            for _ in range(rng.randint(1, 2)):
                q = p + b"/" + rng.choice(self.names)
                state[q] = File("100644", self.newlines(rng.randint(1, 4)))
        elif kind == "dir2file":
            d = sorted({p[:i] for p in files for i in range(len(p)) if p[i:i + 1] == b"/"})
            if d:
                x = rng.choice(d)
                for p in files:
                    if p.startswith(x + b"/"):
                        del state[p]
                state[x] = File("100644", self.newlines(rng.randint(1, 4)))

    # -- dates --------------------------------------------------------------
    def nextdate(self, i):
        rng = self.rng
        if self.dates and rng.random() < self.o.get("ties", 0.1):
            # at the same time or nearly so
            return max(0, min(self.end, rng.choice(self.dates[-5:]) + rng.choice([0, 0, 0, 0, 0, 0, 1, -1, 2, 25, -59])))
        start = self.end - self.span
        t = max(0, start + int(self.span * (i + 1) / max(1, self.n)))
        j = self.o.get("jitter", 0)
        if j:
            t = max(0, min(self.end, t + rng.randint(-j, j)))
        special = self.o.get("special_dates")
        if special and rng.random() < 0.3:
            t = rng.choice(special)
        self.dates.append(t)
        return t

    # -- main ---------------------------------------------------------------
    def ident(self, a, t):
        tz = self.rng.choice(["+0000", "+0200", "-0530", "+1345", "-0800", "+0900"])
        name, email = a
        return (name + b" " if name else b"") + b"<" + email + b"> %d " % t + tz.encode()

    def run(self):
        rng, o = self.rng, self.o
        out = self.out
        blobs = {}
        self.final = []
        for i in range(self.n):
            cur = None
            parents = []
            nheads = len(self.heads)
            merge = False
            if nheads == 0 or (rng.random() < o.get("orphans", 0.02)):
                state = {}
            elif nheads >= 2 and rng.random() < o.get("merges", 0.15):
                k = 2
                if nheads >= 3 and rng.random() < o.get("octopus", 0.3):
                    k = rng.randint(3, nheads)
                parents = rng.sample(self.heads, k)
                merge = True
                state = {}
                for m, st in parents:
                    for p, f in st.items():
                        if p in state:
                            continue
                        if any(q.startswith(p + b"/") or p.startswith(q + b"/") for q in state):
                            continue
                        state[p] = f
            else:
                parents = [rng.choice(self.heads)]
                state = dict(parents[0][1])
            if merge:
                if rng.random() < o.get("evil", 0.3):
                    self.mutate(state)
            elif rng.random() >= o.get("empty", 0.05):
                for _ in range(rng.randint(1, o.get("maxops", 3))):
                    self.mutate(state)
            t = self.nextdate(i)
            if rng.random() < o.get("future", 0.0):
                t = 4_000_000_000 + i
            ct = t if o.get("same_committer", True) and t < 2_000_000_000 else \
                min(self.end, t) + rng.randint(0, o.get("commit_delay", 5000))
            a = rng.choices(self.authors, self.weights)[0]
            c = a if rng.random() < 0.7 else rng.choice(self.authors)
            self.marks += 1
            mark = self.marks
            # blobs
            cmds = bytearray()
            base = parents[0][1] if parents else {}
            cmds += b"deleteall\n"
            for p in sorted(state):
                f = state[p]
                if f.mode == "160000":
                    cmds += b"M 160000 " + f.raw + b" " + quote_path(p) + b"\n"
                    continue
                d = f.data()
                if d not in blobs:
                    self.marks += 1
                    blobs[d] = self.marks
                    out += b"blob\nmark :%d\ndata %d\n" % (self.marks, len(d)) + d + b"\n"
                cmds += b"M " + f.mode.encode() + b" :%d " % blobs[d] + quote_path(p) + b"\n"
            ref = b"refs/heads/tmp%d" % (i if not parents else 0)
            msg = b"c%d\n" % i
            if rng.random() < 0.1:
                msg += b"\nbody\n\n1\t2\tfile\n"
            out += b"reset refs/heads/tmpx\n" if not parents else b""
            out += b"commit refs/heads/tmpx\nmark :%d\n" % mark
            out += b"author " + self.ident(a, t) + b"\n"
            out += b"committer " + self.ident(c if c[0] or c[1] else (b"c", b"c@x"), ct) + b"\n"
            if o.get("encoding"):
                out += b"encoding " + o["encoding"] + b"\n"
            out += b"data %d\n" % len(msg) + msg
            for j, (m, st) in enumerate(parents):
                out += (b"from" if j == 0 else b"merge") + b" :%d\n" % m
            out += cmds + b"\n"
            entry = (mark, state)
            maxh = o.get("branches", 4)
            if parents and not merge and rng.random() < 0.75:
                self.heads = [h for h in self.heads if h[0] != parents[0][0]] + [entry]
            elif merge:
                pm = {m for m, _ in parents}
                self.heads = [h for h in self.heads if h[0] not in pm] + [entry]
                if rng.random() < 0.5:
                    self.heads.append(rng.choice(parents))
            else:
                self.heads.append(entry)
            while len(self.heads) > maxh:
                self.heads.pop(0)
            self.final.append(entry)
        return self


def write(sb, path, gen, extra_refs=True, head=None, checkout=True, sha256=False):
    """Creates the repository. gen must have been run()."""
    os.makedirs(path, exist_ok=True)
    args = ["init", "-q", "-b", "main"]
    if sha256:
        args.append("--object-format=sha256")
    sb.git(path, *args, ".")
    rng = gen.rng
    out = bytearray(gen.out)
    # main: the most recent commit, preferably a merge
    main = gen.final[-1][0] if head is None else head
    out += b"reset refs/heads/main\nfrom :%d\n\n" % main
    if extra_refs:
        for i, (m, _) in enumerate(gen.heads[:4]):
            out += b"reset refs/heads/b%d\nfrom :%d\n\n" % (i, m)
        for i in range(3):
            m = rng.choice(gen.final)[0]
            if rng.random() < 0.5:
                out += b"reset refs/tags/t%d\nfrom :%d\n\n" % (i, m)
            else:
                out += b"tag t%d\nfrom :%d\ntagger T <t@x> 1500000000 +0000\ndata 2\nt\n\n" % (i, m)
    out += b"done\n"
    sb.git(path, "fast-import", "--quiet", "--done", "--force", input=bytes(out))
    sb.git(path, "update-ref", "-d", "refs/heads/tmpx")
    if checkout:
        sb.git(path, "reset", "-q", "--hard", "main")
    elif checkout is not None:
        sb.git(path, "read-tree", "main")
    return path
