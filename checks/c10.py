"""C10: mailmap identities are honoured everywhere, at once."""
import os, re, sys
from vh import check, env as E, gitgen, model, outp, query, world


def case_of(rng, b):
    s = outp.s(b)
    return os.fsencode(rng.choice([s, s, s.upper(), s.title()])) if s.isascii() else b


def make_map(rng, ids):
    """Lines of a mailmap about some of the identities."""
    lines = []
    new = [b"New Name", b"Zed", "Ünï".encode(), b"A B C", b"o'x"]
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        (n1, e1), (n2, e2) = rng.choice(ids), rng.choice(ids)
        tn = rng.choice([n1 or b"N", rng.choice(new)])
        te = rng.choice([e1, b"new%d@x.org" % rng.randint(0, 2)])
        k = rng.randint(0, 5)
        if k == 0:
            l = tn + b" <" + case_of(rng, e2) + b">"
        elif k == 1:
            l = b"<" + te + b"> <" + case_of(rng, e2) + b">"
        elif k in (2, 3):
            l = tn + b" <" + te + b"> <" + case_of(rng, e2) + b">"
        else:
            l = tn + b" <" + te + b"> " + (case_of(rng, n2) or b"x") + b" <" + case_of(rng, e2) + b">"
        if rng.random() < 0.2:
            l = b"  " + l
        if rng.random() < 0.2:
            l += rng.choice([b" # comment", b"   "])
        lines.append(l)
        if rng.random() < 0.15:
            lines.append(rng.choice([b"# a comment <x@y>", b"", b"garbage", b"   ", b"no mail here"]))
    return b"\n".join(lines) + rng.choice([b"\n", b"\n", b""])


class Maps:
    """The mailmap settings of a repository."""

    def __init__(self, c, p, r, w):
        self.c, self.p, self.r, self.w = c, p, r, w
        self.ids = sorted({(cm.name, cm.email) for cm in r.commits.values() if cm.name and cm.email and b">" not in cm.email and b"<" not in cm.name})
        self.dir = os.path.join(c.dir, "maps")
        os.makedirs(self.dir, exist_ok=True)
        os.makedirs(os.path.join(p, "zmaps"), exist_ok=True)
        self.where = None
        self.blob = False

    def git(self, *a, **k):
        return self.c.sb.git(self.p, *a, **k)

    def change(self):
        rng = self.c.rng
        mm = os.path.join(self.p, ".mailmap")
        k = rng.choice(["file", "file", "file", "edit", "nofile", "config", "config", "configedit", "noconfig", "swap", "touch", "empty", "none",
                        "blob", "blob", "noblob"])
        if not self.ids:
            return "none"
        data = make_map(rng, self.ids)
        if k == "file":
            self.put(mm, data)
        elif k == "edit" and os.path.isfile(mm):
            self.samesize(mm)
        elif k == "nofile" and os.path.lexists(mm):
            os.unlink(mm)
        elif k == "config":
            name = "mm%d" % rng.randint(0, 2)
            x = rng.random()
            if rng.random() < 0.5 and not self.blob and os.path.lexists(mm):
                os.unlink(mm)  # the only one then
            if x < 0.4:
                f = os.path.join(self.dir, name)
                v = f
            elif x < 0.7:
                f = os.path.join(self.p, "zmaps", name)
                v = "zmaps/" + name
            else:
                f = os.path.join(self.c.sb.home, name)
                v = "~/" + name
            self.put(f, data)
            self.where = f
            if rng.random() < 0.7:
                self.git("config", "--unset-all", "mailmap.file", check=False)
                self.git("config", "mailmap.file", v)
            else:
                self.git("config", "--unset-all", "mailmap.file", check=False)
                self.git("config", "--global", "mailmap.file", v)
        elif k == "configedit" and self.where:
            if os.path.isfile(self.where) and rng.random() < 0.5:
                self.samesize(self.where)
            else:
                self.put(self.where, data)
        elif k == "noconfig":
            self.git("config", "--unset-all", "mailmap.file", check=False)
            self.git("config", "--global", "--unset-all", "mailmap.file", check=False)
        elif k == "swap" and self.where and os.path.isfile(self.where) and os.path.isfile(mm):
            # the very same contents, exchanged
            a, b = open(self.where, "rb").read(), open(mm, "rb").read()
            self.put(self.where, b)
            self.put(mm, a)
        elif k == "touch" and self.where and not os.path.exists(self.where):
            self.put(self.where, data)
        elif k == "touch" and self.where and os.path.exists(self.where):
            os.unlink(self.where)  # configured but missing
        elif k == "empty":
            self.put(mm, b"")
        elif k == "blob":
            # a mailmap in the object database, read in addition to a file
            self.git("update-ref", "refs/mm", self.git("hash-object", "-w", "--stdin", input=data).decode().strip())
            self.git("config", "mailmap.blob", self.c.rng.choice(["refs/mm", "refs/mm", "mm", "refs/none"]))
            self.blob = True
        elif k == "noblob" and self.blob:
            self.git("config", "--unset-all", "mailmap.blob", check=False)
            self.blob = False
        if self.blob and not os.path.exists(mm):
            self.put(mm, b"")
        self.r.remap()
        return k

    def samesize(self, f):
        """Same size, different content."""
        with open(f, "rb") as fh:
            d = bytearray(fh.read())
        at = [i for l in re.finditer(rb"(?m)^ *([^#<\n]+)<", bytes(d)) for i in range(l.start(1), l.end(1)) if chr(d[i]).isalpha() and d[i] < 128]
        for i in self.c.rng.sample(at, min(len(at), self.c.rng.choice([1, 2, 5]))):
            d[i] = self.c.rng.choice(b"abcdxyzQR")
        self.put(f, bytes(d), True)

    def put(self, f, data, keep=False):
        """keep: leave everything but the contents as it is"""
        if keep and self.c.rng.random() < 0.6:
            st = os.stat(f)
            with open(f, "r+b") as fh:
                fh.write(data)
            os.utime(f, ns=(st.st_atime_ns, st.st_mtime_ns))
            self.c.counts["edits_keeping_size_and_time"] += 1
            return
        if os.path.islink(f) or os.path.exists(f):
            os.unlink(f)
        with open(f, "wb") as fh:
            fh.write(data)
        if self.c.rng.random() < 0.3:
            os.utime(f, (1_600_000_000, 1_600_000_000))


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    if kind == "big":
        p, r = world.linear(c, c.desc["n"], nauthors=7)
    else:
        o = world.small(rng, commits=rng.randint(6, 25), authors=world.authors(rng, rng.randint(2, 6), odd=kind == "odd"), depth=2)
        p, r = world.make(c, **o)
    w = query.World(p, r)
    m = Maps(c, p, r, w)
    subdir = [d for d in sorted(os.listdir(p)) if os.path.isdir(os.path.join(p, d)) and d != ".git"]
    for i in range(c.desc["steps"]):
        ch = m.change() if i else rng.choice(["none", m.change()])
        mapped = sum((x.name, x.email) != (x.mname, x.memail) for x in r.commits.values())
        c.counts["mailmap_changes"] += 1
        for j in range(c.desc["queries"]):
            q = query.random_query(rng, w, revs=0.2, filters=0.1, paths=0.1, prefix=0.15)
            if rng.random() < 0.6:
                q.sub, q.csv, q.limit = "table", True, 0
                q.mode = rng.choice(world.TABLE_MODES)
            if rng.random() < 0.35:
                # a mapped identity, or one that no longer exists
                x = rng.choice(list(r.commits.values()))
                pat = outp.s(rng.choice([x.mname, x.memail, x.name, x.email]))
                pat = re.sub(r"[^A-Za-z0-9 @]", ".", pat)
                if pat:
                    if rng.random() < 0.6:
                        q.opts += ["--author", pat]
                    else:
                        q.nauthors.append(pat)
            e = q.expect(w)
            if q.run(c, w, e, "after %s" % ch, cpus=rng.choice([1, 1, 2, 4]), nocache=rng.random() < 0.25) is None:
                return
            if kind == "small" and rng.random() < 0.15 and not query.listed(c, w, q):
                return
            moved = sum((x.name, x.email) != (x.mname, x.memail) for x in e["commits"])
            c.counts["commits_mapped"] += moved
            c.counts["commits_unmapped"] += len(e["commits"]) - moved
            if moved:
                c.nontrivial(q.sub, q.mode, q.by_email, moved, sorted({(x.mname, x.memail) for x in e["commits"]}))
    if m.ids and kind != "big":
        # replaced by one of the same size and time, as tar or rsync do
        q = query.Query("table", "lines")
        q.csv, q.limit = True, 0
        f = os.path.join(p, ".mailmap") if m.blob or not m.where or not os.path.isfile(m.where) else rng.choice([os.path.join(p, ".mailmap"), m.where])
        es = [e for _, e in m.ids]
        for k, new in enumerate([b"Abc", b"Xyz"]):
            data = b"".join(new + b" <" + e + b">\n" for e in sorted(set(es)))
            if os.path.islink(f):
                os.unlink(f)
            with open(f, "wb") as fh:
                fh.write(data)
            os.utime(f, (1_600_000_000, 1_600_000_000))
            r.remap()
            c.counts["edits_keeping_size_and_time"] += k
            if q.run(c, w, q.expect(w), "after the mailmap was replaced by one of the same size and time", cpus=rng.choice([1, 4])) is None:
                return
    c.sample("%s: %d identities, %d commits mapped" % (kind, len(m.ids), mapped))


def cases():
    if E.TIER == "quick":
        plan, steps, nq, bigs = dict(small=60, odd=40), 6, 3, [1200]
    else:
        plan, steps, nq, bigs = dict(small=350, odd=250), 15, 5, [1023, 1500, 2049, 3000]
    return [dict(seed=E.SEED, kind="big", i=i, n=n, steps=steps, queries=nq) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind=k, i=i, steps=steps, queries=nq) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C10", run, cases(), min_nontrivial=40, rule=
        "one evaluation = one command while some mailmap (.mailmap, mailmap.file) is in effect, between edits of them, judged by totals "
        "over identities mapped by git check-mailmap; non-trivial: some selected commit's identity is changed by the mailmap; "
        "distinct by subcommand, mode and resulting identities"))
