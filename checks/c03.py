"""C03: the cache is invisible in results, over histories of commands and changes."""
import hashlib, os, random, subprocess, sys

from vh import check, env as E, gitgen, model, outp, query, shim, world


class History:
    """A repository that changes between commands."""

    def __init__(self, c):
        self.c, self.rng = c, c.rng
        rng = c.rng
        odd = c.desc["kind"] == "odd"
        o = world.small(rng, commits=rng.randint(6, 30), authors=world.authors(rng, rng.randint(2, 6), odd=odd))
        if odd:
            o["names"] = [b"a", b"b c", b"d\"q", b"tab\tx", b"\xff\xfe", "ü".encode(), b"n.l", b"main.go", b"*"]
        self.sha256 = c.desc["kind"] == "sha256"
        if self.sha256:
            o["kinds"] = dict(gitgen.Gen.KINDS, submodule=0)
        self.path, self.repo = world.make(c, sha256=self.sha256, **o)
        self.w = query.World(self.path, self.repo)
        self.mailmapfile = None
        self.n = 0

    def git(self, *a, **k):
        return self.c.sb.git(self.path, *a, **k)

    def refresh(self, hard=False):
        if hasattr(self.repo, "_refs"):
            del self.repo._refs
        if hard:
            self.repo.commits = {}
        self.repo._paths_cache = {}
        self.repo.load()

    def commit(self, parent, date=None, author=None, amend=False):
        """A new commit on top of parent with a change or two."""
        rng = self.rng
        self.n += 1
        cs = list(self.repo.commits.values())
        a = author or rng.choice(cs)
        old = self.repo.commits.get(parent)
        date = date if date is not None else rng.choice([c.date for c in cs if c.date < 3e9]) + rng.choice([0, 60, 86400])
        body = b"text %d\n" % rng.randrange(10 ** 6) * rng.randint(1, 5)
        p = rng.choice([b"new%d" % self.n, b"a/n%d" % rng.randint(0, 3), b"lib/x.txt/n", b"src/new.go"])
        out = b"commit refs/heads/vhtmp\nauthor " + a.name + b" <" + a.email + b"> %d +0100\n" % date
        out += b"committer C <c@x> %d +0000\ndata 2\nx\n" % min(date + 5, 2 ** 31 - 1)
        out += b"from " + parent.encode() + b"\nM 100644 inline " + gitgen.quote_path(p) + b"\ndata %d\n" % len(body) + body + b"\n"
        self.git("fast-import", "--quiet", "--force", input=out)
        h = self.git("rev-parse", "refs/heads/vhtmp").decode().strip()
        self.git("update-ref", "-d", "refs/heads/vhtmp")
        return h

    def head(self):
        return self.git("rev-parse", "HEAD").decode().strip()

    def change(self):
        """One step of the world. Returns its name."""
        rng = self.rng
        kinds = ["commit", "commit", "move", "amend", "branch", "delete", "ignore", "unignore", "mailmap", "nomailmap",
                 "mailmapfile", "mailmapblob", "tz", "gc", "nothing", "rebase", "mailmapback", "reauthor"]
        k = rng.choice(kinds)
        if k == "commit":
            for _ in range(rng.randint(1, 3)):
                self.git("update-ref", "refs/heads/main", self.commit(self.git("rev-parse", "main").decode().strip()))
            self.git("reset", "-q", "--hard")
        elif k == "move":
            h = rng.choice(sorted(self.repo.commits))
            self.git("update-ref", "refs/heads/main", h)
            self.git("reset", "-q", "--hard")
        elif k in ("amend", "rebase", "reauthor"):
            # a rewritten tail of the branch
            hs = self.repo.select(["main"])
            at = rng.choice(hs[:6])
            ps = self.repo.commits[at].parents
            if not ps:
                return "nothing"
            h = ps[0]
            for _ in range(rng.randint(1, 2) if k == "rebase" else 1):
                h = self.commit(h, date=self.repo.commits[at].date if k == "amend" else None)
                self.refresh()
            self.git("update-ref", "refs/heads/main", h)
            self.git("reset", "-q", "--hard")
        elif k == "branch":
            self.git("update-ref", "refs/heads/n%d" % rng.randint(0, 3), rng.choice(sorted(self.repo.commits)))
        elif k == "delete":
            refs = [x for x in query.refnames(self.repo) if x not in ("HEAD", "main")]
            heads = [r for r in refs if self.git("show-ref", "--verify", "-q", "refs/heads/" + r, check=False).returncode == 0]
            if heads:
                self.git("update-ref", "-d", "refs/heads/" + rng.choice(heads))
        elif k == "ignore":
            self.w.set_ignore(rng.sample(sorted(self.repo.commits), min(len(self.repo.commits), rng.randint(1, 4))))
        elif k == "unignore":
            self.w.set_ignore([])
        elif k in ("mailmap", "mailmapfile", "mailmapback", "mailmapblob"):
            ids = sorted({(c.name, c.email) for c in self.repo.commits.values() if c.name and c.email and b">" not in c.email})
            if not ids:
                return "nothing"
            lines = b""
            for _ in range(rng.randint(1, 3)):
                a, b = rng.choice(ids), rng.choice(ids)
                lines += rng.choice([a[0] + b" <" + b[1] + b">\n", b"New Name <new@x> <" + b[1] + b">\n",
                                     a[0] + b" <" + a[1] + b"> " + b[0] + b" <" + b[1] + b">\n",
                                     b"<other@x> <" + a[1] + b">\n"])
            if k == "mailmapback" and getattr(self, "oldmap", None) is not None:
                lines, self.oldmap = self.oldmap, lines
            if k == "mailmapblob":
                self.git("update-ref", "refs/mm", self.git("hash-object", "-w", "--stdin", input=lines).decode().strip())
                self.git("config", "mailmap.blob", "refs/mm")
                if not os.path.exists(os.path.join(self.w.path, ".mailmap")):
                    self.w.set_mailmap(b"# nothing\n")
                self.repo.remap()
            elif k == "mailmapfile":
                f = os.path.join(self.c.dir, "mm")
                with open(f, "wb") as fh:
                    fh.write(lines)
                self.git("config", "mailmap.file", rng.choice([f, f, "../mm"]))
                self.repo.remap()
            else:
                self.oldmap = lines
                self.w.set_mailmap(lines)
        elif k == "nomailmap":
            self.w.set_mailmap(None)
            self.git("config", "--unset-all", "mailmap.file", check=False)
            self.git("config", "--unset-all", "mailmap.blob", check=False)
            self.repo.remap()
        elif k == "gc":
            self.git("gc", "-q", "--prune=never")
        self.refresh()
        return k


def ask(c, h, w, q, when, sh=None):
    e = q.expect(w)
    kw = {}
    if sh is not None:
        kw = sh.kw()
    res = q.run(c, w, e, "%s (cache enabled)" % when, cpus=c.rng.choice([2, 3, 8, 8, 1]), **kw)
    if res is None:
        return False
    if sh is not None:
        c.counts["batches_read_from_git"] += len(sh.log().of("stdin"))
        c.counts["commands_with_no_batch_read"] += not sh.log().of("stdin") and bool(e["commits"])
    if c.rng.random() < 0.5 and not q.ages():
        r2 = c.who(q.cwd(w), *q.args, cpus=c.rng.choice([2, 8]), nocache=True, tz=q.tz)
        c.counts["evaluations"] += 1
        if c.ok(r2, when + " (cache disabled)") and r2.out != res.out:
            c.bad("%s: answer with cache differs from the one without" % when, run=res.brief(), stdout=res.out, uncached=r2.out)
            return False
    if len(e["commits"]) > 1:
        c.nontrivial(when, *q.sig(e))
    return True


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    sh = shim.Shim(c)
    if kind == "known":
        return run_known(c)
    if kind == "shallow":
        return run_shallow(c, sh)
    if kind == "big":
        return run_big(c, sh)
    if kind == "two":
        return run_two(c, sh)
    if kind == "abbrev":
        return run_abbrev(c, sh)
    h = History(c)
    steps = []
    for i in range(c.desc["steps"]):
        for _ in range(rng.choice([1, 1, 2])):
            q = query.random_query(rng, h.w, diffs_only=rng.random() < 0.85, revs=0.4, filters=0.25, paths=0.3, prefix=0.1)
            if not ask(c, h, h.w, q, "after " + "/".join(steps[-4:]), sh):
                c.problems[-1]["history"] = repr(steps)
                return
        steps.append(h.change())
        c.counts["change " + steps[-1]] += 1
    c.sample("%s: %s" % (kind, " ".join(steps)))


def run_shallow(c, sh):
    """More history arrives; before that a commit at the edge looks like a root."""
    rng = c.rng
    p, r = world.make(c, **world.small(rng, commits=rng.randint(8, 25), merges=0.1, orphans=0))
    dst = c.repo("clone")
    c.sb.git(c.dir, "clone", "-q", "--depth", "1", "file://" + p, dst)
    depth = 1
    for step in range(5):
        m = model.Repo(c.sb, dst)
        w = query.World(dst, m)
        for sub, mode in rng.sample([("table", "lines"), ("table", "files"), ("tree", "lines"), ("hist", "lines")], 2):
            if not ask(c, None, w, query.Query(sub, mode, limit=0, show_all=True), "depth %s" % depth, sh):
                return
        if depth == 0:
            break
        if step == 3 or rng.random() < 0.3:
            c.sb.git(dst, "fetch", "-q", "--unshallow", check=False)
            depth = 0
        else:
            depth += rng.randint(1, 3)
            c.sb.git(dst, "fetch", "-q", "--depth", str(depth))
        c.counts["change deepen"] += 1
    c.sample("shallow clone deepened to %s" % depth)


def run_big(c, sh):
    """Reading half of a large selection from the cache, by batches."""
    rng = c.rng
    n = c.desc["n"]
    p, r = world.linear(c, n, merges_every=rng.choice([0, 8]))
    w = query.World(p, r)
    hs = r.select(["HEAD"])
    for cut in c.desc["cuts"]:
        rev = hs[min(len(hs) - 1, max(0, len(hs) - cut))]
        q = query.Query(rng.choice(["table", "tree", "hist"]), rng.choice(["lines", "files"]), revs=[rev])
        if rng.random() < 0.3:
            q.paths = ["d1", "d2/"]
        if not ask(c, None, w, q, "first %d of %d" % (cut, n), sh):
            return
        if not ask(c, None, w, query.Query("hist", "lines", revs=[rev]), "again", sh):
            return


def run_two(c, sh):
    """Two repositories with the same directory name, and one moved away and
    replaced by another, share a cache location."""
    rng = c.rng
    ws = []
    for i in range(3):
        p, r = world.make(c, name="r%d/same" % i, **world.small(rng, commits=rng.randint(4, 14)))
        ws.append(query.World(p, r))
    for step in range(6):
        w = rng.choice(ws)
        q = query.random_query(rng, w, diffs_only=True)
        if not ask(c, None, w, q, "one of three", sh):
            return
    # swap two of them
    a, b = ws[0], ws[1]
    os.rename(a.path, a.path + ".away")
    os.rename(b.path, a.path)
    b.path = a.path
    b.repo.path = a.path
    b.repo._paths_cache = {}
    for _ in range(2):
        if not ask(c, None, b, query.random_query(rng, b, diffs_only=True), "another repository in its place", sh):
            return


def run_abbrev(c, sh):
    """Commits that go and others that come, of which git abbreviates the hashes
    alike, since they are never there at the same time."""
    rng = c.rng
    p, r = world.make(c, **world.small(rng, commits=rng.randint(3, 8)))
    g = lambda *a, **k: c.sb.git(p, *a, **k).decode().strip()
    g("config", "core.abbrev", "4")
    trees = sorted({g("rev-parse", h + "^{tree}") for h in r.commits})
    ids = sorted({(x.name, x.email) for x in r.commits.values()})
    pairs = []
    for k in range(c.desc["pairs"]):
        a = rng.choice(ids)
        seen, n = {}, 0
        while True:
            t = world.NOW0 + 1000 * k
            ident = rng.choice(ids) if n % 3 == 0 else a
            ident = ident[0] + b" <" + ident[1] + b"> %d +0000\n" % t
            body = b"tree " + rng.choice(trees).encode() + b"\nauthor " + ident + b"committer " + ident + b"\n%d.%d\n" % (k, n)
            h = hashlib.sha1(b"commit %d\0" % len(body) + body).hexdigest()
            n += 1
            if h[:4] in seen:
                break
            seen[h[:4]] = body
        pairs.append((seen[h[:4]], body))

    def put(which, name):
        hs = []
        for k, pair in enumerate(pairs):
            hs.append(g("hash-object", "-t", "commit", "-w", "--stdin", input=pair[which]))
            g("update-ref", "refs/heads/%s%d" % (name, k), hs[-1])
        return hs

    def asks(what, n):
        w = query.World(p, model.Repo(c.sb, p))
        refs = sorted(set(query.refnames(w.repo)) - {"HEAD"})
        for _ in range(n):
            q = query.random_query(rng, w, diffs_only=True, revs=0, filters=0.1, paths=0.1)
            q.revs = refs if rng.random() < 0.7 else [x for x in refs if rng.random() < 0.7] or refs
            if not ask(c, None, w, q, what, sh):
                return False
        return True
    hs = put(0, "a")
    if not asks("first commits", 2):
        return
    for k, h in enumerate(hs):
        g("update-ref", "-d", "refs/heads/a%d" % k)
        os.unlink(os.path.join(p, ".git/objects", h[:2], h[2:]))
    put(1, "b")
    if not asks("others in their place", 2):
        return
    put(0, "a")
    if not asks("the first are back, some with the abbreviated hash of another when read", 3):
        return
    c.counts["commits_abbreviated_alike"] += len(pairs)
    c.sample("%d pairs of commits abbreviated alike" % len(pairs))


def run_known(c):
    """Changes the cache is known not to notice. Deterministic."""
    key = c.desc["key"]
    p = c.repo()
    os.makedirs(p)
    g = lambda *a, **k: c.sb.git(p, *a, **k)
    g("init", "-q", "-b", "main", ".")
    idt = dict(GIT_AUTHOR_DATE="1600000000 +0000", GIT_COMMITTER_DATE="1600000000 +0000")

    def put(name, data):
        with open(os.path.join(p, name), "w") as f:
            f.write(data)
    put("a", "".join("line %d\n" % i for i in range(20)))
    g("add", "-A")
    g("commit", "-qm", "1", env=idt)
    g("mv", "a", "b")
    g("commit", "-qm", "2", env=idt)
    args = ["table", "-l", "--csv"]
    before = c.who(p, *args, cpus=2)
    if key == "diff-config":
        g("config", "diff.renames", "false")
    elif key == "attributes":
        put(".git/info/attributes", "b binary\na binary\n")
    elif key == "replace":
        h = g("rev-parse", "HEAD").decode().strip()
        t = g("rev-parse", "HEAD^{tree}").decode().strip()
        h2 = g("commit-tree", t, "-m", "root now", env=idt).decode().strip()
        g("replace", h, h2)
    cached = c.who(p, *args, cpus=2)
    plain = c.who(p, *args, cpus=2, nocache=True)
    c.counts["evaluations"] += 2
    for r in (before, cached, plain):
        if not c.ok(r, key):
            return
    if cached.out != plain.out:
        c.known.append((key, "cached answer %r, uncached %r" % (cached.out, plain.out)))


def cases():
    cs = [dict(kind="known", key=k) for k in ("diff-config", "attributes", "replace")]
    if E.TIER == "quick":
        cs += [dict(seed=E.SEED, kind="big", i=0, n=2600, cuts=[1, 1000, 1024, 1025, 2049, 2600]),
               dict(seed=E.SEED, kind="big", i=1, n=1500, cuts=[1024, 1500])]
        plan = dict(small=(70, 9), odd=(10, 7), sha256=(4, 7), shallow=(16, 0), two=(12, 0), abbrev=(6, 0))
    else:
        cs += [dict(seed=E.SEED, kind="big", i=i, n=n, cuts=k) for i, (n, k) in enumerate([
            (2600, [1, 1000, 1024, 1025, 2049, 2600]), (5000, [100, 1023, 1024, 3000, 4096, 4097, 5000]),
            (9000, [8000, 9000]), (3000, list(range(0, 3001, 300)))] * 3)]
        plan = dict(small=(500, 25), odd=(100, 15), sha256=(40, 12), shallow=(120, 0), two=(80, 0), abbrev=(40, 0))
    for k, (n, steps) in plan.items():
        cs += [dict(seed=E.SEED, kind=k, i=i, steps=steps, **(dict(pairs=5) if k == "abbrev" else {})) for i in range(n)]
    return cs


if __name__ == "__main__":
    sys.exit(check.main("C03", run, cases(), pre=shim.pre, min_nontrivial=40, rule=
        "one evaluation = one command within a history of commands and repository changes, judged by the reference model "
        "(and compared with a run without cache); distinct by the changes just before and the shape of the query",
        assumptions=["diff-affecting configuration, attributes and replace refs stay as they were (see KNOWN_FINDINGS.txt)"]))
