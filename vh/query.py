"""A command line of git-who together with what it ought to answer."""
import datetime, os, re, time, zoneinfo

from . import model, outp, world


class World:
    """A repository plus the supplementary files now in effect."""

    def __init__(self, path, repo):
        self.path, self.repo = path, repo
        self.ignore = []

    def set_ignore(self, hashes, layout=None, rng=None):
        self.ignore = list(hashes)
        f = os.path.join(self.path, ".git-blame-ignore-revs")
        if not hashes and layout is None:
            if os.path.exists(f):
                os.unlink(f)
            return
        with open(f, "w") as fh:
            for h in hashes:
                fh.write(h + "\n")

    def set_mailmap(self, data):
        f = os.path.join(self.path, ".mailmap")
        if data is None:
            if os.path.exists(f):
                os.unlink(f)
        else:
            with open(f, "wb") as fh:
                fh.write(data)
        self.repo.remap()


class Query:
    def __init__(self, sub="table", mode="commits", by_email=False, merges=False, limit=0, csv=True,
                 show_all=False, depth=0, revs=(), opts=(), nauthors=(), paths=(), prefix="", tz="UTC",
                 dashes=None):
        self.sub, self.mode, self.by_email, self.merges = sub, mode, by_email, merges
        self.limit, self.csv, self.show_all, self.depth = limit, csv, show_all, depth
        self.revs, self.opts, self.nauthors = list(revs), list(opts), list(nauthors)
        self.paths, self.prefix, self.tz = list(paths), prefix, tz
        self.dashes = dashes
        # What to judge besides the answer being readable
        self.structure = self.numbers = True

    @property
    def args(self):
        a = [self.sub] + world.flags(self.mode, self.by_email, self.merges)
        if self.sub == "table":
            a += ["-n", str(self.limit)]
            if self.csv:
                a.append("--csv")
        if self.sub == "tree":
            if self.show_all:
                a.append("-a")
            if self.depth:
                a += ["-d", str(self.depth)]
        a += self.opts
        for n in self.nauthors:
            a += ["--nauthor", n]
        a += self.revs
        if self.paths or self.dashes:
            if self.dashes is not False:
                a.append("--")
            a += self.paths
        return a

    def needs_diffs(self):
        return self.sub == "tree" or self.mode in ("lines", "files")

    def ages(self):
        """Output contains ages, which change as time passes."""
        return self.mode in ("last", "first") and self.sub == "tree" or self.sub == "table" and not self.csv

    def cwd(self, w):
        return os.path.join(w.path, self.prefix) if self.prefix else w.path

    def selection(self, w):
        r = w.repo
        hs = r.select([*self.opts, *(self.revs or ["HEAD"]), "--", *self.paths], cwd=self.cwd(w), env=dict(TZ=self.tz))
        cs = r.counted(hs, w.ignore)
        if self.nauthors:
            pat = [re.compile(n) for n in self.nauthors]
            cs = [c for c in cs if not any(p.search(outp.s(c.mname) + " <" + outp.s(c.memail) + ">") for p in pat)]
        return cs

    def expect(self, w):
        """Precomputes the answer. Must be redone after the repository, mailmap
        or ignore file change."""
        e = {}
        e["commits"] = self.selection(w)
        pre = self.prefix.rstrip("/") + "/" if self.prefix else ""
        e["paths"] = w.repo.match_paths(self.paths, os.fsencode(pre)) if self.paths else None
        if self.sub == "table":
            e["rows"] = model.tally(e["commits"], self.by_email, self.merges, e["paths"])
        elif self.sub == "tree":
            e["nodes"], e["touched"] = model.tree(e["commits"], self.by_email, self.merges, e["paths"], os.fsencode(pre))
            e["wtree"] = w.repo.worktree((), self.cwd(w))
        return e

    def size(self, e):
        """How much there was to get right (for evidence)."""
        if self.sub == "table":
            return len(e["rows"])
        if self.sub == "tree":
            return len(e["touched"])
        return len(e["commits"])

    def sig(self, e):
        return (self.sub, self.mode, self.by_email, self.merges, bool(self.paths), bool(self.opts or self.nauthors),
                len(e["commits"]), self.size(e))

    def verify(self, out, e, lo, hi):
        if self.sub == "table":
            if self.csv:
                return outp.check_csv(out, e["rows"], self.mode, self.by_email, self.limit)
            return outp.check_table(out, None, e["rows"], self.mode, self.by_email, self.limit, lo, hi)
        if self.sub == "tree":
            return outp.check_tree(out, e["nodes"], e["touched"], e["wtree"], self.mode, self.by_email,
                                   self.show_all, self.depth, lo, hi, structure=self.structure, numbers=self.numbers)
        ends_now = not self.revs and "--until" not in self.opts
        return outp.check_hist(out, e["commits"], self.mode, self.by_email, self.merges,
                               zoneinfo.ZoneInfo(self.tz), self.tz, lo, hi, ends_now, e["paths"],
                               axis=self.structure, numbers=self.numbers)

    def run(self, c, w, e=None, what="", count=True, **kw):
        """Runs git-who, complains about anything wrong. Returns the result."""
        if e is None:
            e = self.expect(w)
        kw.setdefault("tz", self.tz)
        lo = time.time()
        res = c.who(self.cwd(w), *self.args, **kw)
        if count:
            c.counts["evaluations"] += 1
        if not c.ok(res, what or "git who " + " ".join(self.args)):
            return None
        bad = self.verify(res.out, e, lo, time.time())
        if bad:
            c.bads(res, ["%s: %s" % (what, b) if what else b for b in bad])
            return None
        return res


def some_paths(rng, repo, odd=False):
    """A few path arguments."""
    allp = [outp.s(p) for p in repo.all_paths()]
    if not allp:
        return []
    plain = [p for p in allp if "\n" not in p] or allp
    r = []

    def pick():
        p = rng.choice(plain)
        comps = p.split("/")
        k = rng.randint(1, len(comps))
        q = "/".join(comps[:k])
        if rng.random() < 0.15 and k < len(comps):
            q += "/"
        return q
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < 0.5:
            r.append(pick())
        elif x < 0.65:
            r.append(rng.choice(["*.go", "*.txt", "*.py", "*a*", "*", "x*", "*main*", "[a-c]*", "*/b*" if False else "?.txt"]))
        elif x < 0.9:
            x, q = rng.choice([":!", ":^", ":(exclude)"]), pick()
            r.append((x if q[:1].isalnum() or q[:1] == "." else ":(exclude)") + q)
        else:
            r.append(rng.choice([":!", ":(exclude)"]) + rng.choice(["*.go", "*.txt", "*.py"]))
    # (Directories along with wildcards aren't matched as in git: see C08.)
    return [p for p in r if not p.startswith((":!(", ":^(")) and not ("/" in p and re.search(r"[*?\[\\]", p))]


TZS = ["UTC", "America/New_York", "Europe/Berlin", "Asia/Kolkata", "Australia/Lord_Howe",
       "America/Sao_Paulo", "Pacific/Apia", "Asia/Kathmandu", "America/St_Johns", "Africa/Cairo"]


def random_query(rng, w, subs=("table", "tree", "hist"), revs=0.3, filters=0.3, paths=0.3, merges=0.3, tz=True,
                 text=0.2, ages=True, prefix=0.0, diffs_only=False):
    repo = w.repo
    sub = rng.choice(list(subs))
    q = Query(sub=sub)
    q.mode = rng.choice(world.HIST_MODES if sub == "hist" else world.TABLE_MODES)
    if diffs_only and sub != "tree":
        q.mode = rng.choice(["lines", "files"])
    q.by_email = rng.random() < 0.4
    q.merges = rng.random() < merges
    if sub == "table":
        q.limit = rng.choice([0, 0, 1, 2, 3, 10])
        q.csv = rng.random() >= text
    if sub == "tree":
        q.show_all = rng.random() < 0.5
        q.depth = rng.choice([0, 0, 1, 2, 3])
        if not ages:
            while q.mode in ("first", "last"):
                q.mode = rng.choice(world.TABLE_MODES)
    if rng.random() < revs:
        hs = sorted(repo.commits)
        x = rng.random()
        refs = refnames(repo)
        if x < 0.3:
            q.revs = [rng.choice(refs)]
        elif x < 0.5:
            q.revs = [rng.choice(refs) + ".." + rng.choice(refs)]
        elif x < 0.6:
            q.revs = [rng.choice(refs) + "..." + rng.choice(refs)]
        elif x < 0.73:
            q.revs = [rng.choice(refs), "^" + rng.choice(refs)]
        elif x < 0.77:
            # (nothing on the positive side: no commits, as in git log)
            q.revs = ["^" + y for y in rng.sample(refs, min(len(refs), rng.choice([1, 1, 2])))]
        elif x < 0.9:
            q.revs = [rng.choice(hs)[:rng.choice([12, 40])], rng.choice(refs)]
        else:
            q.revs = [rng.choice(refs) + rng.choice(["~1", "^", "~2", "^{commit}"])]
            if repo.sb.git(repo.path, "rev-parse", "-q", "--verify", q.revs[0] + "^{commit}", check=False).returncode:
                q.revs = ["HEAD"]
    if rng.random() < filters:
        dates = sorted(c.date for c in repo.commits.values() if c.date < 3_000_000_000) or [1_500_000_000]
        x = rng.random()
        if x < 0.6:
            d = rng.choice(dates)
            q.opts += [rng.choice(["--since", "--until"]), "@%d" % d if False else iso(d)]
        names = sorted({outp.s(c.mname) for c in repo.commits.values()})
        words = sorted({wd for n in names for wd in re.findall(r"[A-Za-z]{2,}", n)}) or ["x"]
        if x > 0.4:
            q.opts += ["--author", rng.choice(words)]
            if rng.random() < 0.3:
                q.opts += ["--author", rng.choice(words)]
        if rng.random() < 0.4:
            q.nauthors = [rng.choice(words)]
            if rng.random() < 0.3:
                q.nauthors.append(rng.choice(words))
    # (Git simplifies a path-limited symmetric difference in a way that can't be
    # expressed with the revisions rev-parse resolves it to: see DESIGN.md.)
    if rng.random() < paths and not any("..." in x for x in q.revs):
        q.paths = some_paths(rng, repo)
    if tz:
        q.tz = rng.choice(TZS)
    if prefix and rng.random() < prefix:
        dirs = sorted({outp.s(p).rpartition("/")[0] for p in repo.worktree()} - {""})
        dirs = [d for d in dirs if os.path.isdir(os.path.join(w.path, d))]
        if dirs:
            q.prefix = rng.choice(dirs)
    return q


def iso(t):
    import datetime
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime("%Y-%m-%dT%H:%M:%S+00:00")


def refnames(repo):
    if not hasattr(repo, "_refs"):
        out = repo.sb.git(repo.path, "for-each-ref", "--format=%(refname:short)", "refs/heads", "refs/tags").decode().split()
        repo._refs = sorted(out) + ["HEAD"]
    return repo._refs


def listed(c, w, q):
    """The same selection with the subcommands that list commits."""
    rng = c.rng
    q.sub, q.mode, q.csv, q.merges, q.by_email, q.show_all, q.limit, q.depth = "table", "commits", False, False, False, False, 10, 0
    rest = [*q.opts, *(x for n in q.nauthors for x in ("--nauthor", n)), *q.revs, *((["--"] if q.dashes is not False else []) + q.paths if q.paths or q.dashes else [])]
    for sub in rng.sample(["parse", "parse", "dump"], 2):
        short = ["-s"] if sub == "dump" or rng.random() < 0.3 else []
        want = q.selection(w)
        if sub == "dump" and (q.nauthors or w.ignore or any(cm.hash not in {x.hash for x in want} for cm in w.repo.commits.values() if not (cm.mname or cm.memail) or cm.date > time.time())):
            continue  # (shows those, too, that aren't counted)
        res = c.who(q.cwd(w), sub, *short, *rest, tz=q.tz, cpus=rng.choice([1, 4]))
        c.counts["evaluations"] += 1
        c.counts["listings"] += 1
        what = "%s %s" % (sub, rest)
        if not c.ok(res, what):
            return False
        if sub == "dump":
            # hash, short hash, parents, name, email, date for each, where all
            # hashes are full ones if so configured
            ls = res.out.split(b"\n")
            at = [i for i, (a, b) in enumerate(zip(ls, ls[1:])) if re.fullmatch(rb"[0-9a-f]{40}|[0-9a-f]{64}", a) and b and a.startswith(b)]
            got = sorted((ls[i].decode(), *ls[i + 3:i + 6]) for i in at)
            exp = sorted((x.hash, x.mname, x.memail, b"%d" % x.date) for x in want)
        else:
            got = sorted(x.decode() for x in re.findall(rb"(?m)^\{ hash:([0-9a-f]+) author:", res.out))
            exp = sorted(x.hash for x in want)
            if len(got) == len(exp) and all(b.startswith(a) for a, b in zip(got, exp)):
                got = exp
            whos = sorted(l[l.index(b" author:"):] for l in res.out.split(b"\n") if l.startswith(b"{ hash:") and b" author:" in l)
            day = lambda t: (lambda d: b"%s %d, %d" % (d.strftime("%b").encode(), d.day, d.year))(datetime.datetime.fromtimestamp(t, zoneinfo.ZoneInfo(q.tz)))
            wants = sorted(b" author:%s <%s> date:%s merge:%s }" % (x.mname, x.memail, day(x.date), b"true" if x.merge else b"false") for x in want)
            if whos != wants:
                c.bad("%s lists %r, expected %r" % (what, [x for x in whos if x not in wants][:4], [x for x in wants if x not in whos][:4]), run=res.brief())
                return False
            m = re.search(rb"Parsed (\d+) commits\.\n\Z", res.out)
            if not m or int(m.group(1)) != len(exp):
                c.bad("%s says %s, git log lists %d" % (what, m and m.group(0), len(exp)), run=res.brief())
                return False
            e = q.expect(w)
            diffs = sorted(b'  { path:"%s" added:%d removed:%d }' % d for x in want if not x.merge for d in x.diffs if e["paths"] is None or d[0] in e["paths"])
            if not any(b"\n" in d or b"\r" in d for d in diffs):
                lines = sorted(l for l in res.out.split(b"\n") if l.startswith(b"  { path:"))
                if lines != (diffs if not short else []):
                    c.bad("%s lists the changes %r, expected %r" % (what, lines[:5], diffs[:5]), run=res.brief())
                    return False
        if got != exp:
            c.bad("%s lists %d commits, git log %d: %s, %s" % (what, len(got), len(exp), got[:3], exp[:3]), run=res.brief(), stdout=res.out[:1500])
            return False
    return True
