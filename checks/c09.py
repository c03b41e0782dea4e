"""C09: revisions, ranges and filters select what git log selects."""
import os, re, sys, time
from vh import check, env as E, gitgen, model, outp, query, world

PARTS = [".", "^A", "^[A-E]", "a", "[aeiou] ", "<u0@", "example", "@example.com>$", "x>$", "l.*<u", "ob", "[0-9]", "o", "u[0-2]", "O.N", "a.a", " ", ",", ", ", "a,o", "y, L", ";", "Ada|Bob", "a+"]
COMBOS = [("table", m) for m in world.TABLE_MODES] + [("hist", m) for m in world.HIST_MODES] + [("tree", m) for m in world.TABLE_MODES]


HEXNAME = b"0123456789abcdef0123456789abcdef01234567"

def author_pats(rng, r, n):
    names = sorted({outp.s(c.mname) for c in r.commits.values()} | {outp.s(c.memail) for c in r.commits.values()})
    words = sorted({wd for n in names for wd in re.findall(r"[A-Za-z]{2,}", n)}) or ["x"]
    whole = sorted({outp.s(c.mname) + " <" + outp.s(c.memail) + ">" for c in r.commits.values()})

    def part():
        x = rng.choice(whole)
        a = rng.randrange(len(x))
        x = x[a:a + rng.randint(1, 12)]
        return x if re.fullmatch(r"[A-Za-z0-9 ,'@<>;=&#!%_/-]+", x) and not x.startswith("-") else rng.choice(PARTS)
    return [rng.choice([lambda: rng.choice(words), lambda: rng.choice(PARTS), part])() for _ in range(n)]


def said(c, w, q, opt, t):
    """A date in one of the many ways git understands, most of which mean
    something else at another time of day."""
    rng = c.rng
    d = time.gmtime(t + rng.choice([-86400, 0, 0, 0, 86400]))
    f = time.strftime
    days = max(0, int(time.time() - t) // 86400)
    x = f("%Y-%m-%d", d) if rng.random() < 0.35 else rng.choice([f("%Y-%m-%d %H:%M", d), f("%Y-%m-%d %H:%M:%S", d), f("%Y-%m-%dT%H:%M:%S", d), f("%Y-%m-%dT%H:%M:%SZ", d),
                    f("%d %b %Y", d), f("%b %d %Y %I:%M%p", d), f("%a, %d %b %Y %H:%M:%S +0330", d), f("%m/%d/%Y", d), f("%d.%m.%Y", d), f("%Y/%m/%d %H:%M -0700", d),
                    "@%d" % t, "@%d -0200" % t, "%d" % t, f("%Y%m%dT%H%M%S", d), "%d days ago" % days, "%d.days" % days, "%d weeks ago" % (days // 7),
                    "%d months 3 days ago" % (days // 31), "%d years ago" % (days // 366), "last year", "yesterday", "midnight", "now", "noon last friday", "2.weeks.ago",
                    "never", "today", "a while back", f("%b %d", d), f("%H:%M", d), f("%Y", d), "1 year, 2 months and 3 days ago"])
    a = c.sb.git(w.path, "rev-parse", opt + "=" + x, env=dict(TZ=q.tz), check=False)
    m = re.search(rb"=(-?\d+)", a.stdout)
    if a.returncode or not m:
        return None
    # Not so close that it matters when exactly we ask
    if any(abs(n - int(m.group(1))) < 900 for n in c.committed):
        return None
    c.counts["dates_in_words"] += 1
    return x


def judge(c, w, q, combos, what):
    """The same selection with several subcommands and metrics."""
    rng = c.rng
    e = None
    for sub, mode in combos:
        q.sub, q.mode = sub, mode
        q.csv = sub != "table" or rng.random() < 0.9
        q.limit, q.show_all, q.depth = 0, True, 0
        q.by_email = rng.random() < 0.3
        e = q.expect(w)
        if q.run(c, w, e, what, cpus=rng.choice([1, 2, 4, 8]), nocache=rng.random() < 0.3) is None:
            return None
    return e


def symmetric(c):
    """Known: symmetric difference limited to a path."""
    sb, p = c.sb, c.repo("sym")
    os.makedirs(p)
    sb.git(p, "init", "-q", "-b", "main")
    n = [0]

    def commit(*files):
        n[0] += 1
        for f in files:
            with open(os.path.join(p, f), "a") as fh:
                fh.write("%d\n" % n[0])
        sb.git(p, "add", "-A")
        d = "%d +0000" % (1_500_000_000 + 86400 * n[0])
        sb.git(p, "-c", "user.name=A%d" % n[0], "commit", "-qm", "x", env=dict(GIT_AUTHOR_DATE=d, GIT_COMMITTER_DATE=d))
    commit("a", "b", "f9")
    sb.git(p, "checkout", "-q", "-b", "side")
    commit("b", "f14")
    commit("f9")
    sb.git(p, "checkout", "-q", "main")
    sb.git(p, "merge", "-q", "--no-ff", "-s", "ours", "-m", "m", "side",
           env=dict(GIT_AUTHOR_DATE="1510000000 +0000", GIT_COMMITTER_DATE="1510000000 +0000"))
    r = model.Repo(sb, p)
    w = query.World(p, r)
    q = query.Query(merges=True, revs=["main...side"], paths=["b"])
    e = q.expect(w)
    res = c.who(p, *q.args)
    c.counts["evaluations"] += 1
    if not c.ok(res):
        return
    bad = q.verify(res.out, e, 0, 0)
    exp = sb.git(p, "rev-parse", "main...side").decode().split()
    alt = query.Query(merges=True, revs=exp, paths=["b"])
    ea = alt.expect(w)
    if bad:
        if len(ea["commits"]) != len(e["commits"]) and not q.verify(res.out, ea, 0, 0):
            c.known.append(("symmetric-paths", "main...side -- b counts %d commits, git log %d" % (len(ea["commits"]), len(e["commits"]))))
        else:
            c.bads(res, bad)
    c.nontrivial("symmetric")


def valid(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def mixed(c):
    """Known: what --nauthor does to the dialect of --author, and to names that
    aren't valid UTF-8."""
    p = c.repo("mixed")
    os.makedirs(p)
    c.sb.git(p, "init", "-q", "-b", "main")
    out = b""
    for i, ident in enumerate([b"Ann <ann+x@x>", b"J\xf6rg <j@example.com>", b"Cid <c@x>"]):
        out += b"commit refs/heads/main\nmark :%d\nauthor %s %d +0000\ncommitter C <c@x> 1500000000 +0000\ndata 1\nx\n" % (i + 1, ident, 1_500_000_000 + i)
        out += b"M 100644 inline f\ndata 1\n%d\n" % i
    c.sb.git(p, "fast-import", "--quiet", "--done", input=out + b"done\n")
    c.sb.git(p, "reset", "-q", "--hard")
    w = query.World(p, model.Repo(c.sb, p))
    for key, args, what in ((("nauthor-dialect"), dict(opts=["--author", "ann+x"], nauthors=["Zed"]),
                             "--author 'ann+x' --nauthor Zed counts 0 commits, git log --author 'ann+x' 1"),
                            ("nauthor-bytes", dict(nauthors=["example"]),
                             "--nauthor example counts the commit of J\\xf6rg <j@example.com>")):
        q = query.Query(**args)
        e = q.expect(w)
        res = c.who(p, *q.args)
        c.counts["evaluations"] += 1
        if not c.ok(res):
            return
        bad = q.verify(res.out, e, 0, 0)
        if not bad:
            continue
        got = {x[0] for x in outp.parse_csv(res.out)[1:]}
        if got == (set() if key == "nauthor-dialect" else {"Ann", "J\udcf6rg", "Cid"}):
            c.known.append((key, what))
        else:
            c.bads(res, bad)
    c.nontrivial("mixed")


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    if kind == "known":
        return mixed(c) if c.desc.get("i") else symmetric(c)
    if kind == "big":
        p, r = world.linear(c, c.desc["n"], nauthors=8, merges_every=rng.choice([0, 5]), chunked_ties=rng.random() < 0.5)
        c.sb.git(p, "branch", "b0", "main~%d" % (c.desc["n"] // 3))
        c.sb.git(p, "branch", "b1", "main~3")
        c.sb.git(p, "tag", "t0", "main~%d" % (c.desc["n"] - 5))
    else:
        o = world.small(rng, commits=rng.randint(8, 40), jitter=rng.choice([0, 40 * 86400]), future=rng.choice([0, 0.1]),
                        authors=world.authors(rng, rng.randint(2, 7), odd=kind == "odd"))
        if rng.random() < 0.3:
            o["span"] = 3 * 86400
        if kind == "names":
            # refs that are also names of files
            o["names"] = [b"main", b"b0", b"t0", b"b1", b"HEAD", b"src", b"a.go", HEXNAME]
            o["depth"] = 2
        if kind == "noid":
            o["authors"] = [(b"", b""), (b"", b"only@mail"), (b"Only Name", b""), (b"Ada", b"a@x")]
        p, r = world.make(c, **o)
    w = query.World(p, r)
    total = len(r.commits)
    c.committed = [int(x) for x in c.sb.git(p, "log", "--all", "--format=%ct").split()]
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, revs=0.7 if kind != "names" else 0.9, filters=0, merges=0.5)
        x = rng.random()
        dates = sorted(cm.date for cm in r.commits.values() if cm.date < 3_000_000_000)
        if rng.random() < 0.35:
            for opt in rng.sample(["--since", "--until"], rng.choice([1, 1, 2])):
                x = said(c, w, q, opt, rng.choice(dates)) if rng.random() < 0.4 else None
                q.opts += [opt, x if x is not None else query.iso(rng.choice(dates) + rng.choice([-1, 0, 0, 1, 86400]))]
        # (names that aren't valid UTF-8: a known finding)
        if rng.random() < 0.45 and all(valid(x.mname + x.memail + x.name + x.email) for x in r.commits.values()):
            q.nauthors = author_pats(rng, r, rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.4:
            for a in author_pats(rng, r, rng.choice([1, 1, 2, 3])):
                if q.nauthors and set(a) & set("+?|(){}"):
                    continue  # (a known finding)
                q.opts += ["--author", a] if rng.random() < 0.8 else ["--author=" + a]
        if any("..." in y for y in q.revs):
            q.paths = []
        q.dashes = rng.choice([None, True])
        if kind == "names" and not q.paths:
            x = rng.random()
            if x < 0.7:
                q.dashes = True
            if x < 0.4 and not any("..." in y for y in q.revs):
                # (one of them looks like the hash of a commit, too)
                q.paths = rng.sample(["main", "b0", "t0", "b1", HEXNAME.decode()], rng.choice([1, 1, 2]))
                if rng.random() < 0.3:
                    q.revs = []
            elif x >= 0.7:
                q.dashes = None
                # Ambiguous. Git would refuse that; git-who takes revisions
                # first, or may refuse, too.
                lg = c.sb.git(p, "log", "-1", "--format=", *(q.revs), check=False)
                if lg.returncode != 0:
                    c.counts["ambiguous"] += 1
                    res = c.who(p, *q.args)
                    if res.rc not in (0, None) and not res.out and not res.panicked:
                        continue
        elif q.paths and rng.random() < 0.3 and all(os.path.lexists(os.path.join(p, y)) for y in q.paths) and kind != "names" and \
                not any(y.startswith("-") for y in q.paths):
            q.dashes = False  # not ambiguous: files that exist and aren't revisions
            if c.sb.git(p, "log", "-1", "--format=", *q.revs, *q.paths, check=False).returncode:
                q.dashes = None
        combos = rng.sample(COMBOS, c.desc["combos"])
        e = judge(c, w, q, combos, "git who " + " ".join(q.args))
        if e is None:
            return
        if rng.random() < 0.4 and not query.listed(c, w, q):
            return
        n = len(e["commits"])
        c.counts["selections"] += 1
        c.counts["commits_selected"] += n
        c.counts["commits_left_out"] += total - n
        if 0 < n < total:
            c.nontrivial(q.revs, q.opts, q.nauthors, q.paths, q.dashes, n)
    c.sample("%s -> %d of %d commits" % (" ".join(q.args), n, total))


def cases():
    if E.TIER == "quick":
        plan, nq, combos, bigs = dict(small=80, odd=25, names=25, noid=15), 5, 4, [1100, 2300]
    else:
        plan, nq, combos, bigs = dict(small=500, odd=150, names=150, noid=60), 14, 8, [1023, 1024, 1025, 2048, 2500, 4000]
    return [dict(seed=E.SEED, kind="known"), dict(seed=E.SEED, kind="known", i=1)] + \
        [dict(seed=E.SEED, kind="big", i=i, n=n, queries=nq, combos=combos) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind=k, i=i, queries=nq, combos=combos) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C09", run, cases(), min_nontrivial=40, rule=
        "one evaluation = one command on a random selection of revisions, ranges, dates, authors and paths, judged by totals over "
        "the commits git log lists; every selection is put to several subcommands and metrics; non-trivial: some but not all "
        "commits are selected; distinct by selection"))
