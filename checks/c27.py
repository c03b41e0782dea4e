"""C27: a command line means what the usage says, however it is spelled."""
import os, re, shutil, sys, time
from vh import check, env as E, gitgen, outp, query, run as R, world

SORTS = dict(table=["-l", "-f", "-m", "-c"], tree=["-l", "-f", "-m", "-c"], hist=["-l", "-f"])
BOOLS = dict(table=["csv", "e", "merges", "l", "f", "c", "m"], tree=["e", "a", "merges", "l", "f", "c", "m"], hist=["e", "merges", "l", "f"])
VALUES = dict(table=["n", "since", "until", "author", "nauthor"], tree=["d", "since", "until", "author", "nauthor"],
              hist=["since", "until", "author", "nauthor"])
RESULT = re.compile("[┌│└├┃╰╭]|^name,|^email,|\\(\\d", re.M)


def bindir(c):
    d = c.repo("bin")
    if not os.path.isdir(d):
        os.makedirs(d)
        os.symlink(c.who.binary, os.path.join(d, "git-who"))
    return d


def start(c, cwd, args, how, **kw):
    """Runs git-who itself, or as `git who`."""
    if how == "git":
        return R.Who(R.GIT, c.sb)(cwd, "who", *args, path_prefix=bindir(c), **kw)
    return c.who(cwd, *args, **kw)


def groups(q):
    """Options of the query: (name, value or None)."""
    r = []
    a = q.args[1:]
    i = 0
    while i < len(a) and a[i].startswith("-") and a[i] != "--":
        name = a[i].lstrip("-")
        if name in VALUES[q.sub]:
            r.append((name, a[i + 1]))
            i += 2
        else:
            r.append((name, None))
            i += 1
    return r, a[i:]


def spell(rng, name, value):
    d = rng.choice(["-", "--"]) + name
    if value is None:
        return [rng.choice([d, d, d, d + "=true", d + "=1", d + "=T"])]
    if rng.random() < 0.5:
        return [d, value]
    return [d + "=" + value]


def bare(c, q, w):
    """Could the paths stand without the -- in front?"""
    for p in q.paths:
        if not re.fullmatch(r"[A-Za-z0-9_.][A-Za-z0-9_./ ]*", p) or not os.path.lexists(os.path.join(q.cwd(w), p)):
            return False
        if c.sb.git(w.path, "rev-parse", "-q", "--verify", p, check=False).returncode == 0:
            return False
    return True


def variant(c, q, w):
    """Another way of saying the same: (what, arguments, how)."""
    rng = c.rng
    gs, rest = groups(q)
    what = set()
    rest = list(rest)
    # several of --author mean any of them, of --nauthor none of them, so order doesn't matter
    if rng.random() < 0.7:
        rng.shuffle(gs)
        what.add("order")
    have = {n for n, _ in gs}
    opts = []
    for n, v in gs:
        if n in ("n", "d", "since", "until") and rng.random() < 0.25:
            opts += spell(rng, n, rng.choice(["1", "2", "7"]) if n in "nd" else rng.choice(["2001-01-01", "2020-02-02"]))
            what.add("superseded")
        if n == "n" and v == "10" and not what & {"superseded"} and rng.random() < 0.5:
            what.add("default limit")
            continue
        s = spell(rng, n, v)
        if s[0].startswith("--") != (len(n) > 1):
            what.add("dashes")
        if "=" in s[0]:
            what.add("=")
        opts += s
        if v is None and rng.random() < 0.15:
            opts += spell(rng, n, None)
            what.add("repeated")
        if n in ("author", "nauthor") and rng.random() < 0.15:
            opts += spell(rng, n, v)
            what.add("repeated")
    for b in BOOLS[q.sub]:
        if b not in have and rng.random() < 0.1:
            s = rng.choice(["-", "--"]) + b + rng.choice(["=false", "=0", "=F"])
            opts.insert(0, s)
            what.add("=false")
            if rng.random() < 0.3:
                opts.insert(0, "-" + b)  # switched on, then off
                what.add("on and off")
    if q.sub == "tree" and "d" not in have and rng.random() < 0.2:
        opts += ["-d", "0"]
        what.add("no depth")
    if not q.revs and q.sub != "hist" and rng.random() < 0.3:
        rest = ["HEAD"] + rest
        what.add("HEAD")
    if not q.paths and "--" not in rest and rng.random() < 0.3:
        rest.append("--")
        what.add("-- and no paths")
    elif q.paths and rng.random() < 0.6 and bare(c, q, w):
        rest.remove("--")
        what.add("no --")
    sub = [q.sub]
    if q.sub == "table" and rng.random() < 0.5:
        if not (opts + rest)[:1] or (opts + rest)[0] not in ("table", "tree", "hist", "dump", "parse", "-v", "--v", "-version", "--version"):
            sub = []
            what.add("no subcommand")
    top = []
    if rng.random() < 0.25:
        top = rng.choice([["-v"], ["--v"], ["-v", "-v"]])
        what.add("-v")
    how = "git" if rng.random() < 0.3 else "direct"
    if how == "git":
        what.add("git who")
    return what, top + sub + opts + rest, how


def same(c):
    """Equivalent command lines."""
    rng = c.rng
    names = [b"a", b"b", b"src", b"lib", b"main.go", b"x.txt", b"y.txt", b"README", b"z.py", b"tree", b"hist", b"table", b"^--", b"-l", b"HEAD", b"--", b"-v"]
    if rng.random() < 0.4:
        names = names[:6] + [b"t", b"tr", b"tre", b"ta", b"tab", b"hi", b"his", b"du", b"d", b"par", b"Tree", b"HIST", b"trees", b"help", b"version", b"who", b"files"]
    p, r = world.make(c, **world.small(rng, commits=rng.randint(5, 25), names=rng.sample(names, 9), authors=world.authors(rng, rng.randint(2, 6))))
    w = query.World(p, r)
    if rng.random() < 0.2:
        w.set_ignore(rng.sample(sorted(r.commits), 1))
    refs = []
    if rng.random() < 0.3:
        for refs in (["tree"], ["tree", "hist"]):
            c.sb.git(p, "branch", refs[-1], rng.choice(sorted(x for x in r.commits)))
        r.load()
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, revs=0.35, filters=0.6, paths=0.4, text=0.4, prefix=0.1)
        if rng.random() < 0.3 and "--author" in q.opts:
            q.opts += ["--author", rng.choice(["Ada", "Bob", "u1", "alt@", "e"])]
        if rng.random() < 0.15:
            q.dashes = True
        known = [x for x in ("tree", "hist", "table") if os.path.lexists(os.path.join(p, x))]
        if known and not q.prefix and rng.random() < 0.3 and not any("..." in y for y in q.revs):
            q.paths = [rng.choice(known)]
        elif "tree" in refs and rng.random() < 0.3:
            q.revs = [rng.choice(refs)]
        e = q.expect(w)
        kw = dict(tz=q.tz, cpus=rng.choice([1, 2, 4]))
        first = q.run(c, w, e, nocache=rng.random() < 0.5, cpus=kw["cpus"])
        if first is None:
            return
        for j in range(c.desc["variants"]):
            what, args, how = variant(c, q, w)
            lo = time.time()
            res = start(c, q.cwd(w), args, how, nocache=rng.random() < 0.5, **kw)
            c.counts["evaluations"] += 1
            label = "spelled differently (%s)" % ", ".join(sorted(what))
            if not c.ok(res, label):
                return
            if res.out != first.out:
                bad = q.verify(res.out, e, lo, time.time()) if q.ages() else ["differs from %r" % (q.args,)]
                if bad:
                    c.bads(res, ["%s: %s" % (label, b) for b in bad], first=first.out[:1500])
                    return
                c.counts["ages_moved"] += 1
            if "-v" not in what and res.err != first.err:
                c.bad("%s: stderr differs" % label, run=res.brief(), first=first.brief())
                return
            for x in what:
                c.counts["spelling: " + x] += 1
            if q.size(e):
                c.nontrivial(q.sub, q.mode, sorted(what), len(args), bool(q.paths), bool(q.revs))
    # Only whole names of subcommands are subcommands
    for x in rng.sample(sorted(os.listdir(p)), min(6, len(os.listdir(p)))):
        q = query.Query(paths=[x], csv=False, limit=10)
        if x in ("table", "tree", "hist", "parse", "dump") or x == ".git" or not bare(c, q, w):
            continue
        e = q.expect(w)
        res = c.who(p, x)
        c.counts["evaluations"] += 1
        c.counts["spelling: nothing but a path"] += 1
        if not c.ok(res, "git who " + x):
            return
        lo = time.time()
        bad = q.verify(res.out, e, lo - 5, lo)
        if bad:
            c.bads(res, ["git who %s: %s" % (x, b) for b in bad])
            return
        c.nontrivial("bare", x)
    c.sample("%s = %s" % (q.args, args))


def mistakes(c, q, rng, w):
    """Command lines that can't be right: (what, arguments)."""
    gs, rest = groups(q)
    sorts = SORTS[q.sub]
    plain = [x for n, v in gs if "-" + n not in sorts for x in spell(rng, n, v)]
    opts = [x for n, v in gs for x in spell(rng, n, v)]

    def put(*extra):
        """Between the options, in any place."""
        units = [spell(rng, n, v) for n, v in gs] + [list(extra)]
        rng.shuffle(units)
        return [q.sub] + [x for u in units for x in u] + rest

    def tail(*a):
        if rng.random() < 0.12:
            # the ones that aren't in the usage
            return [rng.choice(["dump", "parse"])] + list(a)
        return [q.sub] + opts + list(a)
    k = rng.randint(0, 11)
    if k <= 1:
        fs = rng.sample(sorts, min(len(sorts), rng.choice([2, 2, 2, 3, 4])))
        fs = [f.replace("-", rng.choice(["-", "--"]), 1) + rng.choice(["", "", "=true"]) for f in fs]
        units = [[f] for f in fs] + ([plain] if plain else [])
        rng.shuffle(units)
        return "contradictory " + " ".join(sorted(f.strip("-")[:1] for f in fs)), [q.sub] + [x for u in units for x in u] + rest
    if k == 2:
        return "unknown option", put(rng.choice(["--bogus", "-z", "-lf", "--all", "--author-date", "-x=1", "--no-merges", "--stat", "-p", "--sincere=x"]))
    if k == 3:
        other = dict(table=["-a", "-d", "--depth=1"], tree=["-n", "--csv", "--limit=1"], hist=["-m", "-c", "-a", "--csv", "-n=3", "-d=1"])[q.sub]
        return "option of another subcommand", put(rng.choice(other))
    if k == 4:
        return "value missing", [q.sub] + opts + [rng.choice(["-", "--"]) + rng.choice(VALUES[q.sub])]
    if k == 5 and q.sub == "table":
        return "limit", [q.sub] + opts + rng.choice([["-n", "-1"], ["-n=-3"], ["--n", "x"], ["-n", ""], ["-n", "1.5"], ["-n=99999999999999999999"],
                                                     ["-n", "3x"], ["--n=-10"]]) + rest
    if k == 5 and q.sub == "tree":
        return "depth", put(*rng.choice([["-d", "x"], ["-d", ""], ["-d=1.5"], ["--d", "two"]]))
    if k in (5, 6):
        return "not a boolean", put(rng.choice(["-e=maybe", "--merges=2", "-l=x", "-f="]))
    if k == 7:
        rv = rng.choice(["nosuch", "nosuch..HEAD", "HEAD..nosuch", "HEAD~9999", "^nosuch", "0123456789abcdef0123", "HEAD^{tree}x", "refs/heads/none", "main@{none}x",
                         "HEAD:no/such"])
        return "unknown revision", tail(*rng.choice([[rv], [rv, "--"], ["HEAD", rv], [rv, "HEAD", "--", "a"]]))
    if k == 8:
        m = rng.choice([":(icase)a", ":(top)a", ":/a", ":/", ":(glob)*", ":(literal)a", ":(attr:x)a", ":(exclude,icase)a", ":(icase,exclude)a", ":(bogus)a",
                        ":(exclude,top)a", ":(top,exclude)a"])
        return "unsupported magic", tail(*rng.choice([["--", m], ["HEAD", "--", m], ["--", "a", m], ["--", m, "a"], ["--", ":!a", m]]))
    if k == 9:
        return "path that doesn't exist", tail(*rng.choice([["no/such/path"], ["HEAD", "no/such/path"], ["nosuch.txt", "other.txt"]]))
    if k == 10:
        return "malformed pattern", put(*rng.choice([["--author", "["], ["--author=x["], ["--nauthor", "["], ["--nauthor=("]]))
    return "nowhere", None


def wrong(c):
    """Command lines that must be refused."""
    rng = c.rng
    p, r = world.make(c, **world.small(rng, commits=rng.randint(2, 12)))
    w = query.World(p, r)
    none = c.repo("not a repository")
    os.makedirs(none)
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, revs=0.2, filters=0.3, paths=0.2, text=0.5, prefix=0.1)
        what, args = mistakes(c, q, rng, w)
        cwd = q.cwd(w)
        if args is None:
            cwd, args = none, q.args
        if rng.random() < 0.3 and args[0] == "table" and args[1:2] and args[1] not in ("table", "tree", "hist"):
            args = args[1:]
        if rng.random() < 0.1:
            args = ["-v"] + args
        how = "git" if rng.random() < 0.2 else "direct"
        res = start(c, cwd, args, how, nocache=rng.random() < 0.5, cpus=rng.choice([1, 4]), tz=q.tz,
                    env={"GIT_CEILING_DIRECTORIES": c.dir})
        c.counts["evaluations"] += 1
        c.counts["mistake: " + what.split(" ")[0]] += 1
        if res.hang or res.panicked:
            c.ok(res, what)
            return
        out = res.out.decode("utf-8", "replace")
        if res.rc == 0 or res.rc is None or res.rc < 0:
            c.bad("%s: status %r" % (what, res.rc), run=res.brief(), stdout=res.out[:1500])
            return
        if not res.err.strip():
            c.bad("%s: no message on stderr" % what, run=res.brief(), stdout=res.out[:1500])
            return
        if out and (not out.startswith("Usage: git-who") or RESULT.search(out)):
            c.bad("%s: something is printed all the same" % what, run=res.brief(), stdout=res.out[:1500])
            return
        c.nontrivial("wrong", q.sub, what, args[-3:])
    c.sample("%s: %r: %r" % (what, args, res.err[:100]))


def info(c):
    """Version and help, which need neither a repository nor git."""
    rng = c.rng
    none = c.repo("not a repository")
    os.makedirs(none)
    empty = c.repo("empty")
    os.makedirs(empty)
    names = dict(table=BOOLS["table"] + VALUES["table"], tree=BOOLS["tree"] + VALUES["tree"], hist=BOOLS["hist"] + VALUES["hist"])
    for args in (["-version"], ["--version"], ["-v", "--version"], ["--version", "table"], ["--version", "-v"], ["-h"], ["--help"], ["-v", "-h"],
                 *[[s, h] for s in names for h in ("-h", "--help", "-help", "--h")], *[[s, "-e", h] for s in names for h in ("-h", "--help")],
                 *[["-v", s, "-h"] for s in names]):
        for path in (None, empty):
            res = c.who(none, *args, env={"PATH": path} if path else {})
            c.counts["evaluations"] += 1
            label = "git-who " + " ".join(args)
            if not c.ok(res, label):
                return
            out = res.out.decode("utf-8", "replace")
            if any("version" in a for a in args):
                if len(out.split("\n")) != 2 or len(out.split()) != 2:
                    c.bad("%s: not a version and a commit" % label, run=res.brief(), stdout=out)
                    return
            elif args[0] in names or args[1:2] and args[1] in names:
                s = next(a for a in args if a in names)
                miss = [n for n in names[s] if not re.search(r"(?m)^\s+--?%s\b" % n, out + res.err.decode("utf-8", "replace"))]
                if miss or "Usage: git-who " + s not in out:
                    c.bad("%s doesn't explain %r" % (label, miss), run=res.brief(), stdout=out)
                    return
            else:
                miss = [s for s in names if not re.search(r"(?m)^\s+%s\b" % s, out)]
                if miss or "Usage: git-who " not in out:
                    c.bad("%s doesn't explain %r" % (label, miss), run=res.brief(), stdout=out)
                    return
            c.nontrivial("info", args)
    if os.listdir(none) or os.path.exists(c.sb.cache):
        c.bad("asking for help leaves files behind")


def run(c):
    dict(same=same, wrong=wrong, info=info)[c.desc["kind"]](c)


def cases():
    if E.TIER == "quick":
        n, nq, nv, nw, kw = 90, 6, 6, 40, 25
    else:
        n, nq, nv, nw, kw = 600, 14, 12, 250, 80
    return [dict(seed=E.SEED, kind="info")] + [dict(seed=E.SEED, kind="same", i=i, queries=nq, variants=nv) for i in range(n)] + \
        [dict(seed=E.SEED, kind="wrong", i=i, queries=kw) for i in range(nw)]


if __name__ == "__main__":
    sys.exit(check.main("C27", run, cases(), min_nontrivial=60, rule=
        "one evaluation = one command line: equivalent spellings of a command that the reference model judges must print the same bytes, and "
        "mistaken ones must be refused with a message and no results; non-trivial: the answer isn't empty, or the command was refused; "
        "distinct by subcommand, metric and kinds of respelling, or by mistake and arguments"))
