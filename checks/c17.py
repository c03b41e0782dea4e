"""C17: no run crashes, races or hangs."""
import os, shutil, signal, subprocess, sys
from vh import check, env as E, gitgen, model, outp, query, run as R, shim, world


def fine(c, res, what, *sig):
    """Neither crash nor race nor hang nor strange end."""
    c.counts["evaluations"] += 1
    if b"WARNING: DATA RACE" in res.err:
        at = res.err.index(b"WARNING: DATA RACE")
        c.bad("%s: data race" % what, run=res.brief(), stderr=res.err[at:at + 2500])
    elif res.hang:
        c.bad("%s: git-who hangs (%s)" % (what, res.hang), run=res.brief())
    elif res.panicked or b"runtime error" in res.err or b"goroutine 1 [" in res.err:
        c.bad("%s: git-who crashed" % what, run=res.brief(), stderr=res.err[:2500])
    elif res.rc is None or res.rc < 0:
        c.bad("%s: git-who died by signal" % what, run=res.brief())
    elif res.rc != 0 and not res.err.strip() and not res.out.strip():
        c.bad("%s: fails without a message" % what, run=res.brief())
    else:
        c.counts["ended_with_result" if res.rc == 0 else "ended_with_error"] += 1
        c.nontrivial(*sig)
        return True
    return False


def binary(c, p=0.6):
    """Mostly the one built with the race detector."""
    if c.rng.random() < p:
        c.counts["runs_under_race_detector"] += 1
        return R.Who(c.bin["race"], c.sb)
    return c.who


def queries(c):
    """Ordinary and empty selections."""
    rng = c.rng
    p, r = world.make(c, **world.small(rng, authors=world.authors(rng, rng.randint(1, 6), odd=True), future=rng.choice([0, 0.3, 1.0]),
                                       commits=rng.choice([1, 2, 5, 20, 40]), empty=rng.choice([0, 0.5, 1.0])))
    w = query.World(p, r)
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, revs=0.4, filters=0.4, paths=0.4, text=0.6, prefix=0.1)
        if rng.random() < 0.4:
            # nothing is selected
            x = rng.randint(0, 5)
            if x == 0:
                q.opts += ["--author", "nobody at all"]
            elif x == 1:
                q.opts += ["--since", "2090-01-01"]
            elif x == 2:
                q.opts += ["--until", "1969-01-01"]
            elif x == 3:
                q.revs = ["HEAD..HEAD"]
            elif x == 4:
                q.paths = ["no/such/file"]
            else:
                q.paths = [":!."] if rng.random() < 0.5 else ["a", ":!a"]
            c.counts["empty_selections"] += 1
        if rng.random() < 0.1:
            w.set_ignore(sorted(r.commits))
        who = binary(c, 0.5)
        args = q.args
        if rng.random() < 0.1:
            args = [rng.choice(["parse", "dump"])] + q.opts + q.revs + (["--"] + q.paths if q.paths else [])
        if rng.random() < 0.1:
            args = ["-v"] + args
        res = who(q.cwd(w), *args, cpus=rng.choice([1, 2, 4, 8]), nocache=rng.random() < 0.3, tz=q.tz)
        if not fine(c, res, "query", "query", args, q.tz):
            return


def stress(c):
    """Many batches under adverse schedules, cache cold and warm."""
    rng = c.rng
    p, r = world.linear(c, c.desc["n"], merges_every=rng.choice([0, 6]))
    w = query.World(p, r)
    sh = shim.Shim(c)
    who = R.Who(c.bin["race"], c.sb)
    # all commits, with every ratio of batches to CPUs
    for cpus in rng.sample([2, 3, 4, 5, 6, 7, 8, 12, 16, 33], c.desc["sweep"]):
        args, rules = rng.choice([["table", "-l"], ["tree", "-f"], ["hist", "-l"], ["table", "-f", "--csv"]]), rng.choice(["", "stdin:*:rdelay:100", "stdin:*:delay:150"])
        res = R.Who(c.bin["plain"], c.sb)(p, *args, cpus=cpus, nocache=True, **sh.kw(rules, rng.randrange(999)))
        c.counts["batches_run"] += len(sh.log().end_order("stdin"))
        if not fine(c, res, "all commits, %d CPUs, %r" % (cpus, rules), "sweep", cpus, args):
            return
        if res.rc != 0:
            c.bad("all commits, %d CPUs, %r: fails" % (cpus, rules), run=res.brief())
            return
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, revs=0.2, filters=0.1, paths=0.2, text=0.6)
        if rng.random() < 0.7 and not q.needs_diffs():
            q.sub, q.mode = rng.choice([("tree", "commits"), ("tree", "lines"), ("table", "lines"), ("hist", "files")])
        rules = rng.choice(["stdin:*:rdelay:300", "stdin:h2.0:late:200", "any:*:noise:300000", "stdin:*:noise:200000;stdin:h2.1:slow:7000:30", "",
                            "stdin:*:slow:3000:5", "list:*:slow:4000:10", "any:*:rdelay:40", "stdin:h3.0:noise:2000000;stdin:h2.0:rdelay:200"])
        if rng.random() < 0.4:
            subprocess.run(["rm", "-rf", c.sb.cache], check=True)
        args = (["-v"] if rng.random() < 0.15 else []) + q.args
        res = who(q.cwd(w), *args, cpus=rng.choice([2, 2, 3, 4, 8, 16]), nocache=rng.random() < 0.2, tz=q.tz, **sh.kw(rules, rng.randrange(999)))
        c.counts["runs_under_race_detector"] += 1
        L = sh.log()
        o = L.end_order("stdin")
        c.counts["batches_run"] += len(o)
        if len(o) > 1:
            c.counts["runs_with_overlapping_batches"] += L.overlapped("stdin")
        if not fine(c, res, "under %r" % rules, "stress", rules, o, len(q.args)):
            return
        if res.rc != 0:
            c.bad("under %r: fails" % rules, run=res.brief())
            return


def faults(c):
    """git fails in all kinds of ways, at all kinds of points."""
    rng = c.rng
    if c.desc.get("n"):
        p, r = world.linear(c, c.desc["n"])
    else:
        p, r = world.make(c, **world.small(rng))
    w = query.World(p, r)
    sh = shim.Shim(c)
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, revs=0.2, filters=0.1, paths=0.3, text=0.6)
        rules = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            n = rng.choice([0, 1, 40, 41, 64, 100, 1000, 5000, 20000, 65536, 70000, 200000])
            act = rng.choice(["fail:128", "fail:1", "fail:255", "trunc:%d:128" % n, "trunc:%d:0" % n, "sig:%d:9" % n, "sig:%d:13" % n, "after:1", "aftersig:9",
                              "noread:1", "noread:0", "partread:%d:0" % n, "partread:%d:1" % n, "delay:50", "noise:100000", "late:60"])
            rules.append("%s:%s:%s" % (rng.choice(["any", "log", "stdin", "stdin", "list", "config", "rev-parse", "ls-files"]),
                                       rng.choice(["1", "1", "2", "3", "*", "h2.0", "h3.1"]), act))
        rules = ";".join(rules)
        if rng.random() < 0.5:
            subprocess.run(["rm", "-rf", c.sb.cache], check=True)
        who = binary(c, 0.8)
        res = who(q.cwd(w), *q.args, cpus=rng.choice([1, 2, 4, 8]), nocache=rng.random() < 0.2, tz=q.tz, **sh.kw(rules, rng.randrange(999)))
        c.counts["faults_injected"] += sh.log().fired
        if not fine(c, res, "under %r" % rules, "fault", rules, q.sub, q.mode):
            return


# Zones with days that begin late, are missing, or are repeated
GAPS = [("America/Sao_Paulo", [1225594800, 1540695600, 1510455600]), ("Asia/Beirut", [1521928800, 1648332000]), ("America/Havana", [1520744400, 1552194000]),
        ("Africa/Cairo", [1682630000, 1714082000]), ("Asia/Amman", [1522360800, 1459461600]), ("Pacific/Apia", [1325239200, 1325152800]),
        ("America/Asuncion", [1538280000, 1569729600]), ("Asia/Tehran", [1521664200]), ("Atlantic/Azores", [1521939600]), ("Pacific/Kwajalein", [745848000]),
        ("America/Scoresbysund", [1521939600]), ("Asia/Gaza", [1521838800]), ("America/Godthab", [1521939600]), ("Antarctica/Troll", [1521939600]), ("Asia/Manila", [10000000])]


def zones(c):
    """Time zones, hist in all resolutions, dates near odd transitions."""
    rng = c.rng
    tz, ts = rng.choice(GAPS)
    t = rng.choice(ts)
    span = rng.choice([3, 20, 100, 800, 4000]) * 86400
    p, r = world.make(c, **world.small(rng, commits=rng.randint(2, 15), end=t + rng.randint(0, span // 2) + 3600, span=min(span, t), maxops=1,
                                       special_dates=[t - 1, t, t + 1, t + 3599, t + 3600, t - 3600, t + 86400, t - 86400]))
    w = query.World(p, r)
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, subs=("hist", "hist", "table", "tree"), revs=0.8, filters=0.3, paths=0.1)
        if rng.random() < 0.5:
            q.opts += ["--until", query.iso(t + rng.choice([0, 3600, 86400, 40 * 86400, 500 * 86400]))]
        z = tz if rng.random() < 0.6 else rng.choice([x for x, _ in GAPS] + query.TZS + ["", ":UTC", "Nowhere/Land", "EST5EDT", "XYZ-14", "/etc/passwd", "Pacific/Kiritimati"])
        res = binary(c, 0.1)(q.cwd(w), *q.args, cpus=rng.choice([1, 4]), env=dict(TZ=z), idle=25, cpu=60)
        if not fine(c, res, "TZ=%s" % z, "zone", z, q.args):
            return


def soon(c):
    """Commits dated shortly before and after now."""
    rng = c.rng
    p, r = world.make(c, **world.small(rng, commits=rng.randint(2, 15), jitter=0, **world.near(rng)))
    w = query.World(p, r)
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, subs=("hist", "hist", "table", "tree"), revs=0.3, filters=0.3, paths=0.1, text=0.5)
        res = binary(c, 0.1)(q.cwd(w), *q.args, cpus=rng.choice([1, 4]), tz=q.tz, idle=25, cpu=60)
        if not fine(c, res, "dates around now", "soon", q.args):
            return


def places(c):
    """Odd repositories, directories and environments."""
    rng = c.rng
    sb, d = c.sb, c.dir
    base, _ = world.make(c, **world.small(rng, commits=8, names=[b"a", b"b c", b"src", "é".encode(), b"nl\nx"]))
    # a directory name with everything in it
    odd = os.path.join(d, rng.choice(["sp ace", "nl\nx", "tab\tx", "tr ", " lead", "é李", "q\"'$`", "*?[x]", "-dash", ":colon", "%s%d", "a\\b", "x" * 200,
                                      os.fsdecode(b"\xff\xfe"), "{a,b}", "#x", "~"]))
    shutil.copytree(base, odd, symlinks=True)
    places = [("odd name", odd), ("inside .git", os.path.join(base, ".git")), ("objects", os.path.join(base, ".git", "objects"))]
    sub = next((x for x in sorted(os.listdir(odd)) if x != ".git" and os.path.isdir(os.path.join(odd, x))), None)
    if sub:
        places.append(("odd subdirectory", os.path.join(odd, sub)))
    new = os.path.join(odd, "new", "er")
    os.makedirs(new)
    places += [("directory without commits", new)] * 3
    bare = os.path.join(d, "bare.git")
    sb.git(d, "clone", "-q", "--bare", base, bare)
    places.append(("bare", bare))
    wt = os.path.join(d, "linked wt")
    sb.git(base, "worktree", "add", "-q", "--detach", wt)
    places.append(("linked worktree", wt))
    empty = os.path.join(d, "empty")
    os.makedirs(empty)
    sb.git(empty, "init", "-q")
    places.append(("no commits", empty))
    plain = os.path.join(d, "plain")
    os.makedirs(plain)
    places.append(("no repository", plain))
    shallow = os.path.join(d, "shallow")
    sb.git(d, "clone", "-q", "--depth", "2", "file://" + base, shallow)
    places.append(("shallow", shallow))
    sup = os.path.join(d, "sup")
    os.makedirs(sup)
    sb.git(sup, "init", "-q", "-b", "main")
    sb.git(sup, "submodule", "--quiet", "add", base, "sm")
    sb.git(sup, "commit", "-qm", "x")
    places += [("superproject", sup), ("submodule", os.path.join(sup, "sm"))]
    sep = os.path.join(d, "sep")
    sb.git(d, "clone", "-q", "--separate-git-dir", os.path.join(d, "sepgit"), base, sep)
    places.append(("separate git dir", sep))
    lnk = os.path.join(d, "lnk")
    os.symlink(odd, lnk)
    places.append(("symlink", lnk))
    det = os.path.join(d, "detached")
    shutil.copytree(base, det, symlinks=True)
    sb.git(det, "checkout", "-q", "--detach")
    sb.git(det, "branch", "-D", "-q", "main")
    places.append(("detached", det))
    unborn = os.path.join(d, "unborn")
    shutil.copytree(base, unborn, symlinks=True)
    sb.git(unborn, "symbolic-ref", "HEAD", "refs/heads/none")
    places.append(("unborn branch", unborn))
    corrupt = os.path.join(d, "corrupt")
    shutil.copytree(base, corrupt, symlinks=True)
    packs = os.path.join(corrupt, ".git", "objects", "pack")
    for f in os.listdir(packs):
        if f.endswith(".pack"):
            os.chmod(os.path.join(packs, f), 0o644)
            with open(os.path.join(packs, f), "r+b") as fh:
                fh.seek(200)
                fh.write(b"\xff" * 100)
    places.append(("corrupt", corrupt))
    envs = [{}, {}, {}, dict(HOME=None, XDG_CACHE_HOME=None, LD_PRELOAD=c.ctx["fakehome"]), dict(HOME="/nonexistent", XDG_CACHE_HOME=None, LD_PRELOAD=c.ctx["fakehome"]),
            dict(XDG_CACHE_HOME="relative/cache", LD_PRELOAD=c.ctx["fakehome"]), dict(XDG_CACHE_HOME=None, LD_PRELOAD=c.ctx["fakehome"]),
            dict(XDG_CACHE_HOME="/dev/null"), dict(PATH="/nonexistent"), dict(LANG="xx", LC_ALL=None), dict(TERM="dumb", NO_COLOR="1"), dict(COLUMNS="1"),
            dict(GIT_DIR=os.path.join(base, ".git")), dict(GIT_DIR=os.path.join(base, ".git"), GIT_WORK_TREE=base), dict(GIT_WHO_DISABLE_CACHE=""),
            dict(XDG_CACHE_HOME=odd), dict(GIT_TRACE="1"), dict(GOMAXPROCS="0"), dict(GOMAXPROCS="100")]
    for name, pl in places:
        for i in range(c.desc["queries"]):
            ev = rng.choice(envs)
            args = rng.choice([["table"], ["table", "-l"], ["tree"], ["tree", "-a", "-f"], ["hist"], ["hist", "-l"], ["table", "-e", "-f", "--csv"], [],
                               ["-l"], ["table", "-l", "--", "."], ["tree", "src"], ["table", "-f", ":!a"], ["hist", "-f", "HEAD"], ["parse"], ["dump"]])
            c.counts["places_visited"] += 1
            if not fine(c, binary(c, 0.3)(pl, *args, env=ev), "%s, %r" % (name, ev), "place", name, ev, args):
                return
    # output that can't be written
    for args in (["table", "-l"], ["tree", "-a"], ["hist"], ["table", "--csv", "-n", "0"]):
        with open("/dev/full", "wb") as full:
            pr = subprocess.Popen([c.bin["plain"], *args], cwd=base, env=sb.env, stdin=subprocess.DEVNULL, stdout=full, stderr=subprocess.PIPE)
            err = bytearray()
            v = R.wait_watched(pr, {pr.stderr: err})
        res = R.Result(pr.returncode, b"x", bytes(err), v, args, base)
        if not fine(c, res, "output to a full device", "full", args):
            return


def junk(c):
    """Arguments of all kinds."""
    rng = c.rng
    p, r = world.make(c, **world.small(rng, commits=10))
    words = ["table", "tree", "hist", "parse", "dump", "-l", "-f", "-m", "-c", "-e", "-a", "-n", "0", "5", "-1", "-d", "3", "--csv", "--merges", "--", "^--", "", " ",
             "HEAD", "main", "HEAD..", "..HEAD", "^HEAD", "b0", "nope", "--author", "a", "--nauthor", "(", "[", "*", "\\", "--nauthor=(?!x)", "--author=[", "--since", "yesterday",
             "never", "--until=now", "--since=", "-h", "--help", "--version", "-v", "--bogus", "-x", "src", "a", "*.go", ":!a", ":(", ":", ":/a", ".", "..", "/", "../..", "-n=3",
             "-n=x", "-n=99999999999999999999", "-d=-1", "--csv=maybe", "@{u}", "HEAD@{1}", ":/x", "HEAD^{/c}", "HEAD:a", "--all", "-5", "é", os.fsdecode(b"\xff"), "x" * 5000, "\n", "a\nb",
             "0" * 40, "f" * 64, "HEAD~99", "[[:alpha:]]", "[", "a[", "[!", "a\\", "**", "{a", "a/*", "a/{b", ":!*", ":!", ":^", ":!/", "--since=@0", "-", "---", "--=", "-=x"]
    for i in range(c.desc["queries"]):
        n = rng.randint(0, 6)
        args = [rng.choice(words) for _ in range(n)]
        if rng.random() < 0.6:
            args.insert(0, rng.choice(["table", "tree", "hist"]))
        res = binary(c, 0.15)(p, *args, cpus=rng.choice([1, 4]), nocache=rng.random() < 0.5)
        if not fine(c, res, "arguments %r" % (args,), "junk", args):
            return


KINDS = dict(query=queries, stress=stress, fault=faults, zone=zones, soon=soon, place=places, junk=junk)


def run(c):
    KINDS[c.desc["kind"]](c)
    c.sample("%s: %s" % (c.desc, dict(c.counts)))


def cases():
    s = dict(seed=E.SEED)
    if E.TIER == "quick":
        return [dict(s, kind="soon", i=i, queries=6) for i in range(12)] + [dict(s, kind="stress", i=i, n=n, queries=q, sweep=6) for i, (n, q) in enumerate([(1100, 5), (2100, 5), (3300, 5), (4500, 5), (9300, 1)])] + \
            [dict(s, kind="fault", i=i, n=[0, 0, 0, 1300][i % 4], queries=8) for i in range(24)] + \
            [dict(s, kind="place", i=i, queries=2) for i in range(10)] + [dict(s, kind="query", i=i, queries=8) for i in range(36)] + \
            [dict(s, kind="zone", i=i, queries=8) for i in range(30)] + [dict(s, kind="junk", i=i, queries=30) for i in range(12)]
    return [dict(s, kind="soon", i=i, queries=20) for i in range(80)] + [dict(s, kind="stress", i=i, n=n, queries=25, sweep=10) for i, n in enumerate([1024, 1100, 2048, 2100, 3300, 4500, 6000, 10000] * 3)] + \
        [dict(s, kind="fault", i=i, n=[0, 0, 1300, 2600][i % 4], queries=40) for i in range(160)] + \
        [dict(s, kind="place", i=i, queries=6) for i in range(80)] + [dict(s, kind="query", i=i, queries=20) for i in range(300)] + \
        [dict(s, kind="zone", i=i, queries=20) for i in range(300)] + [dict(s, kind="junk", i=i, queries=150) for i in range(60)]


if __name__ == "__main__":
    sys.exit(check.main("C17", run, cases(), race=True, min_nontrivial=100, pre=shim.pre, rule=
        "one evaluation = one run of git-who, most of them built with the race detector, under a watchdog that looks at the state of the "
        "processes; non-trivial: each run that ended; distinct by situation, arguments and order of batches"))
