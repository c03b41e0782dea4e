"""C29: how many processes and descriptors git-who uses at a time, and what it
leaves behind."""
import os, resource, signal, sys, time

from vh import check, env as E, query, shim, world
from vh.run import _children as children


def most(log):
    """The most git log processes that were there at the same time."""
    ev = []
    for s in log.starts:
        if s["cls"] in ("stdin", "list"):
            ev += [(s["t"], 1), (log.ends.get(s["n"], s["t"]), -1)]
    n = top = 0
    for _, d in sorted(ev):
        n += d
        top = max(top, n)
    return top


def alive(pid, t):
    try:
        with open("/proc/%d/stat" % pid, "rb") as f:
            s = f.read()
        return s[s.rindex(b")") + 2:][:1] not in b"ZX" and b"(git)" in s
    except OSError:
        return False


def leftovers(c):
    return sorted(os.path.join(b, f) for b, _, fs in os.walk(c.sb.cache) for f in fs)


def after(c, log, what):
    """Nothing started by a run that succeeded is still there."""
    time.sleep(0.02)
    left = [s for s in log.starts if s["n"] not in log.ends]
    left = [s for s in left if alive(s["pid"], s["t"])]
    if left:
        c.bad("%s: git-who ended but git processes it started go on" % what, left=left[:3])
    return not left


def one_file(c, what, n=1):
    """The cache of the repositories used consists of one file each."""
    fs = leftovers(c)
    c.counts["cache_directories_inspected"] += 1
    if len(fs) > n:
        c.bad("%s: the cache of %d repositories has %d files" % (what, n, len(fs)), files=fs)
        return False
    return True


def procs(c):
    rng, cpus = c.rng, c.desc["cpus"]
    n = 1024 * (cpus + rng.choice([1, 2])) + rng.randint(-3, 3)
    p, r = world.linear(c, n, files=30)
    w = query.World(p, r)
    sh = shim.Shim(c)
    cut = rng.choice([0, n // 2])
    for sub, mode in (("table", "lines"), ("hist", "files"), ("tree", "commits")):
        q = query.Query(sub=sub, mode=mode)
        if cut:
            # A part of it cached
            c.who(p, "table", "-l", "HEAD~%d" % cut, cpus=2)
        e = q.expect(w)
        rules = rng.choice(["stdin:*:late:250", "stdin:*:rdelay:300;stdin:*:late:100", "stdin:h3.0:late:600;stdin:*:late:100"])
        nocache = rng.random() < 0.5
        res = q.run(c, w, e, "delayed git processes", cpus=cpus, nocache=nocache, **sh.kw(rules, rng.randrange(1000)))
        if res is None:
            return
        log = sh.log()
        top = most(log)
        c.counts["git_processes"] += len(log.starts)
        c.counts["most_at_a_time_of_%d" % cpus] = max(c.counts["most_at_a_time_of_%d" % cpus], top)
        if top > cpus:
            c.bad("%d git log processes at a time with GOMAXPROCS=%d" % (top, cpus), run=res.brief())
            return
        if not after(c, log, sub):
            return
        if top == cpus:
            c.nontrivial("procs", sub, cpus, bool(cut), nocache, len(log.of("stdin")))
    c.sample("%d CPUs, %d commits: at most %d git log processes at a time" % (cpus, n, top))


def fds(c):
    rng, cpus = c.rng, c.desc["cpus"]
    n = c.desc["n"]
    p, r = world.linear(c, n, files=8, nauthors=3)
    w = query.World(p, r)
    limit = 28 + 8 * cpus

    def few():
        resource.setrlimit(resource.RLIMIT_NOFILE, (limit, limit))
    for k in range(c.desc["runs"]):
        q = query.Query(sub=rng.choice(["table", "tree", "hist"]), mode=rng.choice(["lines", "files"]))
        if rng.random() < 0.3:
            q.paths = ["d1", "d2"]
        e = q.expect(w)
        zombies = [0]

        def poll():
            try:
                kids = children(box[0].pid)
                zombies[0] = max(zombies[0], sum(zombie(k) for k in kids))
            except OSError:
                pass
        box = []
        res = q.run(c, w, e, "at most %d open files" % limit, cpus=cpus, nocache=k == 0 or rng.random() < 0.7, preexec_fn=few,
                    on_start=box.append, on_poll=poll)
        if res is None:
            return
        c.counts["most_unreaped_children"] = max(c.counts["most_unreaped_children"], zombies[0])
        if zombies[0] > 2 * cpus + 2:
            c.bad("%d git processes that ended weren't waited for" % zombies[0], run=res.brief())
            return
        c.counts["batches_under_descriptor_limit"] += -(-n // 1024)
        c.nontrivial("fds", q.sub, q.mode, bool(q.paths), cpus, n, k)
    c.sample("%d batches with at most %d open files" % (n // 1024, limit))


def zombie(pid):
    try:
        with open("/proc/%d/stat" % pid, "rb") as f:
            s = f.read()
        return s[s.rindex(b")") + 2:][:1] == b"Z"
    except OSError:
        return False


def disk(c):
    """Many runs, some of them failing or killed, under changing circumstances."""
    rng = c.rng
    p, r = world.make(c, **world.small(rng, commits=rng.randint(6, 25)))
    w = query.World(p, r)
    sh = shim.Shim(c)
    done = False
    for k in range(c.desc["steps"]):
        step = rng.choice(["mailmap", "mailmap", "commit", "fail", "kill", "old", "ignore", "corrupt", "plain", "plain", "wipe"])
        if step == "mailmap":
            w.set_mailmap(rng.choice([None, b"# %d\n" % k, b"X%d <x@x> <u0@example.com>\n" % k]))
        elif step == "commit":
            c.sb.git(p, "commit", "-q", "--allow-empty", "-m", "x", "--author", "New <new@x>", "--date", "@%d +0000" % (world.NOW0 + k))
            r.load()
        elif step == "ignore":
            w.set_ignore(rng.sample(sorted(r.commits), 1))
        elif step in ("corrupt", "old", "wipe"):
            ds = sorted({os.path.dirname(f) for f in leftovers(c)})
            for f in leftovers(c):
                if step == "corrupt":
                    with open(f, "r+b") as fh:
                        fh.truncate(rng.randint(0, os.path.getsize(f)))
                elif step == "wipe":
                    os.unlink(f)
            # What killed processes and earlier settings left there is removed
            # once it is old
            if step == "old":
                for f in leftovers(c):
                    os.utime(f, (time.time() - 3 * 86400,) * 2)
        elif step in ("fail", "kill"):
            rules = rng.choice(["stdin:1:fail:128", "stdin:1:trunc:200:128", "list:1:fail:1", "stdin:1:sig:300:9", "any:*:fail:1",
                                "ls-files:1:fail:1"]) if step == "fail" else "stdin:*:delay:1500"
            if step == "kill":
                t, sig = rng.choice([0.3, 0.5]), rng.choice([signal.SIGKILL, signal.SIGINT, signal.SIGTERM])

                def later(proc):
                    import threading
                    threading.Timer(t, lambda: proc.poll() is None and proc.send_signal(sig)).start()
                res = c.who(p, "table", "-l", "HEAD", cpus=rng.choice([2, 4]), on_start=later, **sh.kw(rules))
            else:
                res = c.who(p, rng.choice(["table", "tree", "hist"]), "-l", cpus=rng.choice([2, 4]), **sh.kw(rules))
            if res.hang or res.panicked:
                c.ok(res, step)
                return
            c.counts["runs_%s" % ("failed" if step == "fail" else "killed")] += res.rc != 0
        if step in ("kill",):
            fs = leftovers(c)
            c.counts["left_by_killed_runs"] += sum(f.endswith(".tmp") for f in fs)
            for f in fs:
                # Pretend time has passed
                os.utime(f, (time.time() - 3 * 86400,) * 2)
        q = query.random_query(rng, w, subs=("table", "tree", "hist"), revs=0, filters=0, paths=0.3, diffs_only=True, ages=False)
        res = q.run(c, w, what="after " + step, cpus=rng.choice([2, 4, 8]))
        if res is None:
            return
        if step == "kill" and len(leftovers(c)) > 1:
            # That run may have had no commits to look up
            c.counts["second_runs_after_kill"] += 1
            if not c.ok(c.who(p, "table", "-l", "HEAD", cpus=2), "after kill"):
                return
        if not one_file(c, "after %s and a successful run" % step):
            return
        c.nontrivial("disk", step, done, q.sub)
        done = step
    t = os.listdir(c.sb.tmp)
    if t:
        c.bad("files left in TMPDIR", files=t[:5])
    c.sample("one cache file after each of %d runs" % c.desc["steps"])


def run(c):
    dict(procs=procs, fds=fds, disk=disk)[c.desc["kind"]](c)


def cases():
    if E.TIER == "quick":
        cs = [dict(kind="procs", cpus=n) for n in (1, 2, 3, 4, 6)] + \
            [dict(kind="fds", cpus=n, n=22 * 1024, runs=3) for n in (2, 4)]
        nd, steps = 24, 9
    else:
        cs = [dict(kind="procs", cpus=n, j=j) for n in (1, 2, 3, 4, 5, 6, 7, 8) for j in range(6)] + \
            [dict(kind="fds", cpus=n, n=k * 1024, runs=6) for n in (1, 2, 3, 4, 8) for k in (30, 80)]
        nd, steps = 300, 25
    return [dict(d, seed=E.SEED, i=i) for i, d in enumerate(cs)] + \
        [dict(seed=E.SEED, kind="disk", i=i, steps=steps) for i in range(nd)]


if __name__ == "__main__":
    sys.exit(check.main("C29", run, cases(), pre=shim.pre, min_nontrivial=60, rule=
        "one evaluation = one command judged by the reference model, during or after which its processes, descriptors or files were "
        "looked at; non-trivial: as many git processes as CPUs were seen together; more batches than descriptors would allow to "
        "leak; a cache that had been changed by the step before. Distinct by those circumstances and the command"))
