"""C19: concurrent git-who processes do not disturb each other."""
import os, subprocess, sys, time
from vh import cage, check, env as E, query, run as R, shim, world


def setup(c, n):
    """Repositories that share a cache location."""
    rng = c.rng
    ws = []
    for name in rng.choice([["proj"], ["a/proj", "b/proj"], ["proj", "proj/sub"], ["one", "two", "two/one"]])[:n]:
        if rng.random() < 0.15 and not c.desc.get("fine"):
            p, r = world.linear(c, rng.choice([1100, 2100]), name=name)
        else:
            p, r = world.make(c, name=name, **world.small(rng, commits=rng.randint(4, 30)))
        ws.append(query.World(p, r))
    return ws


def pick(c, ws, like=None):
    """A query, what it ought to say, and what it says when alone."""
    rng = c.rng
    w = rng.choice(ws) if like is None or rng.random() < 0.2 else like
    q = query.random_query(rng, w, diffs_only=rng.random() < 0.9, revs=0.4, filters=0.2, paths=0.2, text=0.2, tz=rng.random() < 0.3)
    return w, q, q.expect(w)


def judge(c, w, q, e, res, lo, hi, what):
    c.counts["evaluations"] += 1
    if not c.ok(res, what):
        return False
    bad = q.verify(res.out, e, lo, hi)
    if bad:
        c.bads(res, ["%s: %s" % (what, b) for b in bad])
        return False
    if not q.ages():
        key = (w.path, tuple(q.args), q.tz)
        alone = c.alone.get(key)
        if alone is None:
            a = c.who(q.cwd(w), *q.args, tz=q.tz, env=dict(XDG_CACHE_HOME=os.path.join(c.dir, "private")))
            alone = c.alone[key] = a.out
        if alone != res.out:
            c.bads(res, ["%s: prints something else than alone" % what], alone=alone)
            return False
        c.counts["answers_compared_with_running_alone"] += 1
    return True


def crowd(c):
    """Many processes at once, met at a barrier."""
    rng, sb = c.rng, c.sb
    ws = setup(c, 3)
    sh = shim.Shim(c)
    c.alone = {}
    main = ws[0]
    for rnd in range(c.desc["rounds"]):
        if rng.random() < 0.35:
            subprocess.run(["rm", "-rf", sb.cache], check=True)
            temp = "cold"
        else:
            temp = "as it is"
        n = rng.choice([2, 3, 4, 6, 8, 12])
        jobs = []
        same = pick(c, ws)
        for i in range(n):
            jobs.append(same if rng.random() < 0.4 else pick(c, ws, like=main))
        kind = rng.choice(["barrier", "barrier-list", "stagger", "none", "slow", "exit"])
        go = os.path.join(c.dir, "go%d" % rnd)
        procs = []
        lo = time.time()
        raced = rng.random() < 0.25
        for i, (w, q, e) in enumerate(jobs):
            rules = dict(barrier="stdin:1:hold:" + go, none="", slow="stdin:*:slow:500:3").get(kind)
            if kind == "barrier-list":
                rules = "list:1:hold:" + go
            if kind == "stagger":
                rules = "any:*:rdelay:25"
            if kind == "exit":
                rules = "stdin:*:late:%d" % rng.choice([0, 5, 20])
            k = sh.kw(rules, i + 100 * rnd)
            env = sb.whoenv(TZ=q.tz, GOMAXPROCS=str(rng.choice([1, 2, 4])), **k["env"])
            env["PATH"] = k["path_prefix"] + ":" + env["PATH"]
            if rng.random() < 0.08:
                env["GIT_WHO_DISABLE_CACHE"] = "1"
            c.who.runs += 1
            procs.append((subprocess.Popen([c.bin["race" if raced else "plain"], *q.args], cwd=q.cwd(w), env=env, stdin=subprocess.DEVNULL,
                                           stdout=subprocess.PIPE, stderr=subprocess.PIPE), w, q, e, sh.cur))
            if kind == "stagger":
                time.sleep(rng.choice([0, 0.002, 0.01]))
        if kind.startswith("barrier"):
            # until each has got there (or ended, having had nothing to ask git)
            cls = "stdin" if kind == "barrier" else "list"
            end = time.time() + 20
            while time.time() < end:
                wait = 0
                for pr, _, _, _, d in procs:
                    if pr.poll() is None:
                        t = open(os.path.join(d, "log")).read() if os.path.exists(os.path.join(d, "log")) else ""
                        wait += "S " not in t or not any(l.split(" ")[2:3] == [cls] for l in t.split("\n") if l.startswith("S "))
                if not wait:
                    break
                time.sleep(0.01)
            c.counts["barriers_met"] += 1
            open(go, "w").close()
        order = []
        for i, (pr, w, q, e, d) in enumerate(procs):
            out, err = bytearray(), bytearray()
            v = R.wait_watched(pr, {pr.stdout: out, pr.stderr: err})
            hi = time.time()
            pr.stdout.close()
            pr.stderr.close()
            res = R.Result(pr.returncode, bytes(out), bytes(err), v, q.args, q.cwd(w))
            if not judge(c, w, q, e, res, lo, hi, "%d processes, %s, cache %s: number %d" % (n, kind, temp, i + 1)):
                for p2, *_ in procs:
                    if p2.poll() is None:
                        R.kill_tree(p2.pid)
                return
        c.counts["processes_run_together"] += n
        # afterwards
        for w in ws:
            _, q, e = pick(c, [w])
            lo = time.time()
            res = c.who(q.cwd(w), *q.args, tz=q.tz)
            if not judge(c, w, q, e, res, lo, time.time(), "after %d processes (%s)" % (n, kind)):
                return
        c.nontrivial("crowd", n, kind, temp, same[1].sig(same[2]))


def fine(c):
    """One process is stopped at the k-th thing it does to the cache while
    others run from beginning to end."""
    rng, sb = c.rng, c.sb
    ws = setup(c, 2)
    cg = cage.Cage(c)
    c.alone = {}
    w = ws[0]
    a = pick(c, [w])
    while not a[1].needs_diffs():
        a = pick(c, [w])
    state = c.desc["state"]

    def prepare():
        subprocess.run(["rm", "-rf", sb.cache], check=True)
        if state == "warm":
            c.who(w.path, "table", "-l")
        elif state == "part":
            c.who(w.path, "table", "-l", "HEAD~2" if rng.random() < 0.5 else "b0")
        elif state == "stale":
            c.who(w.path, "table", "-l")
            for d, _, fs in os.walk(sb.cache):
                for f in fs:
                    os.rename(os.path.join(d, f), os.path.join(d, "0123abcd.gobs.gz"))
    prepare()
    res = cg(a[1].cwd(w), *a[1].args, tz=a[1].tz)
    total = res.extra.total
    c.counts["pause_points_known"] += total
    ks = list(range(1, total + 1))
    if len(ks) > c.desc["points"]:
        ks = sorted(rng.sample(ks, c.desc["points"]))
    for k in ks:
        prepare()
        logp = os.path.join(c.dir, "spawn%d" % k)
        wa, qa, ea = a
        env = sb.whoenv(TZ=qa.tz)
        lo = time.time()
        c.who.runs += 1
        pr = subprocess.Popen([cg.exe, logp, os.path.realpath(sb.cache), str(k), "spawn", "--", c.bin["plain"], *qa.args], cwd=qa.cwd(wa), env=env,
                              stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        end = time.time() + 15
        hit = False
        while time.time() < end and pr.poll() is None:
            if os.path.exists(logp) and ("X %d " % k) in open(logp, errors="replace").read():
                hit = True
                break
            time.sleep(0.002)
        others = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            b = a if rng.random() < 0.4 else pick(c, ws, like=w)
            lo2 = time.time()
            rb = c.who(b[1].cwd(b[0]), *b[1].args, tz=b[1].tz, nocache=rng.random() < 0.05)
            if not judge(c, *b, rb, lo2, time.time(), "while another is paused at its cache operation %d (cache %s)" % (k, state)):
                R.kill_tree(pr.pid)
                pr.wait()
                return
            others.append(b[1].sub)
        open(logp + ".go", "w").close()
        out, err = bytearray(), bytearray()
        v = R.wait_watched(pr, {pr.stdout: out, pr.stderr: err})
        pr.stdout.close()
        pr.stderr.close()
        op = cage.Trace(open(logp, errors="surrogateescape").read()).op(k)
        for f in (logp, logp + ".go"):
            os.unlink(f)
        res = R.Result(pr.returncode, bytes(out), bytes(err), v, qa.args, qa.cwd(wa))
        what = "paused at cache operation %d (%s; cache %s) while %d others ran" % (k, op[1] if op else "?", state, len(others))
        if not judge(c, wa, qa, ea, res, lo, time.time(), what):
            return
        for w2 in ws:
            b = pick(c, [w2])
            lo2 = time.time()
            rb = c.who(b[1].cwd(w2), *b[1].args, tz=b[1].tz)
            if not judge(c, *b, rb, lo2, time.time(), "after one " + what):
                return
        c.counts["interleavings_forced"] += hit
        if hit and op:
            c.nontrivial("fine", state, op[1], op[2], k, tuple(others))


KINDS = dict(crowd=crowd, fine=fine)


def run(c):
    KINDS[c.desc["kind"]](c)
    c.sample("%s: %s" % (c.desc, dict(c.counts)))


def cases():
    s = dict(seed=E.SEED)
    if E.TIER == "quick":
        return [dict(s, kind="crowd", i=i, rounds=6) for i in range(20)] + \
            [dict(s, kind="fine", fine=1, i=i, state=["cold", "warm", "part", "stale"][i % 4], points=14) for i in range(24)]
    return [dict(s, kind="crowd", i=i, rounds=25) for i in range(120)] + \
        [dict(s, kind="fine", fine=1, i=i, state=["cold", "warm", "part", "stale"][i % 4], points=200) for i in range(160)]


if __name__ == "__main__":
    sys.exit(check.main("C19", run, cases(), race=True, pre=cage.pre, min_nontrivial=50, jobs=min(E.JOBS, 6), rule=
        "one evaluation = the answer of one of several processes sharing a cache (met at a barrier, or one paused at a chosen operation on the cache while "
        "others run), or of a run afterwards, against the reference and against running alone; distinct by number, meeting point, state of the cache, "
        "paused operation"))
