"""C05: a failing git is always reported and never half-counted."""
import os, shutil, subprocess, sys

from vh import check, env as E, query, shim, world

ACTIONS = ["fail:128", "fail:1", "fail:2", "after:128", "after:1", "after:129", "aftersig:15", "aftersig:9", "sig:0:9", "trunc:0:128",
           "trunc:R:128", "trunc:R:1", "sig:R:11", "sig:R:9", "sig:R:13", "trunc:R:0x", "partread:30:128", "noread:128", "fail:141"]

SCENES = [("table", "lines"), ("table", "files"), ("table", "commits"), ("tree", "commits"), ("tree", "lines"),
          ("hist", "commits"), ("hist", "lines"), ("table", "last"), ("tree", "first")]


def scene(c):
    rng = c.rng
    if c.desc.get("n"):
        p, r = world.linear(c, c.desc["n"])
    else:
        p, r = world.make(c, **world.small(rng, commits=rng.randint(5, 20)))
    w = query.World(p, r)
    if rng.random() < 0.5:
        w.set_ignore(rng.sample(sorted(r.commits), 2))
    if rng.random() < 0.5:
        w.set_mailmap(b"Someone Else <u0@example.com>\n")
    sub, mode = c.desc["scene"]
    q = query.Query(sub, mode, by_email=rng.random() < 0.3, merges=rng.random() < 0.3)
    if rng.random() < 0.4:
        q.paths = query.some_paths(rng, r)
    return w, q


def check_failure(c, res, what, sub):
    """The failure was seen: says so, shows nothing."""
    if res.hang:
        c.bad("%s: git-who hangs (%s)" % (what, res.hang), run=res.brief())
    elif res.panicked:
        c.bad("%s: git-who crashed" % what, run=res.brief(), stderr=res.err[:2000])
    elif res.rc == 0:
        c.bad("%s: git-who reports success" % what, run=res.brief(), stdout=res.out[:1000])
    elif res.rc < 0:
        c.bad("%s: git-who died by signal" % what, run=res.brief())
    elif not res.err.strip():
        c.bad("%s: no error message" % what, run=res.brief())
    elif res.out and sub != "other":
        c.bad("%s: shows results in spite of the failure" % what, run=res.brief(), stdout=res.out[:1500])
    else:
        return True
    return False


def run(c):
    rng = c.rng
    w, q = scene(c)
    sh = shim.Shim(c)
    e = q.expect(w)
    cpus = c.desc["cpus"]
    cache = c.sb.cache
    sub = q.sub
    args = q.args
    if c.desc.get("other"):
        args = [c.desc["other"]] + q.revs
        sub = "other"
    # Baseline: how many git processes are there to fail?
    res = c.who(w.path, *args, cpus=cpus, **sh.kw())
    c.counts["evaluations"] += 1
    if not c.ok(res, "baseline"):
        return
    if sub != "other":
        bad = q.verify(res.out, e, world.now() - 60, world.now())
        if bad:
            c.bads(res, bad)
            return
    L = sh.log()
    n = len(L.starts)
    c.counts["git_processes_in_baselines"] += n
    if n == 0:
        raise E.HarnessError("the stand-in for git was not used")
    warm = cache + ".warm"
    if c.desc.get("warm") and os.path.isdir(cache):
        # half of what there is comes from the cache
        part = c.who(w.path, "table", "-l", w.repo.select(["HEAD"])[-1], cpus=2)
        shutil.copytree(cache, warm)
    ks = list(range(1, n + 1))
    if len(ks) > 12:
        ks = ks[:6] + rng.sample(ks[6:], 6)
    for k in ks:
        for action in c.desc["actions"]:
            extra = ""
            if action.endswith("0x"):
                # output cut short by a git that is killed, but only at the very end
                action = "aftersig:6"
            if "R" in action:
                action = action.replace("R", str(rng.choice([1, 20, 41, 60, 100, 130, 200, 333, 500, 900, 2000, 10000])))
            if c.desc.get("sched"):
                extra = rng.choice(["stdin:*:rdelay:120;", "stdin:1:delay:150;", "any:*:rdelay:30;", "stdin:h2.0:late:120;",
                                    "any:h3.0:noise:200000;"])
            subprocess.run(["rm", "-rf", cache], check=True)
            if os.path.isdir(warm):
                shutil.copytree(warm, cache)
            res = c.who(w.path, *args, cpus=cpus, tz=q.tz, **sh.kw("%sany:%d:%s" % (extra, k, action), rng.randrange(99)))
            c.counts["evaluations"] += 1
            L = sh.log()
            victim = next((s for s in L.starts if s["n"] == k), None)
            what = "git process %d (%s) suffers %s" % (k, " ".join(victim["args"])[:80] if victim else "?", action)
            if not L.fired:
                c.counts["fault_not_reached"] += 1
                if not c.ok(res, "fault not reached"):
                    return
            elif victim and victim["cls"] == "config" and action.endswith(":1"):
                # that status means that the variable isn't set
                c.counts["faults_that_are_ordinary"] += 1
                if res.hang or res.panicked:
                    check_failure(c, res, what, sub)
                    return
            else:
                c.counts["faults_injected"] += 1
                c.counts["faults in " + victim["cls"]] += 1
                c.nontrivial(c.desc["scene"], cpus, k, victim["cls"], action.split(":")[0])
                if not check_failure(c, res, what, sub):
                    return
            if sub != "other":
                # and it leaves nothing behind
                if q.run(c, w, e, "after: " + what, cpus=rng.choice([2, 4])) is None:
                    return
    # git can't be started at all
    nogit = os.path.join(c.dir, "nogit")
    os.makedirs(nogit)
    for how in ("missing", "noexec"):
        if how == "noexec":
            with open(os.path.join(nogit, "git"), "w") as f:
                f.write("not a program")
            os.chmod(os.path.join(nogit, "git"), 0o755)
        res = c.who(w.path, *args, cpus=cpus, env=dict(PATH=nogit))
        c.counts["evaluations"] += 1
        if not check_failure(c, res, "git " + how, sub):
            return
    # git refuses of its own accord
    for cwd, a in ((w.path, [q.sub, "no-such-revision", "--"]), (c.dir, [q.sub]), (w.path, [q.sub, "HEAD..nowhere"]),
                   (w.path, [q.sub, "--since", "2020-01-01", "0" * 39 + "1", "--"])):
        if a[1:] == [] and subprocess.run(["git", "rev-parse"], cwd=cwd, env=c.sb.env, stderr=subprocess.DEVNULL).returncode == 0:
            continue
        res = c.who(cwd, *a, cpus=cpus)
        c.counts["evaluations"] += 1
        c.counts["refusals"] += 1
        if not check_failure(c, res, "git who %s" % " ".join(a), sub):
            return
    # a repository with missing objects
    if not c.desc.get("n"):
        broken = c.repo("broken")
        shutil.copytree(w.path, broken, symlinks=True)
        if os.path.exists(os.path.join(broken, ".git-blame-ignore-revs")):
            os.unlink(os.path.join(broken, ".git-blame-ignore-revs"))
        for x in os.listdir(os.path.join(broken, ".git/objects/pack")):
            if x.endswith(".pack"):
                src = os.path.join(broken, ".git/objects/pack", x)
                dst = os.path.join(c.dir, x)
                shutil.move(src, dst)
                for y in os.listdir(os.path.join(broken, ".git/objects/pack")):
                    os.unlink(os.path.join(broken, ".git/objects/pack", y))
                with open(dst, "rb") as f:
                    subprocess.run(["git", "unpack-objects", "-q"], cwd=broken, env=c.sb.env, stdin=f, check=True)
        sel = [x for x in w.repo.select(["HEAD"])]
        victims = []
        for h in sel[1:]:
            victims.append(h)
            t = c.sb.git(w.path, "rev-parse", h + "^{tree}").decode().strip()
            if t != c.sb.git(w.path, "rev-parse", "HEAD^{tree}").decode().strip():
                victims.append(t)
        rng.shuffle(victims)
        for v in victims[:3]:
            f = os.path.join(broken, ".git/objects", v[:2], v[2:])
            if not os.path.exists(f):
                continue
            os.rename(f, f + ".gone")
            real = c.sb.git(broken, "log", "--numstat", "--format=%H", "HEAD", check=False)
            if real.returncode != 0:
                subprocess.run(["rm", "-rf", cache], check=True)
                r2 = c.who(broken, "table", "-l", "--csv", cpus=cpus)
                c.counts["evaluations"] += 1
                c.counts["broken_repositories"] += 1
                if not check_failure(c, r2, "object %s missing" % v, "table"):
                    return
            os.rename(f + ".gone", f)
            w2 = query.World(broken, w.repo)
            r3 = c.who(broken, "table", "-l", "--csv", "-n", "0", cpus=2)
            r4 = c.who(broken, "table", "-l", "--csv", "-n", "0", cpus=2, nocache=True)
            c.counts["evaluations"] += 2
            if c.ok(r3, "repaired") and c.ok(r4, "repaired") and r3.out != r4.out:
                c.bad("after a failure answers differ from the uncached ones", stdout=r3.out, uncached=r4.out)
                return
    c.sample("%s, %d git processes, each suffering %s" % (" ".join(args), n, c.desc["actions"]))


def cases():
    cs = []
    q = E.TIER == "quick"
    i = 0
    for s in SCENES:
        for cpus in (1, 4):
            for part in range(3 if q else len(ACTIONS)):
                acts = [ACTIONS[(i * 4 + j) % len(ACTIONS)] for j in range(4)] if q else [ACTIONS[part]] * 2
                cs.append(dict(seed=E.SEED, i=i, scene=s, cpus=cpus, actions=acts, warm=i % 3 == 0))
                i += 1
    for s in [("table", "lines"), ("tree", "commits"), ("hist", "files")]:
        for k in range(2 if q else 20):
            acts = [ACTIONS[(i * 5 + j) % len(ACTIONS)] for j in range(2 if q else 8)]
            cs.append(dict(seed=E.SEED, i=i, scene=s, cpus=[4, 2][k % 2], actions=acts, n=[2100, 3300][k % 2], sched=True, warm=k % 2 == 1))
            i += 1
    for o in ("dump", "parse"):
        cs.append(dict(seed=E.SEED, i=i, scene=("table", "lines"), cpus=2, actions=["fail:128", "after:128", "trunc:R:128", "sig:R:9"], other=o))
        i += 1
    cs.sort(key=lambda d: -d.get("n", 0))
    return cs


if __name__ == "__main__":
    sys.exit(check.main("C05", run, cases(), level="fault_enumeration", pre=shim.pre, min_nontrivial=60, rule=
        "one evaluation = one command during which one git process failed in one way (or a later run without failures); "
        "distinct by subcommand and mode, CPUs, number and kind of the git process, and kind of failure"))
