"""C04: damaged or unusable cache storage never changes or prevents an answer."""
import errno, gzip, os, shutil, subprocess, sys, zlib

from vh import cage, check, env as E, query, world

# what is done to a file of the cache storage
DAMAGE = ["empty", "cut1", "cut9", "cuthalf", "cut-1", "cut-8", "garbage", "text", "zeros", "flip", "flip", "flip", "append",
          "letters", "letters", "reframe-cut", "reframe-cut1", "reframe-zeros", "reframe-double", "reframe-empty", "double", "dir", "dangling", "loop", "fifo-no",
          "missing", "headonly", "bigframe", "symlink-dev-full"]
DIRDAMAGE = ["cachehome-file", "gitwho-file", "gob-file", "repodir-file", "repodir-dangling", "leftovers", "noperm", "ro",
             "cachehome-devnull", "unreadable-file", "ro-file", "cachehome-missing", "filedirs"]
CRASH = ["kill", "after", "torn", "err:%d" % errno.EIO, "err:%d" % errno.ENOSPC, "err:%d" % errno.EACCES,
         "sticky:%d" % errno.ENOSPC, "sticky:%d" % errno.EROFS, "stickyall:%d" % errno.EACCES, "short"]


def files(top):
    r = []
    for d, ds, fs in os.walk(top):
        r += [os.path.join(d, f) for f in fs]
    return sorted(r)


def damage(rng, p, how):
    """Returns False if it can't be done to this file."""
    data = open(p, "rb").read()
    n = len(data)

    def put(b):
        with open(p, "wb") as f:
            f.write(b)
    inner = None
    if how.startswith("reframe") or how in ("bigframe", "letters"):
        try:
            inner = gzip.decompress(data)
        except (OSError, EOFError):
            inner = None
    if how == "empty":
        put(b"")
    elif how.startswith("cut"):
        k = {"cut1": 1, "cut9": 9, "cuthalf": n // 2, "cut-1": n - 1, "cut-8": n - 8}[how]
        put(data[:max(0, k)])
    elif how == "garbage":
        put(rng.randbytes(rng.choice([1, 7, 100, 5000])))
    elif how == "text":
        put(b"this is not a cache\n")
    elif how == "zeros":
        put(bytes(n))
    elif how == "flip":
        b = bytearray(data or b"x")
        for _ in range(rng.choice([1, 1, 3])):
            i = rng.randrange(n) if n else 0
            b[i] ^= 1 << rng.randrange(8)
        put(bytes(b))
    elif how == "append":
        put(data + rng.randbytes(40))
    elif how == "double":
        put(data + data)
    elif how == "headonly":
        put(data[:10])
    elif how == "letters" and inner:
        # other letters in some strings, still well-formed but for the checksum
        b = bytearray(inner)
        at = [i for i in range(1, len(b) - 1) if all(chr(x).isalnum() and x < 128 for x in b[i - 1:i + 2])]
        text = [i for i in at if not all(chr(x) in "0123456789abcdef" for x in b[max(0, i - 3):i + 4])]
        for i in rng.sample(text or at, min(len(text or at), rng.choice([1, 3, 10]))):
            b[i] = rng.choice(b"abcxyzQR") if chr(b[i]).isalpha() else rng.choice(b"0123456789")
        z = gzip.compress(bytes(b), rng.choice([0, 1, 9]))
        put(z[:-8] + zlib.crc32(inner).to_bytes(4, "little") + z[-4:])
    elif how == "reframe-empty":
        put(gzip.compress(b""))
    elif how == "reframe-cut" and inner:
        put(gzip.compress(inner[:rng.randrange(len(inner))]))
    elif how == "reframe-cut1" and inner:
        put(gzip.compress(inner[:-1]))
    elif how == "reframe-double" and inner:
        put(gzip.compress(inner + inner))
    elif how == "reframe-zeros":
        put(gzip.compress((inner or b"") + bytes(rng.choice([1, 3, 4, 7, 64]))))
    elif how == "bigframe" and inner:
        put(gzip.compress(inner + b"\xff\xff\xff\x7f" + b"abc"))
    elif how == "dir":
        os.unlink(p)
        os.mkdir(p)
        open(os.path.join(p, "x"), "w").close()
    elif how == "dangling":
        os.unlink(p)
        os.symlink("/nonexistent/vh", p)
    elif how == "loop":
        os.unlink(p)
        os.symlink(p, p)
    elif how == "symlink-dev-full":
        os.unlink(p)
        os.symlink("/dev/full", p)
    elif how == "missing":
        os.unlink(p)
    else:
        return False
    return True


def world_of(c):
    rng = c.rng
    p, r = world.make(c, **world.small(rng, commits=rng.randint(6, 25)))
    return query.World(p, r)


def qs(rng, w, k=1):
    r = []
    while len(r) < k:
        q = query.random_query(rng, w, diffs_only=True, revs=0.2, filters=0.2, paths=0.2, ages=True)
        r.append(q)
    return r


def drop(path, uid=None):
    def f():
        os.setgid(65534)
        os.setuid(65534)
    return f


def follow_up(c, w, q, e, what, clean=True, **kw):
    """Later runs give the right answer without any cleanup."""
    for k in (1, 2):
        if q.run(c, w, e, "run %d after %s" % (k, what), cpus=3, **kw) is None:
            return False
        c.counts["follow_up_runs"] += 1
    return True


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    if kind == "crash":
        return run_crash(c)
    w = world_of(c)
    warm, = qs(rng, w)
    cache = c.sb.cache
    if kind == "file":
        for how in c.desc["how"]:
            subprocess.run(["rm", "-rf", cache], check=True)
            q, = qs(rng, w)
            e = q.expect(w)
            # Warm with everything, so that there is something to lose
            full = query.Query("table", "lines")
            if full.run(c, w, None, "warming the cache", cpus=4) is None:
                return
            fs = files(cache)
            if not fs:
                c.counts["cache_empty_after_warming"] += 1
                continue
            for f in fs:
                if damage(rng, f, how):
                    c.counts["damages"] += 1
            c.nontrivial("file", how, rng.random())
            if q.run(c, w, e, "with cache file damaged (%s)" % how, cpus=rng.choice([2, 4])) is None:
                return
            if not follow_up(c, w, q, e, "damage (%s)" % how):
                return
        c.sample("damaged cache files %s" % c.desc["how"])
        return
    how = c.desc["how"]
    q, = qs(rng, w)
    e = q.expect(w)
    kw = {}
    if how in ("noperm", "ro", "unreadable-file", "ro-file"):
        # root isn't stopped by permissions, so be someone else
        os.makedirs(cache, exist_ok=True)
        for d, ds, fs in os.walk(c.dir):
            for x in ds + fs:
                if not os.path.islink(os.path.join(d, x)):
                    os.chown(os.path.join(d, x), 65534, 65534)
        os.chown(c.dir, 65534, 65534)
        os.chmod(os.path.dirname(c.dir), 0o755)
        os.chmod(c.dir, 0o755)
        kw["preexec_fn"] = drop(c.dir)
        # git refuses nothing in the sandbox: safe.directory=*
    if how != "cachehome-missing" and query.Query("table", "files").run(c, w, None, "warming", cpus=4, **kw) is None:
        return
    top = os.path.join(cache, "git-who")
    gob = os.path.join(top, "gob")
    if not how.startswith("cachehome") and not os.path.isdir(gob):
        # nothing is kept, or somewhere else
        c.counts["cache_empty_after_warming"] += 1
        return
    subs = [os.path.join(gob, d) for d in os.listdir(gob)] if os.path.isdir(gob) else []

    def tofile(p):
        subprocess.run(["rm", "-rf", p], check=True)
        with open(p, "w") as f:
            f.write("in the way\n")
    env = {}
    if how == "cachehome-file":
        tofile(cache)
    elif how == "gitwho-file":
        tofile(top)
    elif how == "gob-file":
        tofile(gob)
    elif how == "repodir-file":
        for s in subs:
            tofile(s)
    elif how == "repodir-dangling":
        for s in subs:
            subprocess.run(["rm", "-rf", s], check=True)
            os.symlink("/nonexistent/vh/x", s)
    elif how == "filedirs":
        for f in files(cache):
            os.unlink(f)
            os.makedirs(os.path.join(f, "a", "b"))
    elif how == "leftovers":
        # what a killed process leaves: half-written neighbours of the cache file
        for f in files(cache):
            d, b = os.path.split(f)
            data = open(f, "rb").read()
            names = [b.removesuffix(".gz"), b + ".tmp", b.removesuffix(".gz") + ".123.tmp", b + ".99.tmp", "deadbeef.gobs",
                     "deadbeef.gobs.gz", b.removesuffix(".gz") + "~", "tmp123"]
            for n in names:
                with open(os.path.join(d, n), "wb") as fh:
                    try:
                        inner = gzip.decompress(data)
                    except OSError:
                        inner = data
                    fh.write(rng.choice([data[:len(data) // 2], inner[:len(inner) // 2], inner + inner, b"", b"\0" * 50]))
                if rng.random() < 0.5:
                    os.utime(os.path.join(d, n), (1, 1))
    elif how == "noperm":
        for d in subs:
            os.chmod(d, 0)
    elif how == "ro":
        for d in subs + [gob, top, cache]:
            os.chmod(d, 0o500)
    elif how == "unreadable-file":
        for f in files(cache):
            os.chmod(f, 0)
    elif how == "ro-file":
        for f in files(cache):
            os.chmod(f, 0o400)
    elif how == "cachehome-devnull":
        env["XDG_CACHE_HOME"] = "/dev/null"
    elif how == "cachehome-missing":
        env["XDG_CACHE_HOME"] = os.path.join(c.dir, "not", "there", "yet")
    c.counts["damages"] += 1
    c.nontrivial("dir", how, *q.sig(e))
    if q.run(c, w, e, "with storage damage %s" % how, cpus=3, env=env, **kw) is None:
        return
    if not follow_up(c, w, q, e, how, env=env, **kw):
        return
    if how in ("noperm", "ro"):
        for d in subs + [gob, top, cache]:
            os.chmod(d, 0o700)
        follow_up(c, w, q, e, how + " (restored)", env=env, **kw)


def run_crash(c):
    """Crashes and errors at every operation on the cache storage."""
    rng = c.rng
    w = world_of(c)
    cg = cage.Cage(c)
    q = query.Query(*rng.choice([("table", "lines"), ("tree", "commits"), ("hist", "files")]))
    e = q.expect(w)
    state = c.desc["state"]
    cache = c.sb.cache
    base = os.path.join(c.dir, "base")
    full = query.Query("table", "files")
    if state != "cold":
        part = query.Query("table", "files", paths=[]) if state == "warm" else \
            query.Query("table", "files", revs=["HEAD~1"] if len(w.repo.select(["HEAD"])) > 2 and
                        c.sb.git(w.path, "rev-parse", "-q", "--verify", "HEAD~1", check=False).returncode == 0 else ["HEAD"])
        if part.run(c, w, None, "warming", cpus=3) is None:
            return
    if state == "corrupt":
        for f in files(cache):
            damage(rng, f, "cuthalf")
    os.makedirs(cache, exist_ok=True)
    shutil.copytree(cache, base, symlinks=True)

    def reset():
        subprocess.run(["rm", "-rf", cache], check=True)
        shutil.copytree(base, cache, symlinks=True)
    res = cg(w.path, *q.args, cpus=2)
    if not c.ok(res, "counting cache operations"):
        return
    c.bads(res, q.verify(res.out, e, world.now() - 60, world.now()))
    total = res.extra.total
    c.counts["cache_operations_seen"] += total
    todo = list(range(1, total + 1))
    acts = c.desc["actions"]
    for k in todo:
        for act in acts:
            reset()
            res = cg(w.path, *q.args, cpus=2, k=k, action=act)
            c.counts["evaluations"] += 1
            hit = res.extra.hit is not None
            if not hit:
                c.counts["fault_points_not_reached"] += 1
            else:
                o = res.extra.op(k)
                c.nontrivial(state, act, o[1] if o else None, k)
                c.counts["faults_injected"] += 1
                c.counts["fault " + act.split(":")[0]] += 1
            crash = act in ("kill", "after", "torn") and hit
            what = "%s at cache operation %d (%s)" % (act, k, res.extra.op(k))
            if crash and res.rc == 128 + 9:
                c.counts["crashes"] += 1
            else:
                # Neither errors nor running out of space may keep us from the answer
                if not c.ok(res, what):
                    return
                bad = q.verify(res.out, e, world.now() - 60, world.now())
                if bad:
                    c.bads(res, ["%s: %s" % (what, b) for b in bad])
                    return
            for again in (1, 2) if crash else (1,):
                if q.run(c, w, e, "run %d after %s" % (again, what), cpus=2) is None:
                    return
            # the other half of the world's data may have been what broke
            if full.run(c, w, None, "other query after " + what, cpus=3) is None:
                return
    c.sample("%s cache, %s: %d operations, each hit by %s" % (state, " ".join(q.args), total, acts))


def cases():
    cs = []
    if E.TIER == "quick":
        groups = [DAMAGE[i::5] for i in range(5)]
        for i in range(2):
            cs += [dict(seed=E.SEED, kind="file", i=i, how=g) for g in groups]
        cs += [dict(seed=E.SEED, kind="dir", i=i, how=h) for i in range(2) for h in DIRDAMAGE]
        plan = [("cold", 3), ("partial", 3), ("warm", 10), ("corrupt", 4)]
        rot = 0
        for state, n in plan:
            # every operation, a share of the actions per case; all actions over all cases
            acts = [CRASH[(rot + j) % len(CRASH)] for j in range(len(CRASH))]
            for j in range(0, len(CRASH), 2):
                cs.append(dict(seed=E.SEED, kind="crash", i=len(cs), state=state, actions=acts[j:j + 2]))
            rot += 1
    else:
        for i in range(12):
            cs += [dict(seed=E.SEED, kind="file", i=i, how=[h, h, h]) for h in DAMAGE]
            cs += [dict(seed=E.SEED, kind="dir", i=i, how=h) for h in DIRDAMAGE]
        for i in range(6):
            for state in ("cold", "partial", "warm", "corrupt"):
                cs += [dict(seed=E.SEED, kind="crash", i=len(cs) + k, state=state, actions=[a]) for k, a in enumerate(CRASH)]
    cs.sort(key=lambda d: d["kind"] != "crash")
    return cs


if __name__ == "__main__":
    sys.exit(check.main("C04", run, cases(), level="fault_enumeration", pre=cage.pre, min_nontrivial=40, rule=
        "one evaluation = one run with damaged storage, or with a crash or error injected at one operation on the cache "
        "storage, or one later run, judged by the reference model; distinct by kind of damage, operation and action"))
