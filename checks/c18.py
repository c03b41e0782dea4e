"""C18: git-who only reads the repository and only writes its own cache."""
import hashlib, os, random, shutil, signal, subprocess, sys, time
from vh import cage, check, env as E, query, run as R, shim, world


def snapshot(top, skip=()):
    """Everything there is to know about the files in a directory."""
    r = {}
    todo = [top]
    while todo:
        d = todo.pop()
        for e in os.scandir(d):
            p = e.path
            if p in skip:
                continue
            st = e.stat(follow_symlinks=False)
            if e.is_symlink():
                what = os.readlink(p)
            elif e.is_dir(follow_symlinks=False):
                what = "dir"
                todo.append(p)
            elif e.is_file(follow_symlinks=False):
                what = hashlib.sha1(open(p, "rb").read()).hexdigest()
            else:
                what = "special"
            r[p] = (what, st.st_mode, st.st_uid, st.st_gid, st.st_mtime_ns, st.st_ino, st.st_nlink if what != "dir" else 0,
                    st.st_size if what != "dir" else 0)
    return r


def changes(a, b):
    return sorted({p for p in a.keys() | b.keys() if a.get(p) != b.get(p)})


FNV32 = 16777619


def collide(prefix, kind):
    """Two names of directories under prefix on which 32-bit FNV (1 or 1a) collides."""
    def step(h, data):
        for x in data:
            if kind:
                h = ((h ^ x) * FNV32) & 0xffffffff
            else:
                h = ((h * FNV32) & 0xffffffff) ^ x
        return h
    base = step(2166136261, os.fsencode(prefix) + b"/")
    seen = {}
    abc = b"abcdefghijklmnopqrstuvwxyz0123456789"
    rng = random.Random(prefix)
    while len(seen) < 600000:
        n = bytes(rng.choice(abc) for _ in range(5))
        h = step(base, n)
        if seen.setdefault(h, n) != n:
            return n.decode(), seen[h].decode()
    return "one", "two"


HOOKS = ["post-index-change", "post-checkout", "pre-auto-gc", "reference-transaction", "post-commit", "fsmonitor-watchman", "post-merge", "post-rewrite", "pre-commit"]


class Place:
    """A repository git-who is run in, and who owns what in the caches."""

    def __init__(self, w, name):
        self.w, self.name = w, name


def decorate(c, p):
    """Things that are easily disturbed: untracked and ignored files, hooks,
    an index that needs refreshing, stale lock files, leftovers."""
    rng = c.rng

    def put(f, data=b"x\n", mode=0o644):
        f = os.path.join(p, f)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as fh:
            fh.write(data)
        os.chmod(f, mode)
    put("untracked file", mode=rng.choice([0o600, 0o644, 0o755, 0o444]))
    put(".gitignore", b"ignored\n*.gobs\n*.tmp\n")
    put("ignored/x.gobs.gz")
    put("ignored/y.tmp")
    put(".git/git-who.tmp")
    put(".cache/git-who/gob/x.gobs")
    for h in HOOKS:
        put(".git/hooks/" + h, b"#!/bin/sh\necho ran >> \"$0.ran\"\n", 0o755)
    if rng.random() < 0.5:
        put(".git/index.lock" if rng.random() < 0.2 else ".git/gc.pid.lock")
    for d, ds, fs in os.walk(p):
        if ".git" in ds:
            ds.remove(".git")
        for f in fs:
            f = os.path.join(d, f)
            if rng.random() < 0.4 and not os.path.islink(f):
                os.utime(f, (1_500_000_000, 1_500_000_000 + rng.randrange(1000)))
            if rng.random() < 0.1 and os.path.isfile(f) and not os.path.islink(f):
                with open(f, "ab") as fh:
                    fh.write(b"modified\n")
    if rng.random() < 0.4:
        c.sb.git(p, "config", rng.choice(["core.untrackedCache", "feature.manyFiles", "core.preloadIndex", "gc.auto", "maintenance.auto", "index.threads", "log.showSignature"]),
                 rng.choice(["true", "1"]))
    if rng.random() < 0.3:
        with open(os.path.join(p, ".git-blame-ignore-revs"), "w") as f:
            f.write("0" * 40 + "\n")


def run(c):
    rng, sb = c.rng, c.sb
    top = os.path.join(c.dir, "w")
    os.makedirs(top)
    real = os.path.realpath(top)
    shared = os.path.join(c.dir, "xdg")
    if rng.random() < 0.5:
        os.makedirs(shared)
    home = sb.home
    for f in (".netrc", ".config/git/ignore", ".cache/other-app/data", ".local/share/x"):
        f = os.path.join(home, f)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, "w").close()

    # Repositories whose caches might be mistaken for one another
    layout = ["basename", "nested", "prefix", "collide", "dotted", "collide1a"][c.desc["i"] % 6]
    if layout == "basename":
        names = ["x/proj", "y/proj", "proj"]
    elif layout == "nested":
        names = ["proj", "proj/sub/proj", "proj/.inner"]
    elif layout == "prefix":
        names = ["proj", "proj-old", "pro"]
    elif layout == "dotted":
        names = ["gob", "git-who", "a.b/..x"]
    else:
        a, b = collide(real, layout == "collide1a")
        names = [a + "/proj", b + "/proj", "proj"]
    places = []
    for i, n in enumerate(names):
        p, r = world.make(c, name="w/" + n, **world.small(rng, commits=rng.randint(3, 15)))
        places.append(Place(query.World(p, r), n))
    for pl in places:
        decorate(c, pl.w.path)
    linked = None
    if rng.random() < 0.5:
        linked = os.path.join(top, "linked")
        sb.git(places[0].w.path, "worktree", "add", "-q", "--detach", linked)
    if rng.random() < 0.3:
        os.symlink(places[1].w.path, os.path.join(top, "sym"))
    if layout.startswith("collide") or rng.random() < 0.4:
        for pl in places[:2]:
            with open(os.path.join(pl.w.path, ".mailmap"), "w") as f:
                f.write("Some %s <u%d@example.com>\n" % (pl.name.replace("/", " "), rng.randrange(5)))
    tmp, notdir, taken = (os.path.join(c.dir, x) for x in ("tmp", "notdir", "taken"))
    os.makedirs(tmp)
    os.makedirs(taken)
    for f in (notdir, os.path.join(taken, "git-who")):
        open(f, "w").close()
    cg = cage.Cage(c)
    sh = shim.Shim(c)
    pre = dict(LD_PRELOAD=c.ctx["fakehome"])
    skip = {os.path.join(c.dir, "shim")}
    owner = {}          # file in some cache -> name of the repository
    snap = snapshot(c.dir, skip)

    for step in range(c.desc["steps"]):
        pl = rng.choice(places[:2] if layout.startswith("collide") else places)
        w = pl.w
        name = pl.name
        # where the cache is to be
        x = rng.random()
        nocache = rng.random() < 0.2
        if x < 0.55:
            env, root = dict(XDG_CACHE_HOME=shared), shared
        elif x < 0.7:
            env, root = dict(XDG_CACHE_HOME=None), os.path.join(home, ".cache")
        elif x < 0.76:
            env, root = dict(XDG_CACHE_HOME=""), os.path.join(home, ".cache")
        elif x < 0.82:
            env, root = dict(XDG_CACHE_HOME=rng.choice(["rel/cache", "../x", ".", "cache", ".git"])), os.path.join(home, ".cache")
        elif x < 0.88:
            env, root = dict(XDG_CACHE_HOME=os.path.join(c.dir, "deep/er/cache") + rng.choice(["", "/", "/../cache", "/."])), os.path.join(c.dir, "deep/er/cache")
        elif x < 0.94:
            l = os.path.join(c.dir, "xdglink")
            if not os.path.lexists(l):
                os.makedirs(shared, exist_ok=True)
                os.symlink(shared, l)
                snap = snapshot(c.dir, skip)
            env, root = dict(XDG_CACHE_HOME=l), shared
        elif x < 0.97:
            env, root = dict(XDG_CACHE_HOME=os.path.join(w.path, ".cache")), os.path.join(w.path, ".cache")
        else:
            # no cache can be had there
            env, root = dict(XDG_CACHE_HOME=rng.choice([notdir, notdir + "/x", taken, os.path.join(c.dir, "n" * 300)])), None
            c.counts["runs_where_no_cache_can_be"] += 1
        env = dict(pre, TMPDIR=tmp, **env)
        if nocache:
            env["GIT_WHO_DISABLE_CACHE"] = rng.choice(["1", "1", "true", "yes"])
            root = None
            c.counts["runs_with_caching_disabled"] += 1
        own = os.path.join(root, "git-who") if root else None
        # somebody else's files in the same place
        if own and rng.random() < 0.2:
            for f in rng.sample(["other-app/data", "git-who.txt", "git-whom/x", "git-who/NOTES", "git-who/gob/README", "git-who/json/x-1/y.json", "git-who/gob.old/z"], 3):
                f = os.path.join(root, f)
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, "w").close()
                owner[os.path.realpath(f)] = "somebody else"
        # state that makes it clear or rewrite what it has
        if rng.random() < 0.3:
            x = rng.random()
            if x < 0.6:
                with open(os.path.join(w.path, ".mailmap"), "a") as f:
                    f.write("N%d <u%d@example.com>\n" % (step, rng.randrange(5)))
            else:
                for f in [f for f, o in owner.items() if o == name and os.path.isfile(f)]:
                    with open(f, "wb") as fh:
                        fh.write(rng.choice([b"", b"garbage", b"\x1f\x8b"]))
                    c.counts["caches_damaged"] += 1
        snap = snapshot(c.dir, skip)
        # the run
        q = query.random_query(rng, w, revs=0.3, filters=0.3, paths=0.3, text=0.5, prefix=0.2, diffs_only=rng.random() < 0.6)
        args = q.args
        x = rng.random()
        if x < 0.12:
            args = rng.choice([["table", "nope"], ["tree", "--bogus"], ["hist", "--", "no/such"], ["--help"], ["--version"], ["dump"], ["parse"], ["table", "-l", "--since", "2099-01-01"],
                               ["-v", "table", "-l"], ["--nauthor", "("], ["table", "-l", "--author", "zzzz"],
                               ["table", "-l", "HEAD", "--output=out.txt"], ["table", "-l", "--", "--output=out.txt"], ["tree", "HEAD", "-p", "--ext-diff"],
                               ["hist", "--", "--output-directory=x"], ["table", "-l", "--author", "--output=out.txt"], ["table", "--since", "--output=out.txt"]])
        elif x < 0.2:
            args = ["-v"] + args
        cwd = q.cwd(w)
        if linked and name == places[0].name and not q.prefix and rng.random() < 0.4:
            cwd = linked
        kw, how = {}, rng.random()
        rules = ""
        if how < 0.2:
            rules = rng.choice(["stdin:1:trunc:300:128", "stdin:1:fail:1", "log:*:fail:128", "list:1:trunc:60:0", "config:*:fail:3", "ls-files:1:fail:128", "stdin:1:sig:100:9"])
            kw = sh.kw(rules, rng.randrange(99))
            env = dict(env, **kw.pop("env"))
        res = None
        if rng.random() < 0.12:
            # is interrupted while git is still busy
            kw = sh.kw("stdin:1:slow:200:20;list:1:slow:100:20")
            e = sb.whoenv()
            e.update({k: v for k, v in env.items() if v is not None})
            e.update(kw["env"])
            e["PATH"] = kw["path_prefix"] + ":" + e["PATH"]
            if env.get("XDG_CACHE_HOME", 1) is None:
                del e["XDG_CACHE_HOME"]
            pr = subprocess.Popen([c.bin["plain"], *args], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, start_new_session=True)
            time.sleep(rng.choice([0.01, 0.03, 0.08]))
            try:
                os.killpg(pr.pid, rng.choice([signal.SIGINT, signal.SIGTERM, signal.SIGKILL]))
            except ProcessLookupError:
                pass
            pr.wait()
            time.sleep(0.02)
            c.who.runs += 1
            c.counts["runs_interrupted"] += 1
            what = "interrupted git who %s" % " ".join(args)
        else:
            caged = rng.random() < 0.6 or "XDG_CACHE_HOME" in env and env["XDG_CACHE_HOME"] != shared
            if caged:
                res = cg(cwd, *args, watch=root or shared, cpus=rng.choice([1, 4]), env=env, **kw)
                c.counts["runs_traced"] += 1
            else:
                res = c.who(cwd, *args, cpus=rng.choice([1, 4]), env=env, **kw)
            what = "git who %s" % " ".join(args)
        c.counts["evaluations"] += 1
        after = snapshot(c.dir, skip)
        what += " in %s (%s%s)" % (os.path.relpath(cwd, c.dir), {k: v for k, v in env.items() if k.startswith(("XDG", "GIT_WHO"))}, " " + rules if rules else "")
        # what it tried, moment by moment
        if res is not None and res.extra is not None:
            for pid, call, ret, p1, p2 in res.extra.mut:
                if ret < 0:
                    continue
                for p in (p1, p2):
                    if not p.startswith("/") or p.startswith(("/dev/null", "/dev/tty", "/proc/")):
                        continue
                    c.counts["file_changing_calls_judged"] += 1
                    if p.startswith(kw.get("env", {}).get("VH_DIR", "\0")) or "VH_DIR" in env and p.startswith(env["VH_DIR"]):
                        continue
                    rp = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
                    up = [root] if root else []
                    while up and up[-1] != c.dir and len(up[-1]) > 1:
                        up.append(os.path.dirname(up[-1]))
                    if not own or not (rp == own or rp.startswith(own + "/") or call in ("mkdir", "mkdirat") and rp in up):
                        c.bad("%s: %s on %s" % (what, call, p), run=res.brief())
                        return
        diff = changes(snap, after)
        for p in diff:
            a, b = snap.get(p), after.get(p)
            isdir = (a or b)[0] == "dir" and (b or a)[0] == "dir"
            inside = own is not None and (p == own or p.startswith(own + "/"))
            above = own is not None and own.startswith(p + "/")
            if isdir and (inside or above and b is not None and (a is None or a[:4] == b[:4])):
                # a directory on the way to the cache may come into being
                if above and a is not None and not any(own.startswith(x + "/") or x == own for x in diff if x not in snap and os.path.dirname(x) == p):
                    c.bad("%s: touches directory %s" % (what, os.path.relpath(p, c.dir)))
                    return
                if inside and b is None:
                    for f, o in owner.items():
                        if f.startswith(p + "/") and o != name:
                            c.bad("%s: removes %s" % (what, os.path.relpath(p, c.dir)))
                            return
                continue
            if not inside:
                c.bad("%s: %s %s" % (what, "changes" if a and b else "creates" if b else "removes", os.path.relpath(p, c.dir)), before=a, after=b)
                return
            o = owner.get(p)
            if o is not None and o != name:
                c.bad("%s, which is %s: %s %s, which belongs to %s" % (what, name, "changes" if b else "removes", os.path.relpath(p, c.dir), o), before=a, after=b)
                return
            owner[p] = name
            c.counts["changes_in_own_cache"] += 1
        c.counts["paths_compared"] += len(after)
        if owner:
            c.counts["foreign_cache_files_guarded"] += sum(1 for o in owner.values() if o != name)
        snap = after
        c.nontrivial(layout, q.sub, q.mode, tuple(sorted(k for k in env)), rules, res is None, len(diff), step if diff else 0)
    if not any(o != "somebody else" for o in owner.values()):
        c.counts["histories_without_any_cache_write"] += 1
    c.sample("%s: %d files of caches tracked, %s" % (layout, len(owner), dict(c.counts)))


def cases():
    s = dict(seed=E.SEED)
    if E.TIER == "quick":
        return [dict(s, i=i, steps=14) for i in range(40)]
    return [dict(s, i=i, steps=30) for i in range(500)]


if __name__ == "__main__":
    sys.exit(check.main("C18", run, cases(), pre=cage.pre, min_nontrivial=50, rule=
        "one evaluation = one run of git-who (ordinary, failing, interrupted, with git failing), after which every path in a scratch tree with several "
        "repositories, HOME and the caches is compared with before (content, mode, times, inode), and in traced runs every file-changing system call of "
        "git-who and the git processes is judged; distinct by layout, command, environment and effect"))
