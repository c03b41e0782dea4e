"""C28: what the cache holds isn't read from git again.

Decided by taking away the file contents that only commits already read need:
a command that still asks git for their changes fails or answers wrongly."""
import os, shutil, sys

from vh import check, env as E, query, shim, world
from checks.c03 import History


def unpack(c, p):
    """Makes every object a loose one."""
    pk = os.path.join(p, ".git/objects/pack")
    tmp = os.path.join(c.dir, "packs")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for f in os.listdir(pk):
        os.rename(os.path.join(pk, f), os.path.join(tmp, f))
    for f in os.listdir(tmp):
        if f.endswith(".pack"):
            c.sb.git(p, "unpack-objects", "-q", input=open(os.path.join(tmp, f), "rb").read())
    shutil.rmtree(tmp)


def blobs_of(c, p, hashes):
    """Commit -> the contents its changes are made of."""
    out = {h: set() for h in hashes}
    if not hashes:
        return out
    txt = c.sb.git(p, "diff-tree", "--stdin", "-r", "--root", "-m", "--no-renames", "--no-abbrev",
                   input="".join(h + "\n" for h in hashes).encode())
    cur = None
    for l in txt.split(b"\n"):
        if l.startswith(b":"):
            f = l.split(b"\t")[0].split(b" ")
            mine = out.setdefault(cur, set())
            for mode, o in ((f[0][1:], f[2]), (f[1], f[3])):
                if set(o) != {48} and mode != b"160000":
                    mine.add(o.decode())
        elif l:
            cur = l.split(b" ")[0].decode()
            out.setdefault(cur, set())
    return out


class Contents:
    """File contents that can be taken away and brought back."""

    def __init__(self, c, p):
        self.c, self.p = c, p
        self.away = {}

    def path(self, o):
        return os.path.join(self.p, ".git/objects", o[:2], o[2:])

    def take(self, keep):
        unpack(self.c, self.p)
        # (Git reads these from the working tree)
        self.checkedout = {l.split(" ")[1] for l in self.c.sb.git(self.p, "ls-files", "-s", "-z").decode("latin-1").split("\0") if l}
        n = 0
        for l in self.c.sb.git(self.p, "cat-file", "--batch-all-objects", "--batch-check").decode().splitlines():
            o, kind = l.split(" ")[:2]
            if kind == "blob" and o not in keep and o not in self.away:
                with open(self.path(o), "rb") as f:
                    self.away[o] = f.read()
                os.unlink(self.path(o))
                n += 1
        return n

    def back(self):
        for o, d in self.away.items():
            os.makedirs(os.path.dirname(self.path(o)), exist_ok=True)
            with open(self.path(o), "wb") as f:
                f.write(d)
        self.away = {}


def repeated(c, sh, cached, res_desc):
    """Reports commits git was asked for again.  (There are some it can always
    tell about: merges and commits without changes.)"""
    asked = sh.asked()
    again = sorted(set(asked) & cached)
    c.counts["commits_asked"] += len(asked)
    if again:
        c.bad("%s: git is asked again for what is in the cache: %s" % (res_desc, again[:3]))
    return bool(again)


def listing(d):
    return sorted((os.path.relpath(os.path.join(b, f), d), os.stat(os.path.join(b, f)).st_mtime_ns)
                  for b, _, fs in os.walk(d) for f in fs)


def huge(c, sizes):
    """A few commits that change very many files each."""
    from vh import model
    p = c.repo("repo")
    os.makedirs(p, exist_ok=True)
    c.sb.git(p, "init", "-q", "-b", "main", ".")
    out, ids = bytearray(), world.authors(c.rng, 3)
    for i, n in enumerate(sizes):
        a = ids[i % len(ids)]
        who = a[0] + b" <" + a[1] + b"> %d +0000\n" % (1_500_000_000 + i * 86400)
        out += b"commit refs/heads/main\nmark :%d\nauthor " % (i + 1) + who + b"committer " + who + b"data 2\nm\n"
        if i:
            out += b"from :%d\n" % i
        d = b"".join(b"%d\n" % x for x in range(i + 1))
        for k in range(n):
            out += b"M 644 inline a_directory_of_files/a_file_with_a_long_name_%06d\ndata %d\n" % (k, len(d)) + d + b"\n"
    c.sb.git(p, "fast-import", "--quiet", "--done", input=bytes(out + b"done\n"))
    c.sb.git(p, "read-tree", "main")
    r = model.Repo(c.sb, p)
    c.counts["commits_generated"] += len(r.commits)
    return p, r


def together(c):
    """All workers are done at the same time, with more to be cached than can be
    written in a moment."""
    from vh import model
    rng = c.rng
    p = c.repo("repo")
    os.makedirs(p, exist_ok=True)
    c.sb.git(p, "init", "-q", "-b", "main", ".")
    blobs = [c.sb.git(p, "hash-object", "-w", "--stdin", input=b"%d\n" % i).decode().strip() for i in range(2)]
    out, ids = bytearray(), world.authors(rng, 3)
    for i in range(c.desc["n"]):
        a = rng.choice(ids)
        who = a[0] + b" <" + a[1] + b"> %d +0000\n" % (1_500_000_000 + i * 3600)
        out += b"commit refs/heads/main\nauthor " + who + b"committer " + who + b"data 2\nm\n"
        for k in range(60):
            out += b"M 644 %s some/where/rather/deep/file%d\n" % (blobs[i % 2].encode(), k)
        out += b"\n"
    c.sb.git(p, "fast-import", "--quiet", "--done", input=bytes(out + b"done\n"))
    c.sb.git(p, "read-tree", "main")
    r = model.Repo(c.sb, p)
    c.counts["commits_generated"] += len(r.commits)
    w = query.World(p, r)
    sh = shim.Shim(c)
    k = (c.desc["n"] + 1023) // 1024
    for i in range(c.desc["queries"]):
        shutil.rmtree(c.sb.cache, ignore_errors=True)
        q = query.Query("table", "lines", csv=True, paths=rng.choice([[], ["some"], ["some/where/rather/deep/file7"]]))
        e = q.expect(w)
        if q.run(c, w, e, "workers done at the same time", cpus=8, **sh.kw("stdin:*:meet:%d" % k)) is None:
            return
        c.counts["batches_done_together"] += len(sh.log().of("stdin"))
        files = [os.path.join(p, ".git/objects", b[:2], b[2:]) for b in blobs]
        for f in files:
            os.rename(f, os.path.join(p, os.path.basename(f)))
        try:
            q = query.random_query(rng, w, revs=0.3, filters=0.3, paths=0.3, diffs_only=True, ages=False)
            if q.paths:
                q.paths = ["some/where"]
            e = q.expect(w)
            if q.run(c, w, e, "file contents that only cached commits need are gone", cpus=rng.choice([2, 4, 8]), **sh.kw(asked=True)) is None \
                    or repeated(c, sh, set(r.commits), q.args):
                return
            c.counts["commits_from_cache"] += len(e["commits"])
            c.nontrivial("together", i, q.sub, q.mode, len(e["commits"]))
        finally:
            for f in files:
                os.rename(os.path.join(p, os.path.basename(f)), f)
    c.sample("together: %d batches" % k)


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    if kind == "together":
        return together(c)
    if kind == "huge":
        p, r = huge(c, c.desc["sizes"])
        w = query.World(p, r)
        h = None
    elif kind == "big":
        p, r = world.linear(c, c.desc["n"], files=60)
        w = query.World(p, r)
        h = None
    else:
        h = History(c)
        p, r, w = h.path, h.repo, h.w
    store = Contents(c, p)
    sh = shim.Shim(c)
    cached = set()
    for phase in range(c.desc["phases"]):
        # -- Commands that read changes -----------------------------------
        for _ in range(rng.choice([0, 1, 1, 2]) if phase else rng.choice([1, 1, 2])):
            q = query.random_query(rng, w, revs=0.5, filters=0.4, paths=0.4, diffs_only=True, ages=False)
            if rng.random() < 0.3:
                q.sub, q.opts, q.nauthors, q.paths = "table", [], [], []
                q.mode, q.revs = "lines", query.refnames(r)[:30]
            e = q.expect(w)
            if q.run(c, w, e, cpus=rng.choice([2, 4, 8]), **sh.kw(asked=True)) is None or repeated(c, sh, cached, q.args):
                return
            cached |= {x.hash for x in e["commits"]}
        if h and rng.random() < 0.6:
            # -- News -----------------------------------------------------
            for _ in range(rng.randint(1, 3)):
                k = rng.choice(["main", "main", "branch"])
                if k == "main":
                    h.git("update-ref", "refs/heads/main", h.commit(h.git("rev-parse", "main").decode().strip()))
                else:
                    h.git("update-ref", "refs/heads/n%d" % rng.randint(0, 3), h.commit(rng.choice(sorted(r.commits))))
            h.git("reset", "-q", "--hard", "main")
            h.refresh()
        if h and rng.random() < 0.25:
            w.set_ignore(rng.sample(sorted(r.commits), rng.choice([0, 1, 2])))
        # -- Questions about what is cached and what isn't ----------------
        qs = []
        for _ in range(c.desc["queries"]):
            q = query.random_query(rng, w, revs=0.5, filters=0.3, paths=0.4, ages=False)
            e = q.expect(w)
            qs.append((q, e))
        need = blobs_of(c, p, sorted(r.commits))
        keep = set()
        for x in need:
            if x not in cached:
                keep |= need[x]
        taken = store.take(keep)
        c.counts["contents_taken_away"] += taken
        for q, e in qs:
            mine = [x.hash for x in e["commits"]]
            missing = set().union(*[need[x] for x in mine]) & set(store.away) if mine else set()
            fresh = [x for x in mine if x not in cached]
            if missing and q.needs_diffs() and rng.random() < 0.25:
                # To be sure that git can't tell without them, and that the
                # cache can be switched off
                before = listing(c.sb.cache)
                res = c.who(q.cwd(w), *q.args, cpus=rng.choice([1, 2, 4]), tz=q.tz,
                            env={"GIT_WHO_DISABLE_CACHE": rng.choice(["1", "1", "0", "true", "no", " "])})
                c.counts["without_cache"] += 1
                if res.hang or res.panicked:
                    c.ok(res, "contents missing, cache disabled")
                    return
                if res.rc == 0 and any(plainly(x, need, store, r) for x in mine):
                    c.bad("GIT_WHO_DISABLE_CACHE is set and file contents git needs are missing, but there is an answer",
                          run=res.brief(), stdout=res.out[:1500])
                    return
                c.counts["without_cache_failed"] += res.rc != 0
                if listing(c.sb.cache) != before:
                    c.bad("GIT_WHO_DISABLE_CACHE is set but the cache changed", run=res.brief())
                    return
            if q.run(c, w, e, "file contents that only cached commits need are gone", cpus=rng.choice([2, 2, 3, 4, 8]),
                     **sh.kw(asked=True)) is None or repeated(c, sh, cached, q.args):
                return
            if q.needs_diffs():
                c.counts["unseen_by_contents"] += sum(1 for x in mine if x in cached and not need[x])
                cached |= set(mine)
                if missing:
                    c.counts["commits_from_cache"] += len(mine) - len(fresh)
                    c.counts["commits_read_beside_cached"] += len(fresh)
                    c.nontrivial(kind, q.sub, q.mode, q.by_email, bool(q.paths), bool(q.revs), bool(q.opts or q.nauthors),
                                 len(mine), len(fresh), len(missing))
        c.sample("%s: %d of %d commits cached, %d contents gone" % (kind, len(cached), len(r.commits), len(store.away)))
        store.back()


def plainly(h, need, store, r):
    """Git certainly needs something that is gone to count this commit's lines."""
    x = r.commits[h]
    return not x.merge and len(x.diffs) == 1 and sum(x.diffs[0][1:]) > 0 and bool(need[h] & set(store.away) - store.checkedout)


def cases():
    if E.TIER == "quick":
        plan, nq, bigs, ph = dict(dag=44, odd=10, sha256=4), 8, [1025, 2500], 2
    else:
        plan, nq, bigs, ph = dict(dag=500, odd=150, sha256=40), 16, [1023, 1024, 1025, 2500, 5000], 4
    sizes = [[3, 4000, 200, 2500], [8000, 1, 8000]] if E.TIER == "quick" else [[3, 9000, 200, 6000], [30000, 1, 30000], [1] * 3000 + [20000], [700] * 50]
    tog, nt = ([4200], 4) if E.TIER == "quick" else ([2100, 4200, 8000] * 3, 12)
    return [dict(seed=E.SEED, kind="together", i=i, n=n, queries=nt) for i, n in enumerate(tog)] + \
        [dict(seed=E.SEED, kind="big", i=i, n=n, queries=nq // 2, phases=2) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind="huge", i=i, sizes=n, queries=2, phases=2) for i, n in enumerate(sizes)] + \
        [dict(seed=E.SEED, kind=k, i=i, queries=nq, phases=ph) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C28", run, cases(), min_nontrivial=60, pre=shim.pre, rule=
        "one evaluation = one command judged by the reference model; non-trivial: file contents needed for the changes of commits "
        "it counts, all read by earlier commands, had been deleted from the repository; distinct by kind of history, subcommand, "
        "metric, options, number of commits, of those not yet read, and of missing contents"))
