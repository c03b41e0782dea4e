"""C24: the tree shows each touched path exactly once and hides only what it
should."""
import os, sys
from vh import check, env as E, gitgen, model, outp, query, world

NAMES = [b"a", b"b", b"B", b"a.b", b"a-b", b"a b", b"ab", b"a!", b"zz", b"Z", b"_", b"~", b"10", b"9", "é".encode(), "ñandú".encode(),
         b"src", b"src.go", b"src-old", b".hidden", b"x", b"x+", b"-d", b"e\xcc\x81", "日本".encode(), b"#", b"LICENSE", b"main.go", b"..a", b"..x", b".git-who-no-diff-commits",
         b".git-who-no-diff-commits.txt", b".git-who", b".gitignore", b"git-who", b"C:", b"a:b", b"~x", b"$HOME"]


def deep(c, p):
    """Chains of directories far deeper than anyone would make by hand."""
    rng = c.rng
    depth = c.desc["depth"]
    sb = c.sb
    os.makedirs(p)
    sb.git(p, "init", "-q", "-b", "main", ".")
    out = bytearray()
    paths = [b"/".join([b"d"] * (depth - 1)) + b"/leaf"]
    for _ in range(rng.randint(1, 6)):
        k = rng.randint(1, depth - 1)
        paths.append(b"/".join([b"d"] * k) + rng.choice([b"/x%d", b"/e/y%d", b"/z/z/z/z%d"]) % k)
    paths = sorted(set(paths))
    for i, q in enumerate(paths):
        a = rng.choice([b"Ann <ann@x>", b"Bob <bob@x>"])
        out += b"commit refs/heads/main\nmark :%d\nauthor " % (i + 1) + a + b" %d +0000\ncommitter " % (world.NOW0 + i) + a + \
            b" %d +0000\ndata 1\nm\n" % (world.NOW0 + i)
        if i:
            out += b"from :%d\n" % i
        out += b"M 100644 inline " + q + b"\ndata 2\nx\n\n"
    if rng.random() < 0.5:
        out += b"commit refs/heads/main\nmark :999\nauthor Cy <c@x> %d +0000\ncommitter Cy <c@x> %d +0000\ndata 1\nm\nfrom :%d\nD " % (
            world.NOW0 + 99, world.NOW0 + 99, len(paths)) + rng.choice(paths) + b"\n\n"
    out += b"done\n"
    sb.git(p, "fast-import", "--quiet", "--done", input=bytes(out))
    sb.git(p, "reset", "-q", "--hard", "main")
    return model.Repo(sb, p)


def upset(c, p, rng):
    """Leaves the index in some other state than a clean checkout."""
    sb = c.sb
    what = rng.choice(["old", "rm-cached", "deleted", "staged", "conflict", "sparse", "noindex", "added", "clean", "clean"])
    files = [os.fsencode(x) for x in map(os.fsdecode, sb.git(p, "ls-files", "-z").split(b"\0")) if x]
    plain = [f for f in files if os.path.isfile(os.path.join(os.fsencode(p), f))]
    some = rng.sample(plain, min(len(plain), rng.randint(1, 4)))
    if what == "old":
        sb.git(p, "checkout", "-q", "--detach", rng.choice(sb.git(p, "rev-list", "--all").decode().split()))
    elif what == "rm-cached" and some:
        sb.git(p, "rm", "-q", "--cached", "--", *[b":(literal)" + f for f in some])
    elif what == "deleted" and some:
        for f in some:
            os.unlink(os.path.join(os.fsencode(p), f))
    elif what == "staged" and some:
        sb.git(p, "rm", "-q", "-f", "--", *[b":(literal)" + f for f in some])
        # ... and something else in the place of one of them
        f = os.path.join(os.fsencode(p), some[0])
        os.makedirs(f, exist_ok=True)
        open(os.path.join(f, b"inside"), "w").close()
        sb.git(p, "add", "--", b":(literal)" + some[0])
    elif what == "conflict" and some:
        h = sb.git(p, "hash-object", "-w", "--stdin", input=b"c\n").strip()
        inp = b"".join(b"0 " + b"0" * len(h) + b"\t" + f + b"\0" + b"".join(
            b"100644 " + h + b" %d\t" % k + f + b"\0" for k in (1, 2, 3)) for f in some)
        sb.git(p, "update-index", "-z", "--index-info", input=inp)
    elif what == "sparse":
        dirs = sorted({f.split(b"/")[0] for f in files if b"/" in f})
        args = rng.choice([["--cone"], ["--cone", "--sparse-index"]])
        r = sb.git(p, "sparse-checkout", "set", *args, "--stdin", check=False,
                   input=b"\n".join(d for d in dirs[:1] if not d.startswith((b"#", b"-", b"!"))) + b"\n")
        if r.returncode:
            what = "clean"
    elif what == "noindex":
        os.unlink(os.path.join(p, ".git", "index"))
    elif what == "added":
        os.makedirs(os.path.join(p, "newdir"), exist_ok=True)
        open(os.path.join(p, "newdir", "n"), "w").close()
        open(os.path.join(p, "untracked"), "w").close()
        sb.git(p, "add", "-N", "newdir/n")
    else:
        what = "clean"
    c.counts["index " + what] += 1
    return what


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    state = ""
    if kind == "deep":
        p = c.repo("repo")
        r = deep(c, p)
        c.counts["repositories"] += 1
    elif kind == "big":
        paths = [b"%s/%s/f%d" % (rng.choice(NAMES), rng.choice(NAMES), i) for i in range(30)] + [b"top%d" % i for i in range(3)]
        p, r = world.linear(c, c.desc["n"], paths=paths)
    else:
        o = world.small(rng, depth=rng.randint(1, 6), names=rng.sample(NAMES, rng.randint(3, 10)), maxops=rng.choice([2, 4, 8]))
        if kind == "morph":
            o.update(commits=rng.randint(15, 50), names=rng.sample(NAMES, 3), depth=3,
                     kinds=dict(add=4, edit=1, delete=4, rename=4, file2dir=4, dir2file=4, submodule=1, symlink=1))
        p, r = world.make(c, **o)
        if kind == "index":
            state = upset(c, p, rng)
    w = query.World(p, r)
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, subs=("tree",), revs=0.3, filters=0.2, paths=0.25, prefix=0.2, merges=0.4)
        if rng.random() < 0.25:
            q.depth = 0
        elif kind == "deep":
            q.depth = rng.choice([1, 2, 5, 99, 100, 101, 119, 120, 121, 500])
        elif rng.random() < 0.5:
            q.depth = rng.choice([1, 2, 3, 4, 5, 6, 7, 100])
        if state == "old":
            q.prefix = ""
        if q.prefix and not os.path.isdir(os.path.join(p, q.prefix)):
            q.prefix = ""
        q.numbers = False
        e = q.expect(w)
        if q.run(c, w, e, cpus=rng.choice([1, 2, 4]), nocache=rng.random() < 0.4) is None:
            return
        t = e["touched"]
        there = {x for x in t if x in e["wtree"]}
        c.counts["paths_touched"] += len(t)
        c.counts["paths_gone"] += len(t - there)
        c.counts["paths_both_file_and_directory"] += sum(any(y.startswith(x + b"/") for y in t) for x in t) if len(t) < 400 else 0
        if len(t) > 1:
            c.nontrivial(q.show_all, q.depth, sorted(t)[:50], sorted(there)[:50])
    c.sample("%s: %s: %d paths" % (c.desc, " ".join(q.args), len(t)))


def cases():
    if E.TIER == "quick":
        plan, nq, bigs, deeps = dict(small=60, morph=60, index=40), 9, [1500], [99, 100, 101, 102, 103, 120, 200, 300]
    else:
        plan, nq, bigs, deeps = dict(small=500, morph=600, index=400), 30, [1023, 2049, 4000], list(range(95, 130)) + [200, 300, 500, 900]
    return [dict(seed=E.SEED, kind="big", i=i, n=n, queries=nq) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind="deep", i=i, depth=n, queries=nq) for i, n in enumerate(deeps)] + \
        [dict(seed=E.SEED, kind=k, i=i, queries=nq) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C24", run, cases(), min_nontrivial=60, rule=
        "one evaluation = one tree, its lines parsed back into paths and compared with the paths touched by the selected commits and "
        "those in the index; non-trivial: more than one path is touched; distinct by -a, -d, paths touched and paths still there"))
