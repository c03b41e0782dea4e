"""C06: every tree node names the true top contributor at or under it."""
import sys
from vh import check, env as E, query, world


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    if kind == "big":
        n = c.desc["n"]
        paths = [b"a/b/c/f%d" % i for i in range(6)] + [b"a/x/f%d" % i for i in range(6)] + [b"top%d" % i for i in range(4)] + \
            [b"q/w/e/r/t/y"]
        p, r = world.linear(c, n, paths=paths, nauthors=4, merges_every=rng.choice([0, 6]), chunked_ties=rng.random() < 0.5)
    else:
        o = world.small(rng, depth=rng.randint(1, 6), maxops=rng.choice([1, 3, 6]),
                        authors=world.authors(rng, rng.randint(2, 5), odd=kind == "odd"))
        if kind == "deep":
            o.update(commits=rng.randint(30, 70), depth=rng.randint(4, 8), names=[b"a", b"b", b"c"])
        if kind == "few":
            o.update(names=[b"a", b"b"], depth=3, kinds=dict(add=3, edit=4, delete=4, rename=4, file2dir=3, dir2file=3, rewrite=2))
        p, r = world.make(c, **o)
    w = query.World(p, r)
    if rng.random() < 0.2:
        w.set_ignore(rng.sample(sorted(r.commits), 2))
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, subs=("tree",), revs=0.3, filters=0.2, paths=0.25, prefix=0.15)
        if rng.random() < 0.5:
            q.show_all = True
        if rng.random() < 0.5:
            q.depth = 0
        q.structure = False
        e = q.expect(w)
        if q.run(c, w, e, cpus=rng.choice([1, 2, 4, 8]), nocache=rng.random() < 0.4) is None:
            return
        c.counts["nodes_with_contributors"] += len(e["nodes"])
        c.counts["nodes_with_a_contest"] += sum(len(a) > 1 for a in e["nodes"].values())
        if any(len(a) > 1 for a in e["nodes"].values()):
            c.nontrivial(q.mode, q.by_email, q.show_all, q.depth, sorted(
                (p, sorted((k, x.metric(q.mode)) for k, x in a.items())) for p, a in e["nodes"].items())[:40])
    c.sample("%s: %s: %d nodes" % (c.desc, " ".join(q.args), len(e["nodes"])))


def cases():
    if E.TIER == "quick":
        plan, bigs, nq = dict(small=70, deep=16, few=50, odd=16), [1024, 1500, 2500], 7
    else:
        plan, bigs, nq = dict(small=400, deep=150, few=400, odd=100), [1023, 1024, 1025, 2048, 2049, 3000, 5000] * 3, 25
    return [dict(seed=E.SEED, kind="big", i=i, n=n, queries=nq) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind=k, i=i, queries=nq) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C06", run, cases(), min_nontrivial=40, rule=
        "one evaluation = one tree, every printed node's author and number compared with tallies over the raw commits; "
        "non-trivial: some node has several contributors; distinct by mode, flags and per-node contributions"))
