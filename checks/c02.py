"""C02: CPU count and work splitting never change an answer."""
import sys, zoneinfo
from vh import check, env as E, query, shim, world

CPUS = [1, 2, 3, 8]


def compare(c, w, q, sh, extra=(), oracle=True):
    """Runs q under various numbers of CPUs and schedules. The first run sets
    the answer, the oracle decides about it."""
    e = q.expect(w) if oracle else None
    ref = None
    for k, cpus in enumerate(CPUS + list(extra)):
        kw, what = {}, "%s CPUs" % (cpus,)
        lg = False
        if isinstance(cpus, tuple):
            cpus, rules, seed = cpus
            kw = sh.kw(rules, seed)
            what = "%d CPUs with %s" % (cpus, rules)
            lg = True
        if oracle and ref is None:
            res = q.run(c, w, e, cpus=cpus, nocache=True, **kw)
            if res is None:
                return False
        else:
            res = c.who(q.cwd(w), *q.args, cpus=cpus, nocache=True, tz=q.tz, **kw)
            c.counts["evaluations"] += 1
            if not c.ok(res, what):
                return False
        if lg:
            L = sh.log()
            o = L.end_order("stdin")
            c.counts["batches_run"] += len(o)
            if len(o) > 1:
                c.counts["runs_with_overlapping_batches"] += L.overlapped("stdin")
                c.counts["runs_with_batches_ending_out_of_order"] += o != tuple(sorted(o))
                c.nontrivial("order", o)
        if ref is None:
            ref = res.out
        elif res.out != ref:
            c.bad("answer under %s differs from the one with %s CPU" % (what, CPUS[0]), run=res.brief(),
                  stdout=res.out, reference=ref, args=q.args)
            return False
    if e:
        c.nontrivial(*q.sig(e))
    return True


def run(c):
    rng = c.rng
    sh = shim.Shim(c)
    kind = c.desc["kind"]
    if kind == "big":
        ids = world.authors(rng, rng.choice([3, 6]))
        exact = c.desc.get("exact")
        p, r = world.linear(c, c.desc["n"], merges_every=0 if exact else rng.choice([0, 7]), authors_=ids,
                            chunked_ties=rng.random() < 0.5, span=rng.choice([300, 2000]) * 86400)
        w = query.World(p, r)
        if rng.random() < 0.4 and not exact:
            w.set_ignore(rng.sample(sorted(r.commits), 30))
        if rng.random() < 0.5:
            a, b = rng.sample(ids, 2)
            w.set_mailmap(a[0] + b" <" + a[1] + b"> <" + b[1] + b">\n")
        qs = []
        for sub, mode in [("table", "lines"), ("table", "files"), ("table", "commits"), ("tree", "commits"),
                          ("tree", "lines"), ("tree", "files"), ("hist", "commits"), ("hist", "lines"), ("hist", "files"),
                          ("tree", "last"), ("tree", "first")]:
            q = query.Query(sub=sub, mode=mode, by_email=rng.random() < 0.4, merges=rng.random() < 0.4)
            q.show_all = rng.random() < 0.5
            q.limit = rng.choice([0, 2])
            if rng.random() < 0.3 and not exact:
                q.paths = rng.choice([["d1", "d3"], [":!d2"], ["*f1*"]])
            qs.append(q)
        rng.shuffle(qs)
        for q in qs[:c.desc["queries"]]:
            extra = [(rng.choice([2, 3, 4, 8, 16, 70]), rng.choice(["stdin:*:rdelay:400", "stdin:*:rdelay:150;stdin:h2.0:late:200",
                     "stdin:1:delay:400", "stdin:h2.0:late:250", "stdin:h3.1:slow:9000:40"]), rng.randrange(1000))
                     for _ in range(c.desc["schedules"])]
            if not compare(c, w, q, sh, extra):
                return
        c.sample("%d commits: %s" % (c.desc["n"], " ".join(q.args)))
    else:
        p, r = world.make(c, **world.small(rng, authors=world.authors(rng, rng.randint(1, 6), odd=rng.random() < 0.2)))
        w = query.World(p, r)
        if rng.random() < 0.4:
            w.set_ignore(rng.sample(sorted(r.commits), rng.randint(1, 3)))
        if rng.random() < 0.4:
            a, b = rng.choice(sorted(r.commits.items()))[1], rng.choice(sorted(r.commits.items()))[1]
            if a.email and b.email:
                w.set_mailmap(b"Mapped " + a.name + b" <" + a.email + b"> <" + b.email + b">\n")
        for _ in range(c.desc["queries"]):
            q = query.random_query(rng, w, text=0, ages=False, prefix=0.15, diffs_only=rng.random() < 0.6)
            if not compare(c, w, q, sh):
                return


def cases():
    if E.TIER == "quick":
        bigs = [(1023, 3), (1024, 3), (1025, 4), (2048, 3), (2049, 3), (3073, 3), (3500, 3)]
        nsmall, nq, sched = 70, 4, 2
    else:
        bigs = [(n, 11) for n in (1, 2, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097,
                                  5119, 5120, 5121, 6500, 9000, 12000)] * 3
        nsmall, nq, sched = 500, 8, 5
    # as many commits as said, for what goes wrong at the limits of a batch
    exact = [1, 1023, 1024, 1025, 2048, 2049, 3073] if E.TIER == "quick" else [n for n, _ in bigs]
    return [dict(seed=E.SEED, kind="big", i=i, n=n, queries=k, schedules=sched) for i, (n, k) in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind="big", i=1000 + i, n=n, queries=2, schedules=1, exact=True) for i, n in enumerate(exact)] + \
        [dict(seed=E.SEED, kind="small", i=i, queries=nq) for i in range(nsmall)]


if __name__ == "__main__":
    sys.exit(check.main("C02", run, cases(), rule=
        "one evaluation = one run of a command line under one CPU count and batch schedule, compared byte for byte with "
        "the first, which the reference model judges; distinct by query shape, and by the order in which batches ended",
        pre=shim.pre, min_nontrivial=20))
