"""C12: the same question always gets the same answer."""
import os, re, sys
from vh import check, env as E, gitgen, model, outp, query, shim, world

AGE = re.compile(rb"(just now|>?\d+ (sec\.|min\.|hr\.|hour|days?|weeks?|mon\.|month|yr\.|year) ago)")


def flat(out):
    """Output without ages (and the padding they are given)."""
    return re.sub(rb"[ .]*AGE *", b"AGE", AGE.sub(b"AGE", out))


def symmetric(c, n, k, dates, shared):
    """n commits of k authors who all do exactly the same. Consecutive authors
    share an email address in groups of `shared`."""
    rng = c.rng
    p = c.repo("sym")
    sb = c.sb
    os.makedirs(p)
    sb.git(p, "init", "-q", "-b", "main", ".")
    order = list(range(k))
    rng.shuffle(order)
    ids = [(b"Author %c%d" % (65 + rng.randrange(26), i), b"m%d@x" % (i // shared)) for i in range(k)]
    dirs = [b"d", b"d/e", b"f/g", b""]
    out = bytearray()
    prev = None
    for i in range(n):
        a = ids[order[i % k]] if rng.random() < 0.9 or n > 200 else rng.choice(ids)
        t = 1_500_000_000 + dates * (i // k)
        body = b"%d\n" % i
        d = dirs[(i // k) % len(dirs)]
        f = (d + b"/" if d else b"") + b"f%d" % i
        ident = a[0] + b" <" + a[1] + b"> %d +0000\n" % t
        # (the committer's date keeps git log's own order well-defined)
        out += b"commit refs/heads/main\nmark :%d\nauthor " % (i + 1) + ident
        out += b"committer C <c@x> %d +0000\ndata 1\nx\n" % (1_500_000_000 + i)
        if prev:
            out += b"from :%d\n" % prev
        out += b"M 100644 inline " + f + b"\ndata %d\n" % len(body) + body + b"\n"
        prev = i + 1
    sb.git(p, "fast-import", "--quiet", "--done", "--force", input=bytes(out) + b"done\n")
    sb.git(p, "reset", "-q", "--hard", "main")
    c.counts["repositories"] += 1
    return p, model.Repo(sb, p)


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    sh = shim.Shim(c)
    if kind == "big":
        p, r = symmetric(c, c.desc["n"], rng.choice([3, 7, 16]), rng.choice([0, 86400]), rng.choice([1, 2, 3]))
    elif kind == "sym":
        p, r = symmetric(c, rng.choice([6, 12, 30, 60]), rng.choice([2, 3, 6, 12]), rng.choice([0, 0, 3600, 86400]), rng.choice([1, 2, 3, 12]))
    else:
        ids = world.authors(rng, rng.randint(2, 6))
        ids += [(n, e) for n, _ in ids[:3] for _, e in ids[:3]][:rng.randint(0, 6)]
        o = world.small(rng, authors=ids, ties=rng.choice([0.3, 0.8, 1.0]), maxops=rng.choice([1, 2]), merges=0.3)
        if rng.random() < 0.5:
            # Names that some orders don't tell apart
            o["names"] = rng.choice([[b"a", b"A", b"b", b"B", b"aB", b"Ab"], [b"f1", b"f01", b"f001", b"F1"], [b".x", b"x", b"_x", b"x_", b"X", b"-x"],
                                     ["é".encode(), "e\u0301".encode(), b"e", "É".encode(), b"\xe9"], [b"a", b"a ", b" a", b"a.b", b"a-b", b"ab"]])
            o["depth"] = rng.choice([1, 1, 2])
            o["maxops"] = rng.choice([2, 6])
        p, r = world.make(c, **o)
    w = query.World(p, r)
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, revs=0.1, filters=0.1, paths=0.1, text=0.4, prefix=0.1)
        if q.sub == "table" and rng.random() < 0.6:
            q.limit = rng.choice([1, 2, 3, 5])
        if rng.random() < 0.3:
            q.by_email = True
        e = q.expect(w)
        ref = None
        tied = ties(q, e)
        c.counts["questions_with_ties"] += bool(tied)
        fixed = rng.choice([1, 4, 8]) if rng.random() < 0.4 else None
        nocache = rng.random() < 0.4
        for k in range(c.desc["repeats"]):
            cpus = fixed or rng.choice([1, 2, 3, 4, 8])
            kw = {}
            if kind == "big" and cpus > 1 and q.needs_diffs():
                kw = sh.kw(rng.choice(["stdin:*:rdelay:120", "stdin:h2.0:late:80", "", "stdin:1:delay:100"]), rng.randrange(1000))
            res = c.who(q.cwd(w), *q.args, cpus=cpus, nocache=nocache, tz=q.tz, **kw)
            c.counts["evaluations"] += 1
            if not c.ok(res):
                return
            o = flat(res.out)
            if ref is None:
                ref, raw = o, res
            elif o != ref:
                c.bad("run %d of the same command prints something else" % (k + 1), run=res.brief(), stdout=res.out, reference=raw.out)
                return
        if tied:
            c.nontrivial(q.sub, q.mode, q.by_email, q.limit, tied)
    c.sample("%s: %s: %s" % (kind, " ".join(q.args), tied))


def ties(q, e):
    """Which ties the answer had to break."""
    res = []
    if q.sub == "table":
        ms = [(r.metric(q.mode), r.last) for r in e["rows"].values()]
        if len(set(ms)) < len(ms):
            res.append(("rows", len(ms) - len(set(ms))))
        if q.by_email:
            res += [("names", len({n for n, _ in r.ids})) for r in e["rows"].values() if len({n for n, _ in r.ids}) > 1]
    elif q.sub == "tree":
        t = sum(len(outp.winners(a, q.mode)) > 1 for a in e["nodes"].values())
        if t:
            res.append(("nodes", t))
    else:
        by = {}
        for cm in e["commits"]:
            by.setdefault(cm.date // 86400 // 28, []).append(cm.memail if q.by_email else cm.mname)
        t = sum(1 for v in by.values() if len(set(v)) > 1 and len({v.count(x) for x in v}) < len(set(v)))
        if t:
            res.append(("periods", t))
    return res


def cases():
    if E.TIER == "quick":
        plan, nq, rep, bigs = dict(sym=50, gen=30), 5, 6, [1500, 2500]
    else:
        plan, nq, rep, bigs = dict(sym=250, gen=200), 12, 14, [1023, 1024, 1025, 1500, 2049, 2500, 3500, 5000]
    return [dict(seed=E.SEED, kind="big", i=i, n=n, queries=nq, repeats=rep) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind=k, i=i, queries=nq, repeats=rep) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C12", run, cases(), min_nontrivial=40, pre=shim.pre, rule=
        "one evaluation = one run; every command line is run several times on the unchanged repository and all outputs (ages removed) "
        "compared byte for byte; non-trivial: the answer had ties to break; distinct by command and ties"))
