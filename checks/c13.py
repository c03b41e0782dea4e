"""C13: rows are in rank order and -n keeps exactly the best."""
import os, sys, time
from vh import check, env as E, gitgen, model, outp, query, world


def many(c, n, k):
    """n commits by k authors, with plenty of ties."""
    rng = c.rng
    ids = [(b"Author %d" % i, b"m%d@x" % (i // rng.choice([1, 1, 1, 2]))) for i in range(k)]
    step = rng.choice([0, 60, 86400])
    w = [rng.choice([1, 1, 2, 5, 30]) for _ in ids]
    order = rng.choices(ids, w, k=max(0, n - k)) + ids
    if rng.random() < 0.7:
        rng.shuffle(order)
    p = c.repo("many")
    os.makedirs(p)
    c.sb.git(p, "init", "-q", "-b", "main", ".")
    out, prev = bytearray(), None
    for i, a in enumerate(order):
        t = 1_400_000_000 + step * (i // rng.choice([1, 1, 5])) + rng.choice([0, 0, 0, 86400 * 30])
        ident = a[0] + b" <" + a[1] + b"> %d +0000\n" % t
        out += b"commit refs/heads/main\nmark :%d\nauthor " % (i + 1) + ident
        out += b"committer C <c@x> %d +0000\ndata 1\nx\n" % (1_500_000_000 + i)
        if prev:
            out += b"from :%d\n" % prev
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            body = b"".join(b"%d.%d\n" % (i, j) for j in range(rng.choice([1, 1, 2, 3, 4])))
            out += b"M 100644 inline d%d/f%d\ndata %d\n" % (rng.randrange(3), rng.randrange(40), len(body)) + body + b"\n"
        prev = i + 1
    c.sb.git(p, "fast-import", "--quiet", "--done", "--force", input=bytes(out) + b"done\n")
    c.sb.git(p, "reset", "-q", "--hard", "main")
    c.counts["repositories"] += 1
    return p, model.Repo(c.sb, p)


def all_limits(c, w, q):
    """The full ranking, and every cut of it that matters."""
    rng = c.rng
    e = q.expect(w)
    q.limit, q.csv = 0, True
    cpus = rng.choice([1, 2, 4])
    full = q.run(c, w, e, cpus=cpus)
    if full is None:
        return False
    recs = outp.parse_csv(full.out)
    keys = [(x[1] if q.by_email else x[0]).encode("utf-8", "surrogateescape") for x in recs[1:]]
    n = len(keys)
    ks = [outp.rank_key(e["rows"][k], q.mode) for k in keys]
    lims = {0, 1, 2, n - 1, n, n + 1, 10, rng.randint(1, n + 2), 10 ** 6}
    for lim in sorted(x for x in lims if x >= 0):
        for csv in ((True, False) if rng.random() < 0.6 else (rng.random() < 0.5,)):
            q.limit, q.csv = lim, csv
            lo = time.time()
            args = list(q.args)
            if lim == 10 and rng.random() < 0.5:
                at = args.index("-n")
                del args[at:at + 2]  # the default
            res = c.who(q.cwd(w), *args, cpus=cpus, tz=q.tz, nocache=rng.random() < 0.2)
            c.counts["evaluations"] += 1
            c.counts["limits_tried"] += 1
            if not c.ok(res):
                return False
            keep = keys if lim == 0 else keys[:lim]
            if csv:
                got = outp.parse_csv(res.out)
                if got != recs[:1 + len(keep)]:
                    c.bad("-n %d doesn't print the first %d records of the full ranking" % (lim, len(keep)), run=res.brief(),
                          stdout=res.out, full=full.out)
                    return False
            else:
                bad = outp.check_table(res.out, keep, e["rows"], q.mode, q.by_email, lim, lo, time.time())
                if bad:
                    c.bads(res, ["-n %d: %s" % (lim, b) for b in bad])
                    return False
            if n > 1:
                c.nontrivial(q.mode, q.by_email, q.merges, n, min(lim, n + 1), csv, len(set(ks)), len({k[0] for k in ks}))
    c.counts["rows_ranked"] += n
    c.counts["rows_tied_on_metric"] += n - len({k[0] for k in ks})
    c.counts["rows_tied_altogether"] += n - len(set(ks))
    return True


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    if kind == "many":
        p, r = many(c, c.desc["n"], c.desc["k"])
    else:
        p, r = world.make(c, **world.small(rng, authors=world.authors(rng, rng.randint(1, 7), odd=kind == "odd"),
                                           ties=rng.choice([0.1, 0.6, 0.9]), merges=rng.choice([0, 0.3])))
    w = query.World(p, r)
    for v in ("-1", "-5"):
        res = c.who(p, "table", "-n", v)
        c.counts["evaluations"] += 1
        if res.rc == 0 or res.out or res.panicked or res.hang:
            c.bad("-n %s isn't refused" % v, run=res.brief(), stdout=res.out[:300])
            return
    for mode in world.TABLE_MODES:
        for by_email in ((False, True) if kind != "many" or c.desc["n"] < 1000 else (rng.random() < 0.5,)):
            q = query.random_query(rng, w, subs=("table",), revs=0.2, filters=0.15, paths=0.15)
            q.mode, q.by_email = mode, by_email
            if kind == "many":
                q.revs, q.opts, q.nauthors, q.paths = [], [], [], []
            if not all_limits(c, w, q):
                return
    c.sample("%s: %s" % (c.desc, " ".join(q.args)))


def cases():
    if E.TIER == "quick":
        plan, many = dict(small=24, odd=6), [(40, 11), (60, 12), (200, 30), (300, 10), (1500, 1100)]
    else:
        plan, many = dict(small=250, odd=80), [(40, 9), (40, 10), (40, 11), (60, 12), (200, 30), (300, 100), (1500, 1100), (3000, 1001), (2500, 40)] * 5
    return [dict(seed=E.SEED, kind="many", i=i, n=n, k=k) for i, (n, k) in enumerate(many)] + \
        [dict(seed=E.SEED, kind=k, i=i) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C13", run, cases(), min_nontrivial=40, rule=
        "one evaluation = one table with one -n; the full CSV ranking is judged by the reference model, every cut of it (CSV and text) "
        "by the full ranking; non-trivial: more than one row; distinct by mode, flags, number of rows, limit and ties"))
