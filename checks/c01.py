"""C01: the table attributes every commit, line and file exactly once."""
import sys
from vh import check, env as E, model, outp, world


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    if kind == "big":
        p, r = world.linear(c, c.desc["n"], merges_every=rng.choice([0, 9]))
    elif kind == "crowd":
        n = c.desc["n"]
        names = rng.sample(range(10 * n), n)
        ids = [(b"Dev %d" % k if k % 5 else b"Dev %d" % (k // 5), b"d%d@x" % (k if k % 7 else k // 7)) for k in names]
        p, r = world.linear(c, n * 2, authors_=ids, files=rng.choice([5, 300]), merges_every=rng.choice([0, 11]))
    else:
        p, r = world.make(c, **world.small(rng, authors=world.authors(rng, rng.randint(1, 7), odd=kind == "odd")))
    sel = r.counted(r.select(["HEAD"]))
    for mode in world.TABLE_MODES:
        for by_email in (False, True):
            for merges in ((False, True) if c.desc.get("merges") else (False,)):
                cpus = rng.choice([1, 2, 3, 8])
                rows = model.tally(sel, by_email, merges)
                fl = world.flags(mode, by_email, merges)
                res = c.who(p, "table", "--csv", "-n", "0", *fl, cpus=cpus, nocache=rng.random() < 0.3)
                c.counts["evaluations"] += 1
                if not c.ok(res, "table --csv"):
                    return
                bad = outp.check_csv(res.out, rows, mode, by_email)
                c.bads(res, bad, what_kind="csv")
                if bad:
                    return
                keys = [x[1 if by_email else 0].encode("utf-8", "surrogateescape")
                        for x in outp.parse_csv(res.out)[1:]]
                if kind != "odd":
                    t0 = world.now()
                    res = c.who(p, *rng.choice([["table"], []]), "-n", "0", *fl, cpus=cpus, nocache=rng.random() < 0.3)
                    c.counts["evaluations"] += 1
                    if not c.ok(res, "table"):
                        return
                    c.bads(res, outp.check_table(res.out, keys, rows, mode, by_email, 0, t0, world.now()))
                c.counts["rows_compared"] += len(rows)
                if len(rows) > 1:
                    c.nontrivial(mode, by_email, merges, sorted((k, len(v.commits), v.added, v.removed, len(v.files))
                                                                for k, v in rows.items()))
    c.sample("%s: %d commits, authors %r" % (c.desc, len(sel), {outp.s(k): (len(v.commits), v.added, v.removed, len(v.files))
                                                               for k, v in rows.items()}))


def cases():
    n = 240 if E.TIER == "quick" else 700
    cs = [dict(seed=E.SEED, i=i, kind="odd" if i % 4 == 3 else "small", merges=i % 3 == 0) for i in range(n)]
    bigs = [1023, 1025, 2049] if E.TIER == "quick" else [1023, 1024, 1025, 2047, 2048, 2049, 3100, 5000, 9000]
    return [dict(seed=E.SEED, i=i, kind="big", n=k) for i, k in enumerate(bigs)] + \
        [dict(seed=E.SEED, i=i, kind="crowd", n=k) for i, k in enumerate([70, 300, 1300] if E.TIER == "quick" else [40, 70, 130, 300, 520, 1030, 1300, 2600])] + cs


if __name__ == "__main__":
    sys.exit(check.main("C01", run, cases(), rule=
        "one evaluation = one git-who table run compared field by field with totals from raw objects and diff-tree; "
        "non-trivial: at least two authors; distinct by mode, flags and the authors' totals", min_nontrivial=20))
