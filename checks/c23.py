"""C23: merge commits count only when asked for, and only as commits."""
import os, re, sys, time
from vh import check, env as E, gitgen, model, outp, query, world


def plumb(c, p, rng):
    """A few merges that only plumbing makes."""
    sb = c.sb
    hs = sb.git(p, "rev-list", "--all").decode().split()
    head = sb.git(p, "rev-parse", "HEAD").decode().strip()
    t = world.NOW0 - 1000
    for k in range(3):
        other = rng.choice(hs)
        what = rng.choice(["twice", "ours", "ancestor", "many", "dirty"])
        par = {"twice": [head, head], "ours": [head, other], "ancestor": [head, sb.git(p, "rev-list", "--max-parents=0", "HEAD").decode().split()[0]],
               "many": [head] + rng.sample(hs, min(len(hs), 9)), "dirty": [other, head]}[what]
        tree = sb.git(p, "rev-parse", rng.choice(par) + "^{tree}").decode().strip()
        a = rng.choice([b"Mona Merger <mona@x>", b"Bob <bob@example.com>"])
        raw = b"tree " + tree.encode() + b"\n" + b"".join(b"parent " + x.encode() + b"\n" for x in par) + \
            b"author " + a + b" %d +0000\ncommitter " % (t + 100 * k) + a + b" %d +0000\n\nm\n" % (t + 100 * k)
        head = sb.git(p, "hash-object", "-t", "commit", "-w", "--stdin", input=raw).decode().strip()
    sb.git(p, "update-ref", "refs/heads/main", head)
    sb.git(p, "reset", "-q", "--hard", "main")


def differential(c, w, q, plain, merged):
    """Compares the CSV of table runs without and with --merges."""
    import csv, io
    def rows(out):
        r = list(csv.reader(io.StringIO(out.decode("utf-8", "surrogateescape"), newline="")))
        head = r[0]
        return {(x[1] if q.by_email else x[0]): dict(zip(head, x)) for x in r[1:]}
    a, b = rows(plain.out), rows(merged.out)
    want = {}
    for x in q.selection(w):
        if x.merge:
            k = outp.s(x.memail if q.by_email else x.mname)
            want.setdefault(k, []).append(x)
    bad = []
    for k in set(a) | set(b):
        if k not in b:
            bad.append("%r is missing with --merges" % k)
            continue
        ms = want.get(k, [])
        n0 = int(a[k]["commits"]) if k in a else 0
        if int(b[k]["commits"]) - n0 != len(ms):
            bad.append("%r: %d merges but %d -> %s commits" % (k, len(ms), n0, b[k]["commits"]))
        for f in ("lines added", "lines removed", "files"):
            if f in b[k] and b[k][f] != (a[k][f] if k in a else "0"):
                bad.append("%r: %s changed from %s to %s with --merges" % (k, f, a[k][f] if k in a else "0", b[k][f]))
        if k in a and (b[k]["first commit time"] > a[k]["first commit time"] or b[k]["last commit time"] < a[k]["last commit time"]):
            bad.append("%r: times shrank with --merges" % k)
    return bad


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    if kind == "big":
        p, r = world.linear(c, c.desc["n"], merges_every=rng.choice([2, 3, 7]))
    elif kind == "shallow":
        p0, r0 = world.make(c, name="full", **world.small(rng, commits=rng.randint(10, 40), merges=0.5, octopus=0.5, orphans=0.1))
        p = c.repo("shallow")
        c.sb.git(c.dir, "clone", "-q", "--depth", str(rng.randint(1, 4)), "--no-single-branch", "file://" + p0, p)
        r = model.Repo(c.sb, p)
        r._refs = ["HEAD"]
    else:
        p, r = world.make(c, **world.small(rng, commits=rng.randint(10, 45), merges=rng.choice([0.3, 0.5, 0.8]),
                                           octopus=rng.choice([0.2, 0.7]), evil=rng.choice([0, 0.5, 1]), branches=rng.choice([2, 4, 7]),
                                           orphans=0.08, maxops=3))
        if kind == "plumbing":
            plumb(c, p, rng)
            r = model.Repo(c.sb, p)
    w = query.World(p, r)
    hs = sorted(r.commits)
    merges = [h for h in hs if r.commits[h].merge]
    c.counts["merges"] += len(merges)
    c.counts["octopus_merges"] += sum(len(r.commits[h].parents) > 2 for h in hs)
    if merges and rng.random() < 0.3:
        w.set_ignore(rng.sample(merges, 1) + rng.sample(hs, 1))
    for _ in range(c.desc["queries"]):
        q = query.random_query(rng, w, revs=0.3, filters=0.3, paths=0.4, text=0.3)
        if merges and rng.random() < 0.25 and kind != "shallow":
            m = rng.choice(merges)
            q.revs = [rng.choice([m + "^!", m + "^-", m, m + "^2..main" if rng.random() < 0.5 else m + "^2.." + m])]
            if c.sb.git(p, "rev-parse", "-q", "--verify", m + "^2", check=False).returncode:
                q.revs = [m]
        es, rs = [], []
        for mg in (False, True):
            q.merges = mg
            e = q.expect(w)
            res = q.run(c, w, e, cpus=rng.choice([1, 2, 4, 8]), nocache=rng.random() < 0.3)
            if res is None:
                return
            es.append(e)
            rs.append(res)
        nm = sum(x.merge for x in es[1]["commits"])
        c.counts["selected_merges"] += nm
        if nm:
            c.nontrivial(kind, q.sub, q.mode, q.by_email, bool(q.paths), bool(q.revs), bool(q.opts), nm, len(es[1]["commits"]))
        if q.sub == "table" and q.csv and not q.limit:
            bad = differential(c, w, q, *rs)
            c.counts["compared_with_and_without"] += 1
            if bad:
                c.bads(rs[1], bad, plain=rs[0].out[:1500])
                return
        if not nm and rs[0].out != rs[1].out and not q.ages():
            c.bad("--merges changes the output although no merge is selected", run=rs[1].brief(), stdout=rs[1].out[:1500],
                  plain=rs[0].out[:1500])
            return
    c.sample("%s: %d merges selected" % (q.args, nm))


def cases():
    if E.TIER == "quick":
        plan, nq, bigs = dict(dag=70, plumbing=25, shallow=10), 10, [1100, 2100]
    else:
        plan, nq, bigs = dict(dag=700, plumbing=250, shallow=80), 30, [1023, 1025, 2100, 5000]
    return [dict(seed=E.SEED, kind="big", i=i, n=n, queries=nq // 2) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind=k, i=i, queries=nq) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C23", run, cases(), min_nontrivial=60, rule=
        "one evaluation = one command, run without and with --merges, judged by the reference model, by the difference of the two "
        "and for equality if there is no merge; non-trivial: at least one merge commit is selected; distinct by kind of history, "
        "subcommand, metric, options and number of merges and commits"))
