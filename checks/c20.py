"""C20: merging partial tallies equals tallying everything at once."""
import json, subprocess, sys
from vh import check, env as E, query, run as R


def run(c):
    exe = c.ctx.get("race" if c.desc.get("race") else "exe")
    if exe is None:
        c.counts["harness_missing"] += 1
        return
    env = dict(c.sb.env, TZ=c.desc["tz"], GOMAXPROCS=str(c.rng.choice([1, 2, 4, 8])))
    res = R.execute([exe, str(c.desc["seed"] * 10007 + c.desc["i"]), str(c.desc["n"])], c.dir, env)
    c.counts["harness_runs"] += 1
    if b"WARNING: DATA RACE" in res.err:
        c.bad("tallying parts at the same time is a data race", stderr=res.err[:2500])
        return
    if res.hang or res.panicked or res.rc != 0:
        c.bad("tallying fails", run=res.brief(), stderr=res.err[:2500])
        return
    d = json.loads(res.out)
    c.counts["evaluations"] += d["Trials"]
    for k in ("Combines", "Empty", "Values", "Nonempty"):
        c.counts[{"Combines": "combine_operations", "Empty": "empty_parts", "Values": "totals_compared", "Nonempty": "lists_not_empty"}[k]] += d[k]
    for b in d["Bad"] or []:
        c.bad(b)
    c.sigs.update(d["Sigs"] or {})
    c.sample("%s: %d trials, %d combines, %d totals" % (c.desc["tz"], d["Trials"], d["Combines"], d["Values"]))


def pre(binaries):
    try:
        return dict(exe=E.build_go_harness("tallyfold"), race=E.build_go_harness("tallyfold", race=True))
    except E.HarnessError as e:
        print("note: tally functions can't be reached directly: %s" % str(e)[-300:])
        return dict(missing=1)


def cases():
    s = dict(seed=E.SEED)
    n, m, k = (250, 16, 50) if E.TIER == "quick" else (4000, 120, 600)
    return [dict(s, i=i, n=n, tz=query.TZS[i % len(query.TZS)]) for i in range(m)] + \
        [dict(s, i=1000 + i, n=k, race=1, tz=query.TZS[i % len(query.TZS)]) for i in range(m // 4)]


if __name__ == "__main__":
    sys.exit(check.main("C20", run, cases(), pre=pre, min_nontrivial=0, rule=
        "one evaluation = one list of commits split into parts, each tallied by the real functions, combined in some order and compared field by field with "
        "tallying everything at once and with independently computed totals, per author, path, directory and day; distinct by size, parts, options"))
