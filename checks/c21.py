"""C21: the cache store returns exactly what was put in, once."""
import json, os, subprocess, sys
from vh import check, env as E, query, run as R


def run(c):
    exe = c.ctx.get("race" if c.desc.get("race") else "exe")
    if exe is None:
        c.counts["harness_missing"] += 1
        return
    d = os.path.join(c.dir, "stores")
    os.makedirs(d)
    env = dict(c.sb.env, TZ=c.desc["tz"])
    res = R.execute([exe, d, str(c.desc["seed"] * 10007 + c.desc["i"]), str(c.desc["n"])], c.dir, env)
    c.counts["harness_runs"] += 1
    if res.hang or res.panicked or res.rc != 0:
        c.bad("the store fails", run=res.brief(), stderr=res.err[:2500])
        return
    d = json.loads(res.out)
    c.counts["evaluations"] += d["Gets"]
    for k, n in dict(Trials="histories_of_operations", Returned="commits_returned_and_compared", Stored="commits_stored", Reopened="reopened", Damaged="damaged",
                     Detected="damage_reported", Harmless="damage_without_effect", Frames="additions").items():
        c.counts[n] += d[k]
    for b in d["Bad"] or []:
        c.bad(b)
    c.sigs.update(d["Sigs"] or {})
    c.sample("%s: %s" % (c.desc["tz"], {k: v for k, v in d.items() if isinstance(v, int)}))


def pre(binaries):
    try:
        return dict(exe=E.build_go_harness("cachestore"), race=E.build_go_harness("cachestore", race=True))
    except E.HarnessError as e:
        print("note: the cache store can't be reached directly: %s" % str(e)[-300:])
        return dict(missing=1)


def cases():
    s = dict(seed=E.SEED)
    n, m = (90, 20) if E.TIER == "quick" else (1500, 160)
    return [dict(s, i=i, n=n, tz=query.TZS[i % len(query.TZS)]) for i in range(m)] + \
        [dict(s, i=1000 + i, n=n // 5, race=1, tz=query.TZS[i % len(query.TZS)]) for i in range(m // 6)]


if __name__ == "__main__":
    sys.exit(check.main("C21", run, cases(), pre=pre, min_nontrivial=0, rule=
        "one evaluation = one look-up in a store after a random history of storing, looking up, closing, reopening, clearing and damage, compared commit by "
        "commit with what was stored; distinct by history of operations or by damage and its effect"))
