"""C07: the timeline accounts for every commit in its own period."""
import datetime, random, sys, zoneinfo
from vh import check, env as E, query, world

ZONES = ["UTC", "America/New_York", "Europe/Berlin", "Asia/Kolkata", "Australia/Lord_Howe", "America/Sao_Paulo", "Pacific/Apia",
         "Asia/Kathmandu", "America/St_Johns", "Africa/Cairo", "Pacific/Kiritimati", "Etc/GMT+12", "Asia/Beirut", "Europe/Dublin",
         "America/Havana", "Asia/Tehran", "Pacific/Chatham", "America/Los_Angeles", "Asia/Tokyo", "Atlantic/Azores"]


def edges(rng, zone, start, days):
    """Instants around local midnights, month and year ends."""
    z = zoneinfo.ZoneInfo(zone)
    r = []
    d0 = datetime.datetime.fromtimestamp(start, z)
    for _ in range(14):
        d = d0 + datetime.timedelta(days=rng.randint(0, days))
        if rng.random() < 0.3:
            d = d.replace(day=1)
        if rng.random() < 0.2:
            d = d.replace(month=1, day=1)
        t = int(datetime.datetime(d.year, d.month, d.day, tzinfo=z).timestamp())
        r.append(max(0, t + rng.choice([-1, 0, 1, -3600, 3599, 86399, 86400, -7200, 43200])))
    return r


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    zone = rng.choice(ZONES)
    if kind == "big":
        p, r = world.linear(c, c.desc["n"], nauthors=rng.choice([2, 5]), span=rng.choice([20, 300, 3000]) * 86400,
                            merges_every=rng.choice([0, 5]), chunked_ties=rng.random() < 0.4)
    else:
        days = rng.choice([2, 10, 60, 120, 300, 700, 2500, 8000])
        end = rng.randint(1_300_000_000, 1_700_000_000)
        o = world.small(rng, span=days * 86400, end=end, jitter=rng.choice([0, days * 43200]),
                        special_dates=edges(rng, zone, end - days * 86400, days), future=rng.choice([0, 0, 0.1]))
        if kind == "ties":
            o.update(ties=0.7, authors=world.authors(rng, 4))
        p, r = world.make(c, **o)
    w = query.World(p, r)
    if rng.random() < 0.2:
        w.set_ignore(rng.sample(sorted(r.commits), 2))
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, subs=("hist",), revs=0.4, filters=0.3, paths=0.25, prefix=0.1)
        q.tz = rng.choice([zone, zone, rng.choice(ZONES)])
        q.structure = False
        e = q.expect(w)
        if q.run(c, w, e, cpus=rng.choice([1, 2, 4, 8]), nocache=rng.random() < 0.4) is None:
            return
        c.counts["commits_in_timelines"] += len(e["commits"])
        if len(e["commits"]) > 1:
            c.nontrivial(*q.sig(e), q.tz, min(x.date for x in e["commits"]))
    c.sample("%s: TZ=%s %s: %d commits" % (c.desc, q.tz, " ".join(q.args), len(e["commits"])))


def cases():
    if E.TIER == "quick":
        plan, bigs, nq = dict(small=90, ties=30), [1023, 1025, 2100], 7
    else:
        plan, bigs, nq = dict(small=700, ties=200), [1023, 1024, 1025, 2048, 2049, 3000, 6000] * 4, 25
    return [dict(seed=E.SEED, kind="big", i=i, n=n, queries=nq) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind=k, i=i, queries=nq) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C07", run, cases(), min_nontrivial=40, rule=
        "one evaluation = one timeline, every period's author, number and bars compared with tallies over the raw commits "
        "by local author date; non-trivial: at least two commits; distinct by mode, flags, zone and selection"))
