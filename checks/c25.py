"""C25: the timeline axis is gapless, ordered and ends where it should."""
import datetime, os, random, sys, zoneinfo
from vh import check, env as E, gitgen, model, outp, query, world

FAVOURITES = ["America/Sao_Paulo", "Asia/Beirut", "America/Havana", "Africa/Cairo", "Asia/Amman", "Pacific/Apia", "America/Asuncion",
              "Asia/Tehran", "Atlantic/Azores", "Pacific/Kwajalein", "America/Scoresbysund", "Asia/Gaza", "Antarctica/Troll", "Asia/Manila",
              "Pacific/Kiritimati", "America/St_Johns", "Australia/Lord_Howe", "Europe/Dublin", "Pacific/Fakaofo", "America/New_York",
              "Asia/Kathmandu", "Pacific/Chatham", "UTC", "America/Campo_Grande", "Asia/Damascus", "America/Santiago", "Africa/Casablanca"]
_all = None


def all_zones():
    global _all
    if _all is None:
        _all = sorted(z for z in zoneinfo.available_timezones() if not z.startswith(("right/", "posix/")) and z not in ("localtime", "Factory"))
    return _all


def transitions(z):
    """Instants (from 1971) at which the offset from UTC changes."""
    r = []
    step = 7 * 86400
    t, o = 31536000, None
    while t < 1_780_000_000:
        n = datetime.datetime.fromtimestamp(t, z).utcoffset()
        if o is not None and n != o:
            lo, hi = t - step, t
            while hi - lo > 1:
                m = (lo + hi) // 2
                if datetime.datetime.fromtimestamp(m, z).utcoffset() == o:
                    lo = m
                else:
                    hi = m
            r.append(hi)
        o = n
        t += step
    return r


def at_midnight(z, t):
    """A change of offset that skips or repeats the start of a local day."""
    a = datetime.datetime.fromtimestamp(t - 1, z)
    b = datetime.datetime.fromtimestamp(t, z)
    return a.date() != b.date() or a.hour == 23 or b.hour == 0


def history(c, dates, merges):
    """A history whose author dates are exactly these."""
    rng = c.rng
    p = c.repo()
    os.makedirs(p)
    c.sb.git(p, "init", "-q", "-b", "main", ".")
    ids = [b"Ann <ann@x>", b"Bob <bob@x>", b"Cy <cy@x>"]
    out = bytearray()
    for i, t in enumerate(dates):
        a = rng.choice(ids)
        tz = rng.choice([b"+0000", b"-1200", b"+1400", b"+0530"])
        out += b"commit refs/heads/main\nmark :%d\nauthor " % (i + 1) + a + b" %d " % t + tz + b"\ncommitter " + a + \
            b" %d +0000\ndata 1\nm\n" % min(t if rng.random() < 0.6 else world.NOW0, 2_000_000_000)
        if i:
            out += b"from :%d\n" % i
            if merges and i > 2 and rng.random() < 0.3:
                out += b"merge :%d\n" % rng.randint(1, i - 1)
        if rng.random() < 0.85:
            out += b"M 100644 inline f%d\ndata 3\n%d\n\n" % (rng.randint(0, 3), rng.randint(10, 99))
        out += b"\n"
    out += b"done\n"
    c.sb.git(p, "fast-import", "--quiet", "--done", "--force", input=bytes(out))
    for i in range(3):
        c.sb.git(p, "tag", "t%d" % i, rng.choice(c.sb.git(p, "rev-list", "main").decode().split()))
    c.sb.git(p, "reset", "-q", "--hard", "main")
    c.counts["repositories"] += 1
    return p, model.Repo(c.sb, p)


def run(c):
    rng = c.rng
    zone = rng.choice(FAVOURITES) if rng.random() < 0.5 else rng.choice(all_zones())
    z = zoneinfo.ZoneInfo(zone)
    tr = transitions(z)
    hard = [t for t in tr if at_midnight(z, t)]
    now = int(world.now())
    x = rng.random()
    pivot = rng.choice(hard) if hard and x < 0.6 else rng.choice(tr) if tr and x < 0.8 else rng.randint(40_000_000, now)
    if c.desc["kind"] == "recent":
        pivot = now - rng.choice([0, 1, 3600, 86400, 59 * 86400, 60 * 86400, 61 * 86400, 5 * 365 * 86400, 5 * 365 * 86400 + 2 * 86400])
    c.counts["zone with midnight changes"] += bool(hard)
    span = rng.choice([0, 1, 2, 20, 59, 60, 61, 90, 400, 1824, 1825, 1826, 1827, 3000, 12000]) * 86400
    first = max(1, pivot - rng.choice([0, span, span // 2, rng.randint(0, span)]))
    last = min(first + span, now - 1)
    first = min(first, last)
    near = [pivot + k for k in (-1, 0, 1, 3599, 3600, 3601, -3600, -3601, 7200, 86399, 86400, -86400, 43200)]
    d0 = datetime.datetime.fromtimestamp(pivot, z)
    for d in ([d0 + datetime.timedelta(days=k) for k in (-1, 0, 1, 2)] if d0.year > 1970 else []):
        for e in (d, d.replace(day=1), d.replace(month=1, day=1)):
            t = int(datetime.datetime(e.year, e.month, e.day, tzinfo=z).timestamp())
            near += [t - 1, t, t + 1]
    n = rng.randint(1, 14)
    dates = [first, last] + [rng.choice(near) if rng.random() < 0.6 else rng.randint(first, last) for _ in range(n)]
    if rng.random() < 0.7:
        dates = [t for t in dates if first <= t <= last]
    dates = [max(0, min(t, now - 1)) for t in dates]
    if rng.random() < 0.2:
        dates.append(4_000_000_000)
    if rng.random() < 0.3:
        rng.shuffle(dates)
    else:
        dates.sort()
    p, r = history(c, dates, rng.random() < 0.4)
    w = query.World(p, r)
    if rng.random() < 0.15:
        w.set_ignore(rng.sample(sorted(r.commits), 1))
    for i in range(c.desc["queries"]):
        q = query.Query("hist", mode=rng.choice(world.HIST_MODES), by_email=rng.random() < 0.2, merges=rng.random() < 0.3)
        q.numbers = False
        y = rng.random()
        if y < 0.35:
            q.revs = [rng.choice(["main", "HEAD", "t0", "t1..main", "main~1", "@"])]
            if q.revs == ["main~1"] and len(dates) < 2:
                q.revs = ["main"]
        elif y < 0.6:
            q.opts = ["--until", query.iso(rng.choice(dates) + rng.choice([-1, 0, 86400]))]
        if rng.random() < 0.25:
            q.opts += ["--since", query.iso(rng.choice(dates) + rng.choice([-1, 0, 1]))]
        if rng.random() < 0.15:
            q.opts += ["--author", "Ann"]
        if rng.random() < 0.15:
            q.paths = ["f%d" % rng.randint(0, 3)]
        q.tz = zone if rng.random() < 0.7 else rng.choice(FAVOURITES + all_zones())
        e = q.expect(w)
        # What it says about commits that aren't Unix times git prints is
        # another matter
        res = q.run(c, w, e, cpus=rng.choice([1, 1, 4]), nocache=rng.random() < 0.5)
        if res is None:
            return
        rows = res.out.count(b"\n")
        c.counts["periods"] += rows
        if e["commits"]:
            kind = outp.label_kind(outp.parse_hist(res.out)[0][0])
            c.counts["axis in " + kind + "s"] += 1
            ts = sorted(x.date for x in e["commits"])
            zz = zoneinfo.ZoneInfo(q.tz)
            crossed = sum(1 for t in (tr if q.tz == zone else []) if ts[0] <= t <= ts[-1])
            c.counts["offset changes crossed"] += crossed
            if rows > 1:
                c.nontrivial(q.tz, kind, ts[0], rows, bool(q.revs), bool(q.opts))
    c.sample("TZ=%s %s: %d periods" % (q.tz, " ".join(q.args), rows))


def cases():
    n, m, nq = (150, 60, 12) if E.TIER == "quick" else (2000, 600, 25)
    return [dict(seed=E.SEED, kind="past", i=i, queries=nq) for i in range(n)] + \
        [dict(seed=E.SEED, kind="recent", i=i, queries=nq) for i in range(m)]


if __name__ == "__main__":
    sys.exit(check.main("C25", run, cases(), min_nontrivial=200, rule=
        "one evaluation = one timeline in one time zone, its labels read back and compared with the calendar (Python's zoneinfo) from "
        "the first selected commit to the last or to now; non-trivial: more than one period; distinct by zone, kind of period, first "
        "commit, number of periods and whether revisions or dates are given"))
