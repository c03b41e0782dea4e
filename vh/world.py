"""Repositories for the checks: a few profiles of generated histories."""
import os, time

from . import gitgen, model

NOW0 = 1_600_000_000


def authors(rng, n=5, odd=False, dup=True):
    """Author identities, some sharing a name or an email."""
    pool = list(gitgen.NICE_NAMES)
    if odd:
        pool = pool[:4] + list(gitgen.ODD_NAMES)
    names = rng.sample(pool, min(n, len(pool)))
    ids = []
    for i, nm in enumerate(names):
        nb = nm.encode()
        em = b"u%d@example.com" % i
        if odd and rng.random() < 0.3:
            em = rng.choice([b"a,b@x", b"quote\"d@x.org", b"no-at", "ü@ex.de".encode(),
                             b"sp ace@x", b"'@x", b"a;b@x", b"-x@y"]) + b"%d" % i
        ids.append((nb, em))
    if dup and len(ids) > 1:
        # one name with two addresses, one address with two names
        ids.append((ids[0][0], b"alt@example.com"))
        ids.append((rng.choice(gitgen.NICE_NAMES).encode() + b" Jr", ids[1][1]))
    if dup and rng.random() < 0.4:
        # nearly the same
        a, b = ids[0]
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.randint(0, 6)
            near = [(a, b.upper()), (a, b.title()), (a.upper(), b), (a.lower(), b"lower@example.com"), (a + b" " + a, b + b"x"),
                    (a.decode()[:-1].encode() or b"x", b[1:] or b"y"), (a.replace(b" ", b"  ") + b".", b"+tag" + b)][k]
            if near not in ids:
                ids.append(near)
    if odd and rng.random() < 0.5:
        ids.append((b"", b"noname@x"))
        ids.append((b"Noemail Person", b""))
    return ids


def small(rng, **o):
    d = dict(commits=rng.randint(4, 30), authors=authors(rng, rng.randint(1, 6)),
             merges=rng.choice([0, 0.15, 0.35]), span=rng.choice([3, 40, 400, 4000]) * 86400,
             ties=rng.choice([0, 0.1, 0.5]), empty=rng.choice([0, 0.1]),
             jitter=rng.choice([0, 0, 5 * 86400]), same_committer=rng.random() < 0.5,
             future=rng.choice([0, 0, 0.05]), depth=rng.randint(1, 4))
    d.update(o)
    x = rng.random()
    if x < 0.1 and not {"end", "special_dates", "span"} & set(o):
        d.update(near(rng) if x < 0.06 else early(rng))
    return d


def early(rng):
    """Dates at and soon after the epoch."""
    span = rng.choice([2, 40, 800, 12000]) * 86400
    return dict(end=span, span=span, jitter=0, future=0,
                special_dates=[0] + rng.sample([1, 59, 3600, 43199, 43200, 86399, 86400, 31 * 86400 - 1, 365 * 86400], 3))


def near(rng):
    """Dates on both sides of now, by more than a check takes."""
    n = now() // 3600 * 3600
    return dict(end=int(n - 3 * 3600), span=rng.choice([1, 3, 30, 400]) * 86400,
                special_dates=[int(n + x * 3600) for x in [rng.choice([3, 13, 20, 23.5])] + rng.sample([-3, -30, 3, 20, 25, 4 * 24, 45 * 24, 500 * 24], 2)])


def make(case, name="repo", **o):
    """Generates a repository; returns (path, model.Repo)."""
    sha256 = o.pop("sha256", False)
    kw = {k: o.pop(k) for k in ("extra_refs", "head", "checkout") if k in o}
    post = o.pop("post", None)
    g = gitgen.Gen(case.rng, **o).run()
    p = gitgen.write(case.sb, case.repo(name), g, sha256=sha256, **kw)
    if post:
        post(p)
    r = model.Repo(case.sb, p)
    r.gen = g
    case.counts["repositories"] += 1
    case.counts["commits_generated"] += len(r.commits)
    return p, r


def linear(case, n, name="repo", nauthors=6, files=40, span=900 * 86400, end=NOW0, merges_every=0,
           authors_=None, checkout=True, seed_extra=0, paths=None, start_root=True, chunked_ties=False):
    """A large, cheap, mostly linear history for batch-boundary work. Content
    is made so that the diff of each commit is a few lines of a few files."""
    rng = case.rng
    p = case.repo(name)
    os.makedirs(p, exist_ok=True)
    sb = case.sb
    sb.git(p, "init", "-q", "-b", "main", ".")
    ids = authors_ or authors(rng, nauthors)
    out = bytearray()
    content = {}
    paths = paths or [b"d%d/f%d" % (i % 7, i) for i in range(files)]
    mark = 0
    prev = None
    prev2 = None
    for i in range(n):
        t = end - span + span * (i + 1) // n
        if chunked_ties:
            t = t // 86400 * 86400
        a = rng.choice(ids)
        cmds = bytearray()
        for _ in range(rng.randint(1, 2)):
            f = rng.choice(paths)
            k = rng.randint(1, 4)
            lines = content.get(f, [])
            if len(lines) > 12:
                lines = lines[-3:]
            lines = lines + [b"%d.%d\n" % (i, j) for j in range(k)]
            content[f] = lines
            d = b"".join(lines)
            cmds += b"M 100644 inline " + gitgen.quote_path(f) + b"\ndata %d\n" % len(d) + d + b"\n"
        mark += 1
        ident = a[0] + b" <" + a[1] + b"> %d +0000\n" % t
        out += b"commit refs/heads/main\nmark :%d\nauthor " % mark + ident + b"committer " + ident
        out += b"data 2\nm\n"
        if prev:
            out += b"from :%d\n" % prev
            if merges_every and i % merges_every == merges_every - 1 and prev2:
                out += b"merge :%d\n" % prev2
        out += cmds + b"\n"
        prev2, prev = prev, mark
        if merges_every and i % merges_every == 0 and prev2:
            # a side commit that a later one merges
            prev2 = mark
    out += b"done\n"
    sb.git(p, "fast-import", "--quiet", "--done", "--force", input=bytes(out))
    if checkout:
        sb.git(p, "reset", "-q", "--hard", "main")
    else:
        sb.git(p, "read-tree", "main")
    r = model.Repo(sb, p)
    case.counts["repositories"] += 1
    case.counts["commits_generated"] += len(r.commits)
    return p, r


MODEFLAG = {"commits": None, "lines": "-l", "files": "-f", "last": "-m", "first": "-c"}
TABLE_MODES = ["commits", "lines", "files", "last", "first"]
HIST_MODES = ["commits", "lines", "files"]


def flags(mode, by_email=False, merges=False):
    a = []
    if MODEFLAG[mode]:
        a.append(MODEFLAG[mode])
    if by_email:
        a.append("-e")
    if merges:
        a.append("--merges")
    return a


def now():
    return time.time()
