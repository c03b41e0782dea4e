"""C14: CSV output is well formed and complete for any author identity."""
import csv, io, os, re, resource, subprocess, sys
from vh import check, env as E, gitgen, model, outp, query, world

ATOMS = ['"', '""', ",", ";", " ", "  ", "'", "\\", "\t", "=", "+1", "-x", "@", "|", "é", "e\u0301", "李", "👩‍💻", "\u202e", "\u00a0", "\ufeff", "a",
         "Zed", "0", "1e5", "#", "%s", "\\n", "\r", "\x0b", "\x1b[31m", "\x7f", "\x01", "(", "{", "$x", "`id`", "~", "null", "name", "\\.", "\u2028", "/"]
RAW = [b"\xff", b"\xc3", b"\xed\xa0\x80", b"caf\xe9"]
BARE = [b'"', b'""', b'"""', b",", b",,", b"\\.", b"\\", b"a,b", b'a"b', b'"quoted"', b'"half', b'half"', b"x\ry", b"\xff\xfe", b"a, \"b\", c", b"-", b"=1+1",
        b"name", b"commits", b"1,234", b"1", b"'", b"a\tb", "ｗｉｄｅ,".encode(), "“q”".encode(), b"#", b"x;y", b"NULL"]


def ident(rng):
    def part(no):
        x = rng.random()
        if x < 0.35:
            b = rng.choice(BARE)
        else:
            b = b"".join(rng.choice(RAW) if rng.random() < 0.08 else rng.choice(ATOMS).encode() for _ in range(rng.randint(1, 6)))
        for ch in (b"<", b">", b"\n", b"\0"):
            b = b.replace(ch, b"")
        return b
    return part(0), part(1)


def strip_crud(b):
    """What Git makes of either half of an identity."""
    return b


def many(c):
    """Numbers with more than three digits."""
    p, r = world.linear(c, c.desc["n"], nauthors=2, files=c.desc["files"], checkout=False)
    w = query.World(p, r)
    for mode in world.TABLE_MODES:
        q = query.Query(mode=mode, by_email=c.rng.random() < 0.5)
        e = q.expect(w)
        res = q.run(c, w, e, cpus=c.rng.choice([1, 2, 4]))
        if res is None:
            return
        recs = outp.parse_csv(res.out)
        c.counts["numbers_over_999"] += sum(f.isdigit() and len(f) > 3 for x in recs[1:] for f in x)
        c.counts["records"] += len(recs) - 1
        if not all(re.fullmatch(r"\d+|\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(Z|[+-]\d\d:\d\d)", f) for x in recs[1:] for f in x[1:]
                   if "@" not in f):
            c.bad("a field is neither an integer nor a time", run=res.brief(), stdout=res.out)
            return


def lost(c, w, q, size):
    """An output that can't take all of it."""
    kind = c.rng.choice(["full", "full", "limit", "pipe"])
    env = c.who.sb.whoenv(TZ=q.tz, GIT_WHO_DISABLE_CACHE="1", GOMAXPROCS=str(c.rng.choice([1, 2, 4])))
    pre, close = None, []
    if kind == "full":
        out = os.open("/dev/full", os.O_WRONLY)
    elif kind == "limit":
        out = os.open(os.path.join(c.dir, "limited"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        n = c.rng.choice([0, 1, size // 2, size - 1])

        def pre():
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    else:
        r, out = os.pipe()
        os.close(r)
    try:
        p = subprocess.run([c.who.binary, *q.args], cwd=q.cwd(w), env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE,
                           preexec_fn=pre, timeout=300)
    finally:
        os.close(out)
    c.counts["outputs_that_cannot_be_written"] += 1
    if p.returncode == 0:
        c.bad("success, but the CSV could not be written in full", kind=kind, args=q.args, stderr=p.stderr.decode(errors="replace")[-500:])


def run(c):
    rng = c.rng
    if "n" in c.desc:
        return many(c)
    ids = [ident(rng) for _ in range(rng.randint(3, 12))]
    ids.append((ids[0][0], b"other,\"@x"))
    ids.append((b"Second, Name", ids[1][1]))
    if rng.random() < 0.5:
        ids.append((b"", b"empty,name@x"))
        ids.append((b"No, Mail", b""))
    if rng.random() < 0.3:
        ids.append((b"l" * 3000 + b',"', b"m" * 2000 + b'@"'))
    o = world.small(rng, commits=rng.randint(len(ids), 3 * len(ids)), authors=ids)
    if rng.random() < 0.2:
        o.update(end=rng.choice([86400 * 30, 2_147_483_647 if False else 1_700_000_000, 951_868_800]), span=rng.choice([86400 * 20, 3600]))
    p, r = world.make(c, **o)
    w = query.World(p, r)
    if rng.random() < 0.3:
        a = rng.choice(sorted(r.commits.items()))[1]
        if a.email and b"#" not in a.email:
            w.set_mailmap(b'Mapped, "To" Me <m,"x@y> <' + a.email + b">\n")
    for mode in world.TABLE_MODES:
        for by_email in (False, True):
            q = query.Query(mode=mode, by_email=by_email, merges=rng.random() < 0.4, limit=rng.choice([0, 0, 0, 1, 3, 10]), tz=rng.choice(query.TZS))
            if rng.random() < 0.2:
                q.revs = [rng.choice(query.refnames(r))]
            if rng.random() < 0.15:
                q.paths = query.some_paths(rng, r)
            e = q.expect(w)
            res = q.run(c, w, e, cpus=rng.choice([1, 2, 4]), nocache=rng.random() < 0.4)
            if res is None:
                return
            recs = outp.parse_csv(res.out)
            c.counts["records"] += len(recs) - 1
            if {len(x) for x in recs} != {len(recs[0])}:
                c.bad("records of different length", run=res.brief(), stdout=res.out)
                return
            if res.out.replace(b"\r", b"").count(b"\n") != len(recs):
                c.bad("not one line per record", run=res.brief(), stdout=res.out)
                return
            odd = sum(any(ch in f for ch in '",\r\\ ') or not f.isascii() for x in recs[1:] for f in x[:2])
            c.counts["fields_needing_care"] += odd
            if odd:
                c.nontrivial(mode, by_email, q.limit, [x[:2] for x in recs[1:]])
    lost(c, w, q, len(res.out))
    c.sample(repr(res.out[:300]))


def cases():
    n = 130 if E.TIER == "quick" else 1800
    return [dict(seed=E.SEED, i=i, n=k, files=f) for i, (k, f) in enumerate([(2600, 1800)] + ([(9000, 6000)] if E.TIER != "quick" else []))] + \
        [dict(seed=E.SEED, i=i) for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C14", run, cases(), min_nontrivial=40, rule=
        "one evaluation = one CSV, parsed by an independent reader in strict mode and compared with totals and raw identities; "
        "non-trivial: some identity needs quoting or isn't ASCII; distinct by flags and identities"))
