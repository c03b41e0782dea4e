"""C15: printed tables, trees and numbers stay aligned and truthful."""
import os, re, subprocess, sys, time, unicodedata
from vh import check, env as E, gitgen, model, outp, query, world

# Characters about whose width terminals agree
POOL = dict(
    ascii=[chr(i) for i in range(0x21, 0x7f) if chr(i) not in "<>"] + [" "] * 8,
    accented=list("éèüñøÅÄÖßçŁőžğİ"),
    combining=["e\u0301", "a\u0308", "o\u0302\u0323", "n\u0303", "Z\u030c", "x\u0336", "u\u0301\u0302\u0303"],
    wide=list("李小龍山田太郎漢字한글テスト中文ＡＢｗｉ"),
    kana=list("かなカナ") + ["か\u3099", "ﾊﾝｶｸ"],
    greek=list("αβγΩЖдяШ"),
    rtl=list("אבגעربي"),
    emoji=["😀", "🚀", "👩‍💻", "🐍"],
    symbol=["…", "—", "“", "”", "·", "°", "±"] if False else ["—", "“", "”"],
)


def width(t):
    """Columns taken up. A joined emoji sequence is as wide as one emoji."""
    w, skip = 0, False
    for ch in t:
        if ch == "\u200d":
            skip = True
            continue
        if unicodedata.combining(ch) or unicodedata.category(ch) in ("Mn", "Me", "Cf"):
            continue
        if skip:
            skip = False
            continue
        w += 2 if unicodedata.east_asian_width(ch) in "WF" else 1
    return w


def text(rng, lo, hi, kinds=None):
    kinds = kinds or rng.sample(sorted(POOL), rng.choice([1, 1, 2, 3]))
    n = rng.randint(lo, hi)
    r = "".join(rng.choice(POOL[rng.choice(kinds)]) for _ in range(n)).strip(" .,:;'\"\\")
    return r or "x"


def ident(rng):
    x = rng.random()
    if x < 0.5:
        nm = text(rng, 1, 60)
    else:
        # around the widths of the columns
        want = rng.choice([25, 34, 42, 40, 45, 47, 58, 60, 66, 80, 24, 26, 33, 57, 59]) + rng.choice([-1, 0, 1])
        kinds = rng.sample(sorted(POOL), 2)
        nm = ""
        while width(nm) < want:
            nm += rng.choice(POOL[rng.choice(kinds)])
        nm = nm.strip(" .,:;'\"\\") or "x"
    em = rng.choice([text(rng, 1, 30, ["ascii"]), text(rng, 1, 30), "u@example.com"]).replace(" ", "")
    return nm.encode(), em.encode() + b"@%d" % rng.randrange(10)


def table_lines(c, res, out):
    """All lines of a table have one width."""
    t = outp.plain(out)
    ls = t.split("\n")[:-1]
    ws = [width(l) for l in ls]
    c.counts["table_lines"] += len(ls)
    if len(set(ws)) > 1:
        i = next(i for i in range(len(ws)) if ws[i] != ws[0])
        c.bad("line of %d columns in a table of %d: %r" % (ws[i], ws[0], ls[i]), run=res.brief(), stdout=out)
        return False
    return True


def authors_shown(c, res, out, q, e):
    """Author text is cut only if it has to be, and then ends in an ellipsis."""
    head, got, more = outp.parse_table(out)
    room = None
    for l in outp.plain(out).split("\n")[3:4]:
        room = width(head) - 2
    fixed = 36 + 13 if q.mode in ("lines", "files") else 22
    for author, age, *_ in got:
        if author.endswith("…"):
            cut = author[:-1]
            fulls = {(outp.s(n) + " <" + outp.s(m) + ">" if q.by_email else outp.s(n)) for r in e["rows"].values() for n, m in r.ids}
            fit = [f for f in fulls if f.startswith(cut) and len(f) >= len(cut)]
            if not fit:
                c.bad("cut author %r isn't the start of any author" % author, run=res.brief(), stdout=out)
                return False
            c.counts["authors_cut"] += 1
    return True


def tree_columns(c, res, out, e):
    got = outp.parse_tree(out, {outp.s(p) for p in e["nodes"]})
    cols = {}
    for l, n in zip(outp.plain(out)[:-1].split("\n"), got):
        if n.col is None:
            continue
        # recompute with our own width: everything up to the author
        m = outp.ANNOT
        tail = l[l.index(n.author + " (" + n.metric + ")", max(0, len(l) - len(n.author) - len(n.metric) - 3)):]
        cols.setdefault(width(l) - width(tail), []).append(l)
        w = width(n.author)
        if w > 25:
            c.bad("tree author takes %d columns: %r" % (w, n.author), run=res.brief(), stdout=out)
            return False
        c.counts["tree_annotations"] += 1
    if len(cols) > 1:
        c.bad("annotations start in columns %r" % {k: v[0] for k, v in cols.items()}, run=res.brief(), stdout=out)
        return False
    return True


PATHS = [["a", "b", "src", "main.go", "x.txt"], ["é", "ü.txt", "e\u0301", "naïve"], ["李", "山田.go", "ｗｉｄｅ", "한글"], ["😀", "a😀b"], ["שלום", "дом", "a b", "c(d)"]]


def identities(c):
    rng = c.rng
    ids = [ident(rng) for _ in range(rng.randint(4, 14))]
    names = [n.encode() for g in rng.sample(PATHS, rng.randint(1, 3)) for n in g]
    p, r = world.make(c, **world.small(rng, commits=rng.randint(len(ids), 40), authors=ids, names=names, depth=rng.randint(1, 4)))
    w = query.World(p, r)
    for mode in world.TABLE_MODES:
        for by_email in (False, True):
            q = query.Query(mode=mode, by_email=by_email, csv=False, limit=rng.choice([0, 0, 1, 3, 10]), merges=rng.random() < 0.3)
            e = q.expect(w)
            if not e["rows"]:
                continue
            res = q.run(c, w, e, cpus=rng.choice([1, 4]))
            if res is None or not table_lines(c, res, res.out) or not authors_shown(c, res, res.out, q, e):
                return
            c.nontrivial("table", mode, by_email, sorted(width(outp.s(n)) for rr in e["rows"].values() for n, _ in rr.ids))
            q = query.Query(sub="tree", mode=mode, by_email=by_email, show_all=rng.random() < 0.6, depth=rng.choice([0, 0, 1, 2]))
            e = q.expect(w)
            lo = time.time()
            res = c.who(p, *q.args, cpus=rng.choice([1, 4]))
            c.counts["evaluations"] += 1
            if not c.ok(res):
                return
            q.numbers, q.structure = True, False
            bad = q.verify(res.out, e, lo, time.time())
            if bad:
                c.bads(res, bad)
                return
            if res.out and not tree_columns(c, res, res.out, e):
                return
            c.nontrivial("tree", mode, by_email, q.show_all, q.depth, len(e["touched"]))


def plain_repo(c):
    p = c.repo("r")
    os.makedirs(p)
    c.sb.git(p, "init", "-q", "-b", "main", ".")
    return p


def numbers(c):
    """Line counts around every change of format, through the whole program."""
    rng = c.rng
    p = plain_repo(c)
    out = bytearray()
    mark, prev = 0, None
    for i, n in enumerate(c.desc["lines"]):
        for k, what in enumerate(("add", "remove")):
            mark += 1
            ident = b"A%d <a%d@x> %d +0000\n" % (i, i, 1_500_000_000 + mark * 1000)
            out += b"commit refs/heads/main\nmark :%d\nauthor " % mark + ident + b"committer " + ident + b"data 1\nx\n"
            if prev:
                out += b"from :%d\n" % prev
            if k == 0:
                out += b"M 100644 inline f%d\ndata %d\n" % (i, n) + b"\n" * n + b"\n"
            else:
                out += b"D f%d\n" % i
            prev = mark
    c.sb.git(p, "fast-import", "--quiet", "--done", "--force", input=bytes(out) + b"done\n")
    c.sb.git(p, "read-tree", "main")
    r = model.Repo(c.sb, p)
    w = query.World(p, r)
    for sub, mode in (("table", "lines"), ("table", "files"), ("tree", "lines")):
        q = query.Query(sub=sub, mode=mode, csv=False, show_all=True)
        e = q.expect(w)
        res = q.run(c, w, e, cpus=rng.choice([1, 4]))
        if res is None:
            return
        if sub == "table" and not table_lines(c, res, res.out):
            return
        if sub == "tree" and not tree_columns(c, res, res.out, e):
            return
        c.counts["numbers_checked"] += 2 * len(c.desc["lines"])
        for n in c.desc["lines"]:
            c.nontrivial("lines", sub, mode, n)


UNITS = [60, 3600, 86400, 7 * 86400, 30 * 86400, 365 * 86400]


def ages(c):
    """Ages around the turn of every unit."""
    rng = c.rng
    p = plain_repo(c)
    now = int(time.time())
    ds = []
    for u in UNITS:
        for k in rng.sample(range(1, 14), 4) + [1, 2]:
            ds += [u * k + d for d in (-40, 40)]
    ds += [0, 20, 39 * 365 * 86400 + 500, 29 * 86400 + 100, 364 * 86400]
    ds = [d for d in ds if 0 <= d < now]
    rng.shuffle(ds)
    out, prev = bytearray(), None
    for i, d in enumerate(ds):
        ident = b"A%d <a%d@x> %d +0000\n" % (i, i, now - d)
        out += b"commit refs/heads/main\nmark :%d\nauthor " % (i + 1) + ident + b"committer " + ident + b"data 1\nx\n"
        if prev:
            out += b"from :%d\n" % prev
        out += b"M 100644 inline f%d\ndata 2\n%d\n\n" % (i, i % 10)
        prev = i + 1
    c.sb.git(p, "fast-import", "--quiet", "--done", "--force", input=bytes(out) + b"done\n")
    c.sb.git(p, "read-tree", "main")
    r = model.Repo(c.sb, p)
    w = query.World(p, r)
    for sub, mode in [("table", m) for m in world.TABLE_MODES] + [("tree", "last"), ("tree", "first")]:
        q = query.Query(sub=sub, mode=mode, csv=False, show_all=True, tz=rng.choice(query.TZS))
        e = q.expect(w)
        res = q.run(c, w, e, cpus=rng.choice([1, 4]))
        if res is None:
            return
        if sub == "table" and not table_lines(c, res, res.out):
            return
        if sub == "tree" and not tree_columns(c, res, res.out, e):
            return
        c.counts["ages_checked"] += len(ds)
        for d in ds:
            c.nontrivial("age", sub, mode, d)


def functions(c):
    """The formatting functions themselves, on many more values."""
    exe = c.ctx.get("fmtdump")
    if not exe:
        c.counts["functions_not_reachable"] += 1
        return
    rng = c.rng
    n = c.desc["n"]
    ns = [k + d for k in [0, 1000, 10_000, 100_000, 999_000, 1_000_000, 10 ** 7, 10 ** 8, 2 ** 31, 10 ** 12] for d in range(-3, 4)]
    ns += [1000 * rng.randrange(1000) + d for d in (-1, 0, 1) for _ in range(50)]
    ns += [rng.randrange(10 ** rng.randint(1, 12)) for _ in range(n)]
    ns = [x for x in ns if x >= 0]
    ds = [(u * k + d, ns_) for u in UNITS for k in list(range(1, 15)) + [50, 98, 99, 100, 101] for d in (-1, 0, 1) for ns_ in (0, 1, 999_999_999)]
    ds += [(rng.randrange(10 ** rng.randint(1, 10)), rng.randrange(10 ** 9)) for _ in range(n)]
    ds = [x for x in ds if 0 <= x[0] < 9_000_000_000]
    ss = [(rng.randint(2, 70), text(rng, 0, 90)) for _ in range(n)]
    ss += [(max(2, width(t) + d), t) for t in (text(rng, 1, 60) for _ in range(n // 3)) for d in (-2, -1, 0, 1)]
    inp = "".join("n %d\n" % x for x in ns) + "".join("a %d %d\n" % x for x in ds) + \
        "".join("s %d %s\n" % (m, t.encode().hex()) for m, t in ss)
    pr = subprocess.run([exe], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    lines = pr.stdout.decode().split("\n")[:-1]
    if len(lines) != len(ns) + len(ds) + len(ss):
        c.bad("formatting functions ended early", stderr=pr.stderr[-2000:])
        return
    it = iter(lines)
    for x in ns:
        g = next(it)
        c.counts["evaluations"] += 1
        if not outp.number_ok(g, x) or len(g) > 7:
            c.bad("%d is printed as %r" % (x, g))
            return
        c.nontrivial("n", x)
    for s, nn in ds:
        g = next(it)
        c.counts["evaluations"] += 1
        m = outp.AGE.fullmatch(g)
        el = s + nn / 1e9
        u = outp.UNITS[m.group(3)] if m else 0
        if not m or not int(m.group(2)) * u <= s or len(g) > 11 or (not m.group(1) and (int(m.group(2)) + 1) * u <= s) or \
                (u == 60 and s >= 3600) or (u > 60 and int(m.group(2)) == 0):
            c.bad("%.9f s ago is printed as %r" % (el, g))
            return
        c.nontrivial("a", s, nn)
    for m, t in ss:
        g = bytes.fromhex(next(it)).decode("utf-8", "replace")
        c.counts["evaluations"] += 1
        w = width(t)
        if width(g) > m or (w <= m and g != t) or (g != t and not (g.endswith("…") and t.startswith(g[:-1]) and width(g) >= m - 2)):
            c.bad("%r (%d columns) cut to %d is %r" % (t, w, m, g))
            return
        c.nontrivial("s", m, t)


def run(c):
    dict(id=identities, num=numbers, age=ages, fun=functions)[c.desc["kind"]](c)
    c.sample(c.desc)


def pre(binaries):
    try:
        return dict(fmtdump=E.build_go_harness("fmtdump"))
    except E.HarnessError as e:
        print("note: formatting functions can't be reached directly: %s" % str(e)[-300:])
        return dict(nofmt=1)


NUMS = [[0 + 1, 9, 10, 99, 100, 999, 1000, 1001, 1999, 2000, 9999, 10000, 10001, 10010, 10100], [99_999, 100_000, 100_001, 123_456, 120_034, 500_000],
        [999_949, 999_950, 999_999], [1_000_000, 1_000_001, 1_049_000], [9_949_000, 1_100_000], [9_960_000, 10_000_000]]


def cases():
    if E.TIER == "quick":
        return [dict(seed=E.SEED, kind="num", lines=l) for l in NUMS[:5]] + [dict(seed=E.SEED, kind="age", i=i) for i in range(4)] + \
            [dict(seed=E.SEED, kind="fun", i=i, n=4000) for i in range(2)] + [dict(seed=E.SEED, kind="id", i=i) for i in range(40)]
    return [dict(seed=E.SEED, kind="num", lines=l) for l in NUMS + [[99_900_000], [100_000_001], [12_345_678, 23_456_789]]] + \
        [dict(seed=E.SEED, kind="age", i=i) for i in range(60)] + \
        [dict(seed=E.SEED, kind="fun", i=i, n=60000) for i in range(16)] + [dict(seed=E.SEED, kind="id", i=i) for i in range(900)]


if __name__ == "__main__":
    sys.exit(check.main("C15", run, cases(), min_nontrivial=100, pre=pre, rule=
        "one evaluation = one printed table or tree whose lines are measured (and judged by the reference model), or one value put "
        "through a formatting function; distinct by value, or by mode, flags and widths"))
