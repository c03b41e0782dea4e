"""Parsing what git-who prints and comparing it with the reference model.

Every compare function returns a list of complaints (empty: all is well)."""
import csv, datetime, io, re, time, unicodedata

ANSI = re.compile(r"\x1b\[[0-9;]*[A-Za-z]")


class Bad(Exception):
    """The output can't be what the property promises."""


def text(b):
    return b.decode("utf-8", "surrogateescape")


def s(b):
    return b.decode("utf-8", "surrogateescape") if isinstance(b, bytes) else b


def plain(b):
    return ANSI.sub("", text(b))


# -- numbers and ages --------------------------------------------------------

def number_ok(shown, n):
    """Exact with thousands separators below a million, rounded from there."""
    if n < 1_000_000:
        return shown == format(n, ",")
    m = re.fullmatch(r"(\d+(?:\.\d+)?)m", shown)
    if m:
        return abs(float(m.group(1)) * 1e6 - n) <= 51_000 + n * 1e-6
    m = re.fullmatch(r">(\d+)m", shown)
    if m:
        return n > int(m.group(1)) * 1_000_000 and int(m.group(1)) >= 99
    return False


UNITS = {"min.": 60, "hour": 3600, "hr.": 3600, "day": 86400, "days": 86400,
         "week": 7 * 86400, "weeks": 7 * 86400, "mon.": 30 * 86400,
         "month": 30 * 86400, "yr.": 365 * 86400, "year": 365 * 86400}
AGE = re.compile(r"(>?)(\d+) (min\.|hour|hr\.|days?|weeks?|mon\.|month|yr\.|year) ago")


def age_ok(shown, t, now_lo, now_hi):
    m = AGE.fullmatch(shown)
    if not m:
        return False
    lo, hi = now_lo - t - 1, now_hi - t + 1
    u = UNITS[m.group(3)]
    n = int(m.group(2))
    if m.group(1):
        return hi >= n * u
    return n * u <= hi and (n + 1) * u > lo


# -- CSV -----------------------------------------------------------------------

def parse_csv(out):
    t = text(out)
    try:
        rows = list(csv.reader(io.StringIO(t, newline=""), strict=True))
    except csv.Error as e:
        raise Bad("not CSV: %s" % e)
    return rows


RFC3339 = re.compile(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(Z|[+-]\d\d:\d\d)")


def instant(x):
    if not RFC3339.fullmatch(x):
        raise Bad("not an RFC 3339 time: %r" % x)
    return int(datetime.datetime.fromisoformat(x.replace("Z", "+00:00")).timestamp())


HEADS = ["name", "email", "commits", "lines added", "lines removed", "files",
         "last commit time", "first commit time"]


def check_csv(out, rows, mode="commits", by_email=False, limit=0, order=True):
    """rows: {key: model.Row}"""
    try:
        got = parse_csv(out)
    except Bad as e:
        return [str(e)]
    bad = []
    diffs = mode in ("lines", "files")
    want_head = [h for h in HEADS if (h != "email" or by_email) and
                 (diffs or h not in ("lines added", "lines removed", "files"))]
    if not got or got[0] != want_head:
        return ["header %r, want %r" % (got[:1], want_head)]
    keys = []
    for r in got[1:]:
        if len(r) != len(want_head):
            bad.append("record %r doesn't have %d fields" % (r, len(want_head)))
            continue
        d = dict(zip(want_head, r))
        k = (d["email"] if by_email else d["name"]).encode("utf-8", "surrogateescape")
        keys.append(k)
        row = rows.get(k)
        if row is None:
            bad.append("unexpected author %r" % r)
            continue
        if by_email and d["name"].encode("utf-8", "surrogateescape") not in {n for n, e in row.ids}:
            bad.append("author %r never used the name %r" % (k, d["name"]))
        want = {"commits": len(row.commits), "lines added": row.added,
                "lines removed": row.removed, "files": len(row.files)}
        for f, v in want.items():
            if f in d and d[f] != str(v):
                bad.append("%s of %r is %s, want %d" % (f, k, d[f], v))
        try:
            for f, v in (("last commit time", row.last), ("first commit time", row.first)):
                if instant(d[f]) != v:
                    bad.append("%s of %r is %s, want %d" % (f, k, d[f], v))
        except (Bad, ValueError) as e:
            bad.append(str(e))
    if len(set(keys)) != len(keys):
        bad.append("an author has two rows: %r" % keys)
    n = len(rows) if limit <= 0 else min(limit, len(rows))
    if len(keys) != n:
        bad.append("%d rows, want %d; missing: %r" % (len(keys), n, sorted(set(rows) - set(keys))[:5]))
    if order and not bad:
        bad += check_order(keys, rows, mode, limit)
    return bad


def rank_key(row, mode):
    return (row.metric(mode), row.last)


def check_order(keys, rows, mode, limit):
    bad = []
    ks = [rank_key(rows[k], mode) for k in keys]
    for i in range(1, len(ks)):
        if ks[i] > ks[i - 1]:
            bad.append("rows %d and %d out of order (%s): %r %r before %r %r" % (
                i, i + 1, mode, keys[i - 1], ks[i - 1], keys[i], ks[i]))
    if 0 < limit < len(rows) and ks:
        rest = [rank_key(r, mode) for k, r in rows.items() if k not in set(keys)]
        if rest and max(rest) > min(ks):
            bad.append("limit dropped a row ranking above one it kept")
    return bad


# -- table ---------------------------------------------------------------------

TROW = re.compile(r"│(.*?) +(>?\d+ \S+ ago) +(\S+)(?: +(\S+) +(\S+) / +(\S+))? *│")
MORE = re.compile(r"│\.\.\.(\S+) more\.\.\. *│")


def display_width(t):
    """Columns a terminal uses, for the characters our workloads use."""
    w = 0
    for ch in t:
        if unicodedata.combining(ch) or ch in "\u200d\ufe0f" or unicodedata.category(ch) in ("Mn", "Me", "Cf"):
            continue
        w += 2 if unicodedata.east_asian_width(ch) in "WF" else 1
    return w


def parse_table(out):
    """(header line or None, [(author, age, commits, files, added, removed)], more)"""
    t = plain(out)
    if t == "":
        return None, [], None
    lines = t.split("\n")
    if lines[-1] != "":
        raise Bad("output doesn't end with a newline")
    lines.pop()
    if len(lines) < 4 or not re.fullmatch("┌─+┐", lines[0]) or not re.fullmatch("└─+┘", lines[-1]) \
            or not re.fullmatch("├─+┤", lines[2]):
        raise Bad("not a table: %r" % lines[:4])
    rows, more = [], None
    for i, l in enumerate(lines[3:-1]):
        m = MORE.fullmatch(l)
        if m and i == len(lines) - 5:
            more = m.group(1)
            continue
        m = TROW.fullmatch(l)
        if not m:
            raise Bad("not a table row: %r" % l)
        rows.append(m.groups())
    return lines[1], rows, more


def author_ok(shown, full):
    """Shown in full, or cut with an ellipsis."""
    full = s(full)
    shown = shown.rstrip(" ")
    f = full.rstrip(" ")
    return shown == f or (shown.endswith("…") and f.startswith(shown[:-1].rstrip(" ")) and len(shown) <= len(f))


def check_table(out, keys, rows, mode, by_email, limit, now_lo, now_hi, total=None):
    """keys: keys of the rows in the expected order (as the CSV has it) or
    None."""
    try:
        head, got, more = parse_table(out)
    except Bad as e:
        return [str(e)]
    bad = []
    n = len(rows)
    if n == 0:
        if got or more or plain(out):
            bad.append("expected empty output, got %r" % plain(out)[:200])
        return bad
    if head is None:
        return ["empty output, want %d authors" % n]
    titles = ["Author", "First Edit" if mode == "first" else "Last Edit", "Commits"] + \
        (["Files", "Lines (+/-)"] if mode in ("lines", "files") else [])
    if re.split(r"\s{2,}|(?<=Commits)\s|(?<=Edit)\s", head.strip("│").strip()) != titles:
        bad.append("headings %r, want %r" % (head, titles))
    want = min(n, limit) if limit > 0 else n
    if len(got) != want:
        bad.append("%d rows, want %d" % (len(got), want))
        return bad
    if limit > 0 and limit < n:
        if more is None or not number_ok(more, n - limit):
            bad.append("claims %r more rows, want %d" % (more, n - limit))
    elif more is not None:
        bad.append("claims %r more rows, want none" % more)
    if keys is not None:
        pairs = list(zip(keys, got))
    else:
        pairs = [(None, g) for g in got]
    seen = []
    for k, (author, age, commits, files, added, removed) in pairs:
        cands = [k] if k is not None else list(rows)

        def fits(r):
            names = {s(n) + " <" + s(e) + ">" for n, e in r.ids} if by_email else {s(r.key)}
            t = r.first if mode == "first" else r.last
            ok = any(author_ok(author, x) for x in names) and age_ok(age, t, now_lo, now_hi) and \
                number_ok(commits, len(r.commits))
            if mode in ("lines", "files"):
                ok = ok and files is not None and number_ok(files, len(r.files)) and \
                    number_ok(added, r.added) and number_ok(removed, r.removed)
            else:
                ok = ok and files is None
            return ok
        fit = [c for c in cands if c not in seen and fits(rows[c])]
        if not fit:
            bad.append("row %r doesn't say what it should (candidates %r)" % (
                (author, age, commits, files, added, removed),
                [(c, len(rows[c].commits), len(rows[c].files), rows[c].added, rows[c].removed,
                  rows[c].first, rows[c].last) for c in cands][:4]))
        else:
            seen.append(fit[0])
    return bad


# -- tree ------------------------------------------------------------------------

INDENT = re.compile(r"^((?:│   |    )*)(├── |└── )?")
ANNOT = re.compile(r"^(\.*)(.*) \(([^()]*)\)$", re.S)


class Node:
    __slots__ = ("path", "slash", "author", "metric", "col", "depth", "last", "parent", "joined")


def parse_tree(out, paths):
    """paths: every path that may legitimately appear, as str (directories
    without slash; the top is "")."""
    t = plain(out)
    if t == "":
        return []
    if not t.endswith("\n"):
        raise Bad("tree output doesn't end with a newline")
    res = []
    stack = []  # parents by depth
    byparent = {}
    for l in t[:-1].split("\n"):
        m = INDENT.match(l)
        depth = len(m.group(1)) // 4 + (1 if m.group(2) else 0)
        rest = l[m.end():]
        if m.group(1) and not m.group(2):
            # indentation without connector: part of the name?
            raise Bad("odd indentation: %r" % l)
        if depth > len(stack):
            raise Bad("line has no parent: %r" % l)
        del stack[depth:]
        parent = stack[-1] if stack else None
        n = Node()
        n.depth, n.last, n.parent = depth, m.group(2) == "└── ", parent
        base = parent.path if parent else ""
        cands = []
        if parent is None and (rest.startswith("./") or rest == "."):
            cands.append((1, "", "."))
        key = base
        if key not in byparent:
            pre = base + "/" if base else ""
            byparent[key] = [(len(p) - len(pre), p, p[len(pre):]) for p in paths
                             if p and p.startswith(pre) and p != base]
            byparent[key].sort(reverse=True)
        cands += byparent[key]
        hit = None
        for _, p, shown in cands:
            if not rest.startswith(shown):
                continue
            tail = rest[len(shown):]
            slash = tail.startswith("/")
            if slash:
                tail = tail[1:]
            if tail == "":
                hit = (p, slash, None, None, None)
                break
            a = ANNOT.match(tail)
            if a and a.group(1):
                col = display_width(l) - display_width(tail[len(a.group(1)):])
                hit = (p, slash, a.group(2), a.group(3), col)
                break
        if hit is None:
            raise Bad("can't make sense of tree line %r (under %r)" % (l, base))
        n.path, n.slash, n.author, n.metric, n.col = hit
        n.joined = n.path[len(base):].strip("/").count("/")
        stack.append(n)
        res.append(n)
    return res


def metric_ok(mode, row, shown, now_lo, now_hi):
    if mode == "lines":
        p = shown.split(" / ")
        return len(p) == 2 and number_ok(p[0], row.added) and number_ok(p[1], row.removed)
    if mode in ("first", "last"):
        return age_ok(shown, row.first if mode == "first" else row.last, now_lo, now_hi)
    return number_ok(shown, len(row.files) if mode == "files" else len(row.commits))


def winners(authors, mode):
    best = max(r.metric(mode) for r in authors.values())
    return {k: r for k, r in authors.items() if r.metric(mode) == best}


def node_author_ok(shown, key, by_email):
    return author_ok(shown, "<" + s(key) + ">" if by_email else s(key).lstrip("."))


def check_tree(out, nodes, touched, wtree, mode, by_email, show_all, depth, now_lo, now_hi,
               structure=True, numbers=True):
    """nodes, touched: from model.tree(). wtree: worktree files relative to
    where we are."""
    spaths = {s(p) for p in nodes}
    bad = []
    try:
        got = parse_tree(out, spaths)
    except Bad as e:
        return [str(e)]
    inwt = {p for p in touched if p in wtree}
    shown_files = touched if show_all else inwt
    maxd = depth if depth > 0 else 10 ** 6

    def b(p):
        return p.encode("utf-8", "surrogateescape")

    isdir = {}
    for p in touched:
        for i in range(len(p)):
            if p[i:i + 1] == b"/":
                isdir[p[:i]] = True
    if structure:
        seen = [n.path for n in got]
        if len(set(seen)) != len(seen):
            bad.append("shown twice: %r" % sorted(x for x in seen if seen.count(x) > 1)[:4])
        # what must be visible, joined or not
        covered = set()
        for n in got:
            p = n.path
            base = n.parent.path if n.parent else None
            while p != base:
                covered.add(b(p))
                if p == "":
                    break
                p = p.rpartition("/")[0]
        must = set()
        for p in shown_files:
            comps = p.split(b"/")
            for i in range(0, len(comps) + 1):
                if i <= maxd:
                    must.add(b"/".join(comps[:i]))
        shown_set = {b(n.path) for n in got}
        miss = must - covered
        if not shown_files:
            miss = set()
        if miss - {b""}:
            bad.append("not shown: %r" % sorted(miss)[:5])
        for p in shown_files:
            if p.count(b"/") + 1 <= maxd and p not in shown_set and not (p in isdir):
                bad.append("file has no line: %r" % p)
        for n in got:
            p = b(n.path)
            if n.path and n.path.count("/") + 1 > maxd:
                bad.append("deeper than -d %d: %r" % (depth, n.path))
            if n.path and p not in must and p not in touched:
                bad.append("shouldn't be shown: %r" % n.path)
            elif p in touched and p not in shown_files and p not in must:
                bad.append("not in working tree but shown: %r" % n.path)
            file_now = p in inwt
            if n.slash and p != b"" and p not in isdir:
                bad.append("file shown as a directory: %r" % n.path)
            if n.slash and file_now and not show_all:
                bad.append("file shown as a directory: %r" % n.path)
            if not n.slash and (p == b"" or (p in isdir and not file_now)):
                bad.append("directory shown without slash: %r" % n.path)
            if show_all and n.author is None:
                bad.append("no annotation with -a: %r" % n.path)
            if (n.slash or n.parent is None) and n.author is None:
                bad.append("no annotation on %r" % n.path)
            # joined only along single-child chains
            if n.joined or (n.parent is None and n.path):
                q = n.path.rpartition("/")[0]
                base = n.parent.path if n.parent else ""
                while q != base and q != "" or (n.parent is None and q == ""):
                    kids = {x[len(q) + 1 if q else 0:].split("/")[0] for x in
                            (s(y) for y in shown_files) if x.startswith(q + "/" if q else "")}
                    if len(kids) > 1:
                        bad.append("%r is joined though %r has %d children" % (n.path, q, len(kids)))
                    if q == "":
                        break
                    q = q.rpartition("/")[0]
        # order and connectors
        bykids = {}
        for n in got:
            bykids.setdefault(id(n.parent), []).append(n)
        for kids in bykids.values():
            order = [not (n.slash or n.joined) for n in kids]
            if order != sorted(order):
                bad.append("directories don't come first: %r" % [n.path for n in kids])
            for part in (True, False):
                # Joined lines are sorted by the name of their first component
                names = [n.path[len(n.parent.path):].lstrip("/").split("/")[0] if n.parent and n.parent.path
                         else n.path.split("/")[0] for n in kids if bool(n.slash or n.joined) == part]
                enc = [b(x) for x in names]
                if enc != sorted(enc):
                    bad.append("not in name order: %r" % names)
            if kids[0].parent is not None:
                for n in kids[:-1]:
                    if n.last:
                        bad.append("wrong connector at %r" % n.path)
                if not kids[-1].last:
                    bad.append("wrong connector at last child %r" % kids[-1].path)
    if numbers:
        for n in got:
            p = b(n.path)
            if p not in nodes:
                continue
            win = winners(nodes[p], mode)
            if n.author is None:
                # Same author as the line it hangs from
                if n.parent is not None and n.parent.author is not None and \
                        not any(node_author_ok(n.parent.author, k, by_email) for k in win):
                    bad.append("%r is left to %r, but the winners are %r" % (n.path, n.parent.author, sorted(win)))
                continue
            ok = [k for k, r in win.items() if node_author_ok(n.author, k, by_email)
                  and metric_ok(mode, r, n.metric, now_lo, now_hi)]
            if not ok:
                bad.append("%r says %r (%s); should be one of %r" % (
                    n.path, n.author, n.metric,
                    [(k, len(r.commits), len(r.files), r.added, r.removed, r.first, r.last)
                     for k, r in win.items()]))
    return bad


# -- hist --------------------------------------------------------------------------

HROW = re.compile(r"^(.*?) ┤ (?:(#*)(-*)( *)  (.*) \(([^()]*)\))?$", re.S)


def parse_hist(out):
    t = plain(out)
    if t == "":
        return []
    if not t.endswith("\n"):
        raise Bad("timeline doesn't end with a newline")
    r = []
    for l in t[:-1].split("\n"):
        m = HROW.match(l)
        if not m:
            raise Bad("not a timeline row: %r" % l)
        r.append(m.groups())
    return r


def label_kind(label):
    if re.fullmatch(r"\d{4}-\d\d-\d\d", label):
        return "day"
    if re.fullmatch(r"(Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) \d{4}", label):
        return "month"
    if re.fullmatch(r"\d{4}", label):
        return "year"
    raise Bad("odd period label %r" % label)


MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def label_of(t, kind, zone):
    d = datetime.datetime.fromtimestamp(t, zone)
    if kind == "day":
        return d.strftime("%Y-%m-%d") if d.year >= 1000 else "%04d-%02d-%02d" % (d.year, d.month, d.day)
    if kind == "month":
        return "%s %04d" % (MONTHS[d.month - 1], d.year)
    return "%04d" % d.year


def ordinal(label, kind):
    if kind == "day":
        y, m, d = map(int, label.split("-"))
        return datetime.date(y, m, d).toordinal()
    if kind == "month":
        m, y = label.split()
        return int(y) * 12 + MONTHS.index(m)
    return int(label)


def no_such_day(iso, zone):
    """True if a date was skipped in a time zone that moved across the date
    line."""
    d = datetime.date.fromisoformat(iso)
    t0 = int(datetime.datetime(d.year, d.month, d.day, tzinfo=datetime.timezone.utc).timestamp())
    return not any(datetime.datetime.fromtimestamp(t, zone).date() == d for t in range(t0 - 16 * 3600, t0 + 42 * 3600, 900))


def check_hist(out, commits, mode, by_email, merges, zone, zname, now_lo, now_hi,
               ends_now, paths=None, axis=True, numbers=True):
    """commits: selected commits (merges included)."""
    try:
        got = parse_hist(out)
        if not got:
            # nothing selected: nothing to show
            return ["no timeline for %d commits" % len(commits)] if commits else []
        if not commits:
            if all(g[4] is None for g in got):
                return []
            return ["timeline for an empty selection: %r" % got[:3]]
        kinds = {label_kind(g[0]) for g in got}
        if len(kinds) != 1:
            return ["mixed period labels %r" % kinds]
    except Bad as e:
        return [str(e)]
    kind = kinds.pop()
    bad = []
    if axis:
        ords = [ordinal(g[0], kind) for g in got]
        for a, c, g in zip(ords, ords[1:], got[1:]):
            if c != a + 1:
                gap = [datetime.date.fromordinal(x).isoformat() for x in range(a + 1, c)] if kind == "day" and c > a else []
                if not gap or len(gap) > 2 or not all(no_such_day(x, zone) for x in gap):
                    bad.append("period %r doesn't follow the one before" % g[0])
        first = label_of(min(c.date for c in commits), kind, zone)
        if got[0][0] != first:
            bad.append("starts at %r, want %r" % (got[0][0], first))
        if ends_now:
            ends = {label_of(now_lo, kind, zone), label_of(now_hi, kind, zone)}
        else:
            ends = {label_of(max(c.date for c in commits), kind, zone)}
        # Neither many hundred lines nor too few: about sixty at most, unless
        # there are no longer periods than these
        days = ((now_lo if ends_now else max(c.date for c in commits)) - min(c.date for c in commits)) / 86400
        want = "day" if days < 58 else "month" if 63 < days < 1821 else "year" if days > 1830 else kind
        if kind != want:
            bad.append("shows %ss for %d days, want %ss" % (kind, days, want))
        if got[-1][0] not in ends:
            bad.append("ends at %r, want %r" % (got[-1][0], ends))
    if numbers:
        from . import model
        periods = {}
        for c in commits:
            if c.merge and not merges:
                continue
            periods.setdefault(label_of(c.date, kind, zone), []).append(c)
        labels = {g[0] for g in got}
        for l in periods:
            if l not in labels:
                bad.append("no line for %r with %d commits" % (l, len(periods[l])))
        totals, info = {}, {}
        for l, cs in periods.items():
            rows = model.tally(cs, by_email, merges, paths)
            allf = set()
            for r in rows.values():
                allf |= r.files
            tot = {"lines": sum(r.added + r.removed for r in rows.values()), "files": len(allf),
                   "commits": len(cs)}[mode]
            info[l] = (rows, tot)
        mx = max([36] + [i[1] for i in info.values()])
        for label, hashes, dashes, pad, author, metric in got:
            if label not in info:
                if author is not None:
                    bad.append("%r has %r (%s), want nothing" % (label, author, metric))
                continue
            rows, tot = info[label]
            win = winners(rows, mode)
            best = next(iter(win.values())).metric(mode)
            if best == 0:
                if author is not None:
                    bad.append("%r has %r (%s), want nothing" % (label, author, metric))
                continue
            if author is None:
                bad.append("%r is empty, want one of %r" % (label, sorted(win)))
                continue
            ok = [k for k, r in win.items() if
                  author_ok(author, "<" + s(k) + ">" if by_email else s(k)) and
                  metric_ok(mode, r, metric, now_lo, now_hi)]
            if not ok:
                bad.append("%r says %r (%s); should be one of %r" % (
                    label, author, metric,
                    [(k, len(r.commits), len(r.files), r.added, r.removed) for k, r in win.items()]))
            v = len(hashes)
            if not best * 36 / mx - 1 < v < best * 36 / mx + 1:
                bad.append("%r: bar of %d for %d out of at most %d" % (label, v, best, mx))
            w = len(hashes) + len(dashes)
            if not tot * 36 / mx - 1 < w < tot * 36 / mx + 1:
                bad.append("%r: total bar of %d for %d out of at most %d" % (label, w, tot, mx))
    return bad
