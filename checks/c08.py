"""C08: path arguments limit what is counted exactly as given."""
import os, re, sys
from vh import check, env as E, gitgen, model, outp, query, world

NAMES = [b"a", b"b", b"c d", b"x*y", b"[a]", b"q?", b"{c}", b"!bang", b"^c", b"-dash", b"main.go", b"z.py", b"x.txt", b"a.txt",
         b"(exclude)", b"ab", b"A", b"xay", b"#h", "é".encode(), b"xx.y.txt", b".hidden", b"a.go", b"src", b"back\\slash", b"a~b", b"a:!b", b"a:^b", b"b:(exclude)", b"ab", b"x:", b"..a", b"a..b", b"a:!:b", b"tab\there", b"del\x7f", b":", b"[x", b"7Z"]
WILD = ["*.go", "*.txt", "*a*", "*", "?", "??", "[a-c]*", "[!a]*", "x\\*y", "x*y", "[a]", "q?", "\\[a]", "*.*", "*[.]go", "?.*",
        "*y", "[^.]*", "{c}", "*{c}", "*x*", "[[:alpha:]]", "*[[:digit:]]*", "[[:xdigit:]]", "*[[:punct:]]*", "[[:upper:]]*", "*[^[:alnum:]]*", "[[:lower:][:space:]]*", "\\-dash", "*d", "[a-z]", "[A-Z]*", "[]]*", "[.x-z]*",
        "*.t?t", "[[]a[]]", "**", "***", "a*b", "x**y", "a[b-]", "*[!o]", "main.go*", "[[:upper:]]", "[a-", "*\\", "[", "a[", "[!]a]*",
        "*[[:cntrl:]]*", "*[[:blank:]]*", "*[[:space:]]*", "[[:graph:]]*", "[[:print:]]*", "[^[:print:]]*", "*[[:digit:][:upper:]]", "[[:]*", "[[:]:]*",
        "*[[:]", "[[:x]*", "[[:a]a]*", "[[:alpha:]-z]*", "[[::]]*"]
BREAKS = [b"a\nb", b"Icon\r", b"a\r\nb", b"a\r", b"\na", b"b\n", b"a\n\nb", b"a", b"b", b"Icon", b"--", b"-- a", b"c\td"]
REFUSED = [":(glob)*.go", ":(icase)A", ":(literal)a", ":(top)a", ":(attr:x)a", ":(exclude,icase)a", ":(icase,exclude)A",
           ":(glob,exclude)*", ":(top,exclude)a", ":!(glob)x" if False else ":(exclude,glob)x", ":", ":/a", ":/", ":!/a", ":^/a",
           ":(prefix:0)a", ":(bogus)a", ":(exclude", ":()a" if False else ":(literal,exclude)a", ":(exclude,top)b"]


def dirs_of(paths):
    return sorted({p.rpartition("/")[0] for p in paths} - {""})


def spec(rng, w, allp, prefix):
    """One path argument."""
    def rel(p):
        if not prefix:
            return p
        if rng.random() < 0.1:
            return os.path.join(w.path, p)
        return os.path.relpath(p, prefix)

    def plain():
        p = rng.choice(allp)
        comps = p.split("/")
        q = "/".join(comps[:rng.randint(1, len(comps))])
        x = rng.random()
        if x < 0.08:
            return "./" + rel(q) if not os.path.isabs(rel(q)) else rel(q)
        q2 = rel(q)
        if x < 0.2 and q != p:
            q2 += "/"
        if x > 0.95:
            q2 = rng.choice(["nothing/here", "zz", "a/../" + rel("b") if not prefix else "zz"])
        if x > 0.9 and not prefix:
            q2 = os.path.join(w.path, q)
        return q2

    def wild_dir():
        """A pattern with both a directory part and wildcards."""
        comps = rel(rng.choice(allp)).split("/")
        if len(comps) < 2:
            return rng.choice(WILD)
        k = rng.choice([-1, -1, 0, rng.randrange(len(comps))])
        old = comps[k]
        if old in ("", "..", "."):
            k, old = -1, comps[-1]
        if rng.random() < 0.3:
            return rng.choice(["*/", "*%s/" % comps[-2][-1:], "*" + comps[0][-1:] + "/"]) + rng.choice([old, "*" + os.path.splitext(comps[-1])[1]])
        comps[k] = rng.choice(["*", "*" + os.path.splitext(old)[1], old[:1] + "*", "*" + old[-1:], "?" + old[1:], "[%s]%s" % (old[:1], old[1:]),
                               "[!%s]*" % old[:1], "[a-m]*", "*.go", "*.txt", "**"])
        return "/".join(comps)
    x = rng.random()
    base = plain() if x < 0.6 else rng.choice(WILD) if x < 0.85 else wild_dir()
    if rng.random() < 0.35:
        if base.startswith(("(", "/", "!", "^", ":", "-")) or (base[:1] and not base[0].isalnum() and base[0] not in "*?[.{\\#~é"):
            return ":(exclude)" + base
        return rng.choice([":!", ":^", ":(exclude)", ":!:", ":^:"]) + base
    if base.startswith(":"):
        return "./" + base
    return base


def readings_agree(w, base, pre):
    """Do wildcards that match slashes (Git's default), wildcards that don't,
    and wildcards that match a directory with all that is in it all come to
    the same paths here?"""
    if os.path.isabs(base) or base.startswith("..") or re.search(r"\\|\[\[?:|\*\*.|\[[^]]*$", base) or base.endswith("/"):
        return False
    if re.search(r"[?\[]", base) and (not base.isascii() or any(b > 127 for p in w.repo.all_paths() for b in p)):
        # bytes or characters?
        return False
    base = os.path.normpath(base)
    if base.startswith(":"):
        return False
    m = lambda s: w.repo.match_paths([s], pre)
    want = m("./" + base)
    here = m(":(glob)" + base)
    if base.startswith("*"):
        here |= m(":(glob)**/" + base) | m(":(glob)**/" + base + "/**")
    return want == here == m(":(glob)" + base + "/**") | want == m(":(glob)" + re.sub(r"(/\*\*)+$", "", base)) | want


def in_scope(w, q, sp):
    """Path arguments with both a directory part and wildcards aren't matched
    like Git does (an existing test pins that). They are used here only as
    names that contain special characters, where no wildcard reading of them
    could match anything else."""
    base = re.sub(r"^(:!:?|:\^:?|:\(exclude\))", "", sp)
    if "/" not in base or not re.search(r"[*?\[\\]", base):
        return True
    pre = os.fsencode(q.prefix + "/") if q.prefix else b""
    if readings_agree(w, base, pre):
        return True
    if base.startswith(":"):
        base = "./" + base
    lit = w.repo.match_paths([":(literal)" + base], pre)
    loose = os.fsencode(base if os.path.isabs(base) else os.path.normpath(os.path.join("/", q.prefix, base)))
    if os.path.isabs(base):
        loose = b"/" + os.fsencode(os.path.relpath(base, w.path))
    loose = loose.rstrip(b"/")
    # anything from the first special character of a component on may match
    # anything
    rx = re.compile(rb".*".join(re.escape(x) for x in re.split(rb"[*?\[\\]+", loose)).replace(rb"\]", rb".*") + rb"(/.*)?", re.S)
    wild = {p for p in w.repo.all_paths() if rx.fullmatch(b"/" + p)}
    return wild == lit == w.repo.match_paths([base], pre)


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    if kind == "big":
        p, r = world.linear(c, c.desc["n"], paths=[b"d%d/" % (i % 5) + n for i, n in enumerate(NAMES) if b"\\" not in n])
    else:
        p, r = world.make(c, **world.small(rng, commits=rng.randint(6, 25), names=rng.sample(BREAKS, 7) if kind == "breaks" else rng.sample(NAMES, rng.randint(4, 12)),
                                           depth=rng.randint(1, 4), maxops=5))
    w = query.World(p, r)
    allp = [outp.s(x) for x in r.all_paths()]
    if not allp:
        return
    if kind == "refuse":
        for s in REFUSED:
            for sub in ("table", "tree", "hist"):
                others = [rng.choice(allp)] if rng.random() < 0.5 else []
                ps = others + [s] if rng.random() < 0.5 else [s] + others
                args = [sub] + (["-l"] if rng.random() < 0.5 else []) + ["--", *ps]
                res = c.who(p, *args, cpus=rng.choice([1, 4]))
                c.counts["evaluations"] += 1
                c.counts["refusals"] += 1
                c.nontrivial("refuse", sub, s)
                if res.hang or res.panicked:
                    c.ok(res, "unsupported pathspec")
                    return
                if res.rc == 0 or res.out or not res.err.strip():
                    c.bad("unsupported pathspec %r isn't refused with an error" % s, run=res.brief(), stdout=res.out[:500])
                    return
        return
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, revs=0.2, filters=0.15, paths=0, prefix=0.25)
        if any("..." in x for x in q.revs):
            q.revs = []
        q.paths = [spec(rng, w, allp, q.prefix) for _ in range(rng.choice([1, 1, 2, 2, 3, 4]))]
        if rng.random() < 0.5:
            q.sub, q.mode, q.show_all, q.depth = "tree", rng.choice(world.TABLE_MODES), True, 0
        if kind == "breaks":
            # there is no telling the lines of such a tree apart
            q.sub, q.mode = rng.choice(["table", "hist"]), rng.choice(world.HIST_MODES)
        cw = q.cwd(w)
        pr = c.sb.git(cw, "log", "-1", "--format=%H", "--", *q.paths, check=False)
        if pr.returncode != 0:
            # git doesn't take these either (outside the repository, ...)
            c.counts["not_taken_by_git"] += 1
            continue
        if not all(in_scope(w, q, x) for x in q.paths):
            c.counts["out_of_scope"] += 1
            continue
        c.counts["wild_in_directory"] += sum(bool(re.search(r"/.*[*?[]|[*?[].*/", x)) for x in q.paths)
        e = q.expect(w)
        if q.run(c, w, e, cpus=rng.choice([1, 2, 4]), nocache=rng.random() < 0.4) is None:
            return
        m = len(e["paths"])
        c.counts["paths_matched"] += m
        c.counts["paths_not_matched"] += len(allp) - m
        if 0 < m < len(allp):
            c.nontrivial(q.sub, q.mode, q.paths, q.prefix)
    c.sample("%s" % (q.args,))


def cases():
    if E.TIER == "quick":
        plan, nq, bigs = dict(small=130, breaks=15), 9, [1500]
    else:
        plan, nq, bigs = dict(small=1200, breaks=150), 30, [1023, 1500, 2049, 3000]
    return [dict(seed=E.SEED, kind="big", i=i, n=n, queries=nq) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind="refuse", i=i) for i in range(2)] + \
        [dict(seed=E.SEED, kind=k, i=i, queries=nq) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C08", run, cases(), min_nontrivial=40, rule=
        "one evaluation = one command with path arguments, judged by the reference model, which asks git which paths they "
        "match; non-trivial: some but not all paths match; distinct by subcommand, mode, path arguments and directory"))
