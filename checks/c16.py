"""C16: any commit git can log is read back exactly."""
import base64, json, os, re, subprocess, sys, time
from vh import check, env as E, gitgen, model, outp, query, run as R, world

ODD = [b"a", b"b", b"src", b"sp ace", b"tab\tx", b"\tlead", b"trail\t", b"nl\nx", b"\nlead", b"trail\n", b"\n", b"\n\n", b"\t", b" ", b"\"", b"q\"x\"", b"back\\slash",
       b"\xff\xfe", b"\x01\x02", "é".encode(), "李".encode(), b"e\xcc\x81", b"{a => b}", b"a => b", b"=>", b"{", b"=> x}", b"-", b"--", b"-x", b"0", b"1", b"1\t2\tz",
       b"\n3\t4\tz", b"-\t-\tq", b"\r", b"x\r", b"\r\n", b"*", b"?", b"[x]", b":", b":!x", b"#", b"~", b"\x7f", b"...", b".x", b"commit", b"main.go",
       b"%x00", b"%H", b"\\0", b"5\t", b"\t\t", b"7\t8", b"Merge:", b"c" * 250]


def hexname(rng, n=40):
    return b"".join(rng.choice([b"0", b"1", b"a", b"f", b"9", b"c"]) for _ in range(n))


def odd_names(rng, kind):
    names = rng.sample(ODD, rng.randint(4, 14))
    if rng.random() < 0.5:
        names += [hexname(rng, rng.choice([40, 40, 64, 39, 41])) for _ in range(2)]
    if kind == "hex":
        names = [hexname(rng, rng.choice([40, 64])) for _ in range(5)] + [b"\n" + hexname(rng), hexname(rng) + b"\n", b"a"]
    if kind == "long":
        names = [b"x" * rng.choice([4000, 30000, 32767, 65000]), b"y" * 65000, b"a", b"n\n" * 20000]
    return names


IDS = [(b"", b""), (b"", b"only@mail"), (b"Only Name", b""), (b"%H%x00", b"%ae"), (b"1\t2\tfile", b"3\t4\tz"), (b"tab\there", b"x\ty"), (b"a  b", b" lead@x"),
       ("é 李".encode(), "ü@ö".encode()), (b"\xff\xfe", b"\xff"), (b"-", b"-"), (b"cr\rx", b"c\rr"), (b"q\"", b"'"), (b"0", b"0"), (b"{x = y}", b"="),
       (b"Z" * 3000, b"m" * 70000), (b"commit " + b"a" * 40, b"b@x"),
       ("nbsp\u00a0".encode(), "nb\u00a0".encode()), ("\u3000wide".encode(), b"w@x"), (b"wide", b"w@x"), (b"nbsp", b"nb"), ("nel\u0085".encode(), b"\xc2\xa0"),
       ("\ufeffbom".encode(), b"w@x"), (b"bom", b"W@X"), (b"vt\x0bx\x0c", b"b@x"), ("zw\u200b".encode(), b"b@x"), (b"zw", b"b@x")]


def special(c, p, r):
    """Commit objects written by hand."""
    rng, sb = c.rng, c.sb
    tree = sb.git(p, "rev-parse", "HEAD^{tree}").decode().strip()
    heads = sb.git(p, "for-each-ref", "--format=%(objectname)", "refs/heads").decode().split()
    tip = sb.git(p, "rev-parse", "HEAD").decode().strip()
    sig = b"gpgsig -----BEGIN PGP SIGNATURE-----\n \n author Fake <fake@x> 1 +0000\n -----END PGP SIGNATURE-----\n"
    msgs = [b"", b"\n", b"x", b"x\n", b"\n\nparent 0\nauthor Me <me@x> 0 +0000\n", b"1\t2\tfile\n\n3\t4\tz\n", b"\x1b[31m\n", b"\xff\xfe", b"m\r\n", b"a\n" * 2000,
            tip.encode() + b"\n" + tip.encode()]
    for i in range(c.desc.get("special", 6)):
        a = rng.choice(IDS[1:14] + IDS[17:])
        t = rng.choice([0, 1, 1_500_000_000, 2_147_483_646 if False else 1_600_000_000, 999_999_999])
        tz = rng.choice([b"+0000", b"-0000", b"+1400", b"-1200", b"+0545", b"+9999", b"-2359"])
        parents = rng.choice([[], [tip], [tip], sorted(set([tip] + heads))[:rng.randint(2, 9)], [tip, tip]])
        enc, sg = b"", b""
        nm = a[0]
        if rng.random() < 0.3:
            enc = b"encoding ISO-8859-1\n"
            nm = b"J\xf6rg \xe9"
        if rng.random() < 0.3:
            sg = sig
        who = (nm + b" " if nm else b"") + b"<" + a[1] + b"> %d " % t + tz
        if rng.random() < 0.25:
            # damaged by other programs. (Without an address, git
            # log prints %aN, but not %an, as it is.)
            c.counts["malformed_authors"] += 1
            who = rng.choice([b"M <m@x> -5 +0000", b"M <m@x>", b"M <m@x> ", b"M <m@x> +0000", b"M <m@x> 99999999999999999999 +0000", b"M <m@x> 5", b"M <m@x> 5 zz",
                              b"M <m@x>1500000000 +0000", b"M <m@x> x5 +0000", b"M <m@x> 253402300800000 +0000",
                              b"<m@x>", b" <m@x> 7 +0000", b"M<m@x> 1500000001 +0100", b"M <m@x> Mon Jan 1 2001", b"M <> ", b"<>"])
        body = b"tree " + tree.encode() + b"\n" + b"".join(b"parent " + x.encode() + b"\n" for x in parents)
        body += b"author " + who + b"\ncommitter C <c@x> %d +0000\n" % (1_600_000_000 + i) + enc + sg + b"\n" + rng.choice(msgs)
        h = sb.git(p, "hash-object", "-t", "commit", "-w", "--stdin", "--literally", input=body).decode().strip()
        sb.git(p, "update-ref", "refs/heads/s%d" % i, h)
        if rng.random() < 0.5:
            tip = h
    r.load()


def expected(r, h, mode):
    cm = r.commits[h]
    return dict(hash=h, name=cm.mname, email=cm.memail, date=cm.date, merge=cm.merge,
                diffs=sorted(cm.diffs) if mode != "log-nodiffs" and not cm.merge else [])


def by_harness(c, p, r, mode, revs, cpus):
    env = c.sb.whoenv(GOMAXPROCS=str(cpus))
    res = R.execute([c.ctx["logdump"], mode, p, *revs], p, env)
    c.counts["evaluations"] += 1
    if res.hang or res.rc != 0:
        c.bad("reading the commits (%s) fails" % mode, run=res.brief())
        return False
    got = []
    for l in res.out.split(b"\n")[:-1]:
        o = json.loads(l)
        d = lambda x: base64.b64decode(x or "")
        got.append(dict(hash=d(o["Hash"]).decode(errors="replace"), name=d(o["Name"]), email=d(o["Email"]), date=o["Date"], merge=o["Merge"],
                        diffs=sorted((d(x["Path"]), x["Added"], x["Removed"]) for x in o["Diffs"] or [])))
    want = [expected(r, h, mode) for h in r.select(revs)]
    want = [w for w in want if (w["name"] or w["email"]) and w["date"] <= time.time()]
    gh, wh = [g["hash"] for g in got], [w["hash"] for w in want]
    if sorted(gh) != sorted(wh):
        c.bad("%s: commits missing %r, extra or repeated %r" % (mode, sorted(set(wh) - set(gh))[:3], [x for x in gh if x not in wh or gh.count(x) > 1][:3]),
              run=res.brief())
        return False
    wb = {w["hash"]: w for w in want}
    for g in got:
        w = wb[g["hash"]]
        if g != w:
            k = [x for x in g if g[x] != w[x]]
            c.bad("%s: %s of commit %s read as %.600r, is %.600r" % (mode, k, g["hash"], [g[x] for x in k], [w[x] for x in k]), run=res.brief())
            return False
        c.counts["commits_compared"] += 1
        c.counts["diffs_compared"] += len(w["diffs"])
    for h in wh:
        w = wb[h]
        if w["diffs"] or w["merge"]:
            c.nontrivial(mode, w["name"], w["email"], w["merge"], w["diffs"])
    return True


def by_parse(c, p, r, revs):
    """What `git who parse` prints, read back with the help of the expected
    commits (its format isn't quoted)."""
    res = c.who(p, "parse", *revs)
    c.counts["evaluations"] += 1
    if not c.ok(res, "parse"):
        return False
    want = [expected(r, h, "log") for h in r.select(revs)]
    want = [w for w in want if (w["name"] or w["email"]) and w["date"] <= time.time()]
    blocks = []
    out = res.out
    n = 0
    for w in want:
        for path, a, rm in w["diffs"]:
            line = b"  { path:\"" + path + b"\" added:%d removed:%d }\n" % (a, rm)
            if line not in out:
                c.bad("parse doesn't list the change %r of %s" % (line, w["hash"]), run=res.brief(), stdout=out[:3000])
                return False
            n += len(line)
        ident = b" author:" + w["name"] + b" <" + w["email"] + b"> "
        if ident not in out:
            c.bad("parse doesn't list the author %r of %s" % (ident, w["hash"]), run=res.brief(), stdout=out[:3000])
            return False
    m = re.search(rb"Parsed (\d+) commits", out)
    if not m or int(m.group(1)) != len(want):
        c.bad("parse counts %r commits instead of %d" % (m and m.group(1), len(want)), run=res.brief(), stdout=out[-300:])
        return False
    return True


def through(c, w, p, r):
    """The same through every path the program has of reading commits."""
    rng = c.rng
    for sub, mode, cpus in (("table", "lines", 1), ("table", "files", 4), ("table", "commits", 4), ("hist", "lines", 4), ("table", "lines", 4)):
        q = query.Query(sub=sub, mode=mode, by_email=rng.random() < 0.5, merges=rng.random() < 0.5, revs=["HEAD", *c.extra])
        if sub == "hist":
            q.structure = False
        e = q.expect(w)
        if q.run(c, w, e, cpus=cpus, nocache=rng.random() < 0.5) is None:
            return False
    return True


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    sha256 = kind == "sha256"
    if kind == "big":
        p, r = world.linear(c, c.desc["n"], merges_every=5, paths=[x for x in odd_names(rng, "odd") if b"c" * 250 not in x])
    else:
        o = world.small(rng, commits=rng.randint(5, 40), names=odd_names(rng, kind), depth=3 if kind == "long" else rng.randint(1, 4), maxops=6,
                        authors=rng.sample(IDS, rng.randint(2, 8)), octopus=0.6, merges=rng.choice([0.1, 0.4]), empty=0.15, branches=8,
                        kinds=rng.choice([None, dict(rename=6, add=3, edit=2, copy=1, delete=1)]))
        if sha256:
            o["kinds"] = dict(gitgen.Gen.KINDS, submodule=0)
            o["names"] = odd_names(rng, rng.choice(["odd", "hex"]))
        if kind == "latin":
            o.update(encoding=b"ISO-8859-1", authors=[(b"J\xf6rg", b"j\xf6@x"), (b"Ren\xe9 \xbf", b"r@x"), (b"Plain", b"p@x")])
        p, r = world.make(c, sha256=sha256, checkout=None if kind == "long" else False, **o)
        if kind not in ("latin", "long"):
            special(c, p, r)
    w = query.World(p, r)
    heads = c.sb.git(p, "for-each-ref", "--format=%(refname)", "refs/heads").decode().split()
    c.extra = heads
    if rng.random() < 0.2:
        a = rng.choice(sorted(r.commits.items()))[1]
        if a.email and b">" not in a.email and b"\n" not in a.email and b"#" not in a.email and not a.email.startswith(b" "):
            w.set_mailmap(b"Mapped Name <mapped@x> <" + a.email + b">\n")
    revs = ["HEAD", *heads]
    if "logdump" in c.ctx:
        for mode in ("log", "stdin", "log-nodiffs"):
            if not by_harness(c, p, r, mode, revs, rng.choice([1, 4])):
                return
    else:
        c.counts["reader_not_reachable"] += 1
    if kind != "long" and not by_parse(c, p, r, revs):
        return
    if not through(c, w, p, r):
        return
    if "logdump" not in c.ctx:
        c.nontrivial(kind, c.desc["i"])
    c.sample("%s: %d commits, %d paths such as %r" % (kind, len(r.commits), len(r.all_paths()), r.all_paths()[:3]))


def pre(binaries):
    try:
        return dict(logdump=E.build_go_harness("logdump"))
    except E.HarnessError as e:
        print("note: the reader can't be reached directly: %s" % str(e)[-300:])
        return dict(nodump=1)


def cases():
    if E.TIER == "quick":
        plan, bigs = dict(odd=70, hex=12, long=4, sha256=14, latin=5), [1500]
    else:
        plan, bigs = dict(odd=1200, hex=200, long=40, sha256=200, latin=60), [1024, 1500, 3000, 6000]
    return [dict(seed=E.SEED, kind="big", i=i, n=n) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind=k, i=i) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C16", run, cases(), min_nontrivial=40, pre=pre, rule=
        "one evaluation = all commits of a repository read through one of git-who's ways of reading them (or one command), each field of "
        "each commit compared with the raw object and git diff-tree; non-trivial: a commit with changes or a merge; distinct by contents"))
