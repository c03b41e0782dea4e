"""C22: the answer doesn't depend on how the working directory is reached."""
import os, re, sys
from vh import check, env as E, gitgen, model, outp, query, run as R, world
from checks.c08 import in_scope

ODD = [b"c d", b"x*y", b"[a]", b"q?", b"{c}", b"!bang", b"^c", b"-dash", b"(exclude)", b"#h", "é".encode(), b"back\\slash",
       b"a~b", b"tr ", b" ld", b".hid", b"$HOME", b"%s", b"'q'", b'"dq"', "日本".encode(), b":col", b"a.b",
       b"main", b"HEAD", b"b0", b"caf\xc3\xa9", b"cafe\xcc\x81", b"\xff\xfe", b"A", b"a", b"aa", b"a-b", b"a.go"]
FILES = [b"main.go", b"x.txt", b"y.txt", b"z.py", b"README", b"f*", b"[f]", b"f"]


def ways(c, w, top, d, rng):
    """Ways of getting to directory d ("" = top level) of the repository:
    (what, current directory, PWD or None)."""
    phys = os.path.join(top, d) if d else top
    links = c.repo("links")
    os.makedirs(links, exist_ok=True)
    n = len(os.listdir(links))
    r = [("directly", phys, phys), ("PWD unset", phys, None)]
    l1 = os.path.join(links, "repo%d" % n)
    os.symlink(top, l1)
    r.append(("link to the repository", os.path.join(l1, d) if d else l1, os.path.join(l1, d) if d else l1))
    l2 = os.path.join(links, "dir %d" % n)
    os.symlink(phys, l2)
    r.append(("link to the directory", l2, l2))
    l3 = os.path.join(links, "parent%d" % n)
    os.symlink(os.path.dirname(top), l3)
    x = os.path.join(l3, os.path.basename(top), d) if d else os.path.join(l3, os.path.basename(top))
    r.append(("link to a parent", x, x))
    l4 = os.path.join(links, "chain%d" % n)
    os.symlink(os.path.basename(l2), l4)
    r.append(("link to a link", l4, l4))
    if d and "/" in d:
        l5 = os.path.join(links, "mid%d" % n)
        os.symlink(os.path.join(top, d.split("/")[0]), l5)
        x = os.path.join(l5, d.split("/", 1)[1])
        r.append(("link to a directory above", x, x))
    r.append(("PWD of some other place", phys, top if d else os.path.dirname(top)))
    r.append(("PWD of nowhere", phys, "/nonexistent/dir"))
    r.append(("relative PWD", phys, "."))
    r.append(("PWD with a trailing slash", phys, phys + "/"))
    r.append(("PWD with dots", phys, phys + "/./../" + os.path.basename(phys)))
    r.append(("PWD with a link and dots", phys, l2 + "/../" + os.path.basename(phys)))
    ins = os.path.join(top, "lnk%d" % n)
    if not os.path.lexists(ins):
        os.symlink(d or ".", ins)
        r.append(("link inside the working tree", ins, ins))
    gd = outp.s(c.sb.git(top, "rev-parse", "--absolute-git-dir")[:-1])
    both = {"GIT_DIR": gd, "GIT_WORK_TREE": top}
    r.append(("GIT_DIR and GIT_WORK_TREE", phys, phys, both))
    r.append(("GIT_DIR and a link as GIT_WORK_TREE", phys, phys, dict(both, GIT_WORK_TREE=l1)))
    r.append(("GIT_DIR and relative GIT_WORK_TREE", phys, phys, dict(both, GIT_WORK_TREE=os.path.relpath(top, phys))))
    if not d:
        r.append(("GIT_DIR alone", phys, phys, {"GIT_DIR": gd}))
        r.append(("relative GIT_DIR", phys, phys, {"GIT_DIR": os.path.relpath(gd, phys)}))
        if not os.path.exists(os.path.join(top, ".mailmap")) and not os.path.exists(os.path.join(top, "people.map")):
            # (Git doesn't find the mailmap from there)
            r.append(("GIT_DIR, from outside", links, links, both))
    r.append(("git -C", "/", "/", {"-C": phys}))
    r.append(("git -C link", links, links, {"-C": os.path.basename(l2)}))
    r.append(("git --git-dir --work-tree", phys, phys, {"--git-dir": gd, "--work-tree": top}))
    return r


def via(c, cwd, args, more, pwd, **kw):
    """Runs git-who there, directly or as a subcommand of git."""
    opts = [x for k, v in more.items() if k[:1] == "-" for x in ([k, v] if k == "-C" else [k + "=" + v])]
    env = dict({k: v for k, v in more.items() if k[:1] != "-"}, PWD=pwd)
    if not opts:
        return c.who(cwd, *args, env=env, **kw)
    d = c.repo("bin")
    if not os.path.isdir(d):
        os.makedirs(d)
        os.symlink(c.who.binary, os.path.join(d, "git-who"))
    return R.Who(R.GIT, c.sb)(cwd, *opts, "who", *args, env=env, path_prefix=d, **kw)


def rel_paths(rng, w, allp, prefix):
    r = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        x = rng.random()
        p = rng.choice(allp)
        comps = p.split("/")
        q = "/".join(comps[:rng.randint(1, len(comps))])
        if x < 0.6:
            a = os.path.relpath(q, prefix) if prefix else q
            if q != p and rng.random() < 0.2:
                a += "/"
        elif x < 0.7:
            a = os.path.join(w.path, q)
        elif x < 0.85:
            a = rng.choice(["*.go", "*.txt", "f", "*", "*a*", "?.txt"])
        else:
            a = rng.choice([".", "..", "./", "../.." if prefix.count("/") else ".", "main.go", "a"])
        if a.startswith(".."):
            depth = len(prefix.split("/")) if prefix else 0
            if a.split("/").count("..") > depth:
                a = "."
        if rng.random() < 0.3 and a[:1] not in "!^(:/-":
            a = rng.choice([":!", ":^", ":(exclude)"]) + a
        elif a.startswith(":"):
            a = "./" + a
        r.append(a)
    return r


def layout(c, kind):
    """Returns (top level, World)."""
    rng = c.rng
    nm = rng.sample(ODD, rng.randint(3, 8)) + rng.sample(FILES, 3)
    rname = rng.choice(["repo", "re po", "repo ", "répo", "r[e]po*", "-repo", "re\npo"]) if kind == "odd" else "repo"
    p, r = world.make(c, name=rname, **world.small(rng, commits=rng.randint(8, 30), names=nm, depth=rng.randint(2, 4), maxops=6,
                                        kinds=dict(gitgen.Gen.KINDS, add=12, delete=1, submodule=0)))
    if kind == "worktree":
        wt = c.repo("linked wt")
        b = rng.choice([x for x in query.refnames(r)])
        c.sb.git(p, "worktree", "add", "-q", "--detach", wt, b)
        r = model.Repo(c.sb, wt)
        p = wt
    elif kind == "separate":
        c.sb.git(p, "init", "-q", "--separate-git-dir", c.repo("elsewhere.git"))
    return p, query.World(p, r)


def run(c):
    rng = c.rng
    top, w = layout(c, c.desc["kind"])
    allp = [outp.s(x) for x in w.repo.all_paths()]
    if not allp:
        return
    hs = sorted(w.repo.commits)
    # supplementary files that apply everywhere, and some that apply nowhere
    if rng.random() < 0.4:
        w.set_ignore(rng.sample(hs, min(len(hs), 2)))
    ids = sorted({(x.name, x.email) for x in w.repo.commits.values()})
    if rng.random() < 0.5:
        a = rng.choice([i for i in ids if i[1]] or ids)
        data = b"Mapped Person <mapped@x> <" + a[1] + b">\n"
        how = rng.choice([".mailmap", "file", "absfile"])
        if how == ".mailmap":
            w.set_mailmap(data)
        else:
            with open(os.path.join(top, "people.map"), "wb") as f:
                f.write(data)
            c.sb.git(top, "config", "mailmap.file", "people.map" if how == "file" else os.path.join(top, "people.map"))
            w.repo.remap()
    if rng.random() < 0.2:
        c.sb.git(top, "config", "diff.relative", "true")
        c.counts["diff.relative"] += 1
    dirs = sorted({p[:i] for p in map(outp.s, w.repo.worktree()) for i in range(len(p)) if p[i] == "/"})
    dirs = [d for d in dirs if os.path.isdir(os.path.join(top, d)) and not os.path.islink(os.path.join(top, d))]
    dirs = [d for d in dirs if not os.path.exists(os.path.join(top, d, ".git"))]
    # directories that git doesn't track
    extra = []
    gone = sorted({p[:i] for p in allp for i in range(len(p)) if p[i] == "/"} | set(allp))
    for d in rng.sample(gone, min(2, len(gone))) + ["unt racked/deep", "ignored*", "new\nline"]:
        full = os.path.join(top, d)
        if os.path.lexists(full):
            continue
        try:
            os.makedirs(full)
        except OSError:
            continue
        extra.append(d)
    if rng.random() < 0.5:
        with open(os.path.join(top, ".git-info-exclude-unused"), "w") as f:
            f.write("")
    cand = rng.sample(dirs, min(len(dirs), 3)) + rng.sample(extra, min(len(extra), 2)) + [""]
    # decoys
    for d in cand:
        if d and rng.random() < 0.5:
            for f, data in ((".mailmap", b"Decoy <decoy@x> <%s>\n" % ids[0][1]), (".git-blame-ignore-revs", hs[0].encode() + b"\n")):
                if not os.path.lexists(os.path.join(top, d, f)):
                    with open(os.path.join(top, d, f), "wb") as fh:
                        fh.write(data)
    for d in cand:
        ws = ways(c, w, top, d, rng)
        for _ in range(c.desc["queries"]):
            q = query.random_query(rng, w, revs=0.25, filters=0.2, paths=0, ages=False, text=0)
            if any("..." in x for x in q.revs):
                q.revs = []
            q.prefix = d
            q.dashes = True
            if rng.random() < 0.6:
                q.paths = rel_paths(rng, w, allp, d)
            if rng.random() < 0.5:
                q.sub, q.depth = "tree", 0
                if q.mode in ("first", "last"):
                    q.mode = rng.choice(["commits", "lines", "files"])
            if any("\n" in x for x in q.paths) or not all(in_scope(w, q, x) for x in q.paths):
                c.counts["out_of_scope"] += 1
                continue
            if c.sb.git(q.cwd(w), "log", "-1", "--format=%H", "--", *q.paths, check=False).returncode:
                c.counts["not_taken_by_git"] += 1
                continue
            e = q.expect(w)
            first = None
            for what, cwd, pwd, *more in [ws[0]] + rng.sample(ws[1:], c.desc["ways"]):
                res = via(c, cwd, q.args, more[0] if more else {}, pwd, tz=q.tz, cpus=rng.choice([1, 1, 2, 4]), nocache=rng.random() < 0.4)
                c.counts["evaluations"] += 1
                c.counts["way: " + what] += 1
                label = "%s, directory %r" % (what, d)
                if not c.ok(res, label):
                    return
                if first is None:
                    import time
                    bad = q.verify(res.out, e, time.time() - 60, time.time())
                    if bad:
                        c.bads(res, ["%s: %s" % (label, b) for b in bad])
                        return
                    first = res
                elif res.out != first.out:
                    c.bad("output differs when the directory is reached otherwise (%s)" % label, run=res.brief(),
                          stdout=res.out[:1500], direct=first.out[:1500])
                    return
                if q.size(e):
                    c.nontrivial(q.sub, q.mode, what, bool(d), q.paths, d in extra)
            # same answer as at the top level
            if d and q.sub != "tree" and not q.paths:
                res = c.who(top, *q.args, env={"PWD": top}, tz=q.tz, cpus=rng.choice([1, 4]))
                c.counts["evaluations"] += 1
                if not c.ok(res, "top level"):
                    return
                if res.out != first.out:
                    c.bad("output in %r differs from the one at the top level" % d, run=res.brief(), stdout=first.out[:1500],
                          top=res.out[:1500])
                    return
                c.counts["compared_with_top"] += 1
            if d and q.sub != "tree" and q.paths and not any(re.search(r"[*?\[\\]", a) for a in q.paths):
                # ... with the arguments rewritten
                def up(a):
                    m = re.match(r"^(:!|:\^|:\(exclude\))?(.*)$", a, re.S)
                    b = m.group(2)
                    if not os.path.isabs(b):
                        b = os.path.normpath(os.path.join(d, b)) + (
                            "/" if b.endswith("/") or b.split("/")[-1] in (".", "..") else "")
                    if not m.group(1) and b.startswith(":"):
                        b = "./" + b
                    return (":(exclude)" if m.group(1) else "") + b
                ups = [up(a) for a in q.paths]
                # only excludes: git then starts from the current directory
                if all(a.startswith((":!", ":^", ":(exclude)")) for a in ups):
                    ups.append(d if not d.startswith(":") else "./" + d)
                    continue
                if any(re.search(r"[*?\[\\]", a) for a in ups):
                    continue
                a = q.args[:q.args.index("--") + 1] + ups
                res = c.who(top, *a, env={"PWD": top}, tz=q.tz, cpus=rng.choice([1, 4]))
                c.counts["evaluations"] += 1
                if not c.ok(res, "top level"):
                    return
                if res.out != first.out:
                    c.bad("output in %r differs from the one at the top level with paths %r" % (d, ups), run=res.brief(),
                          stdout=first.out[:1500], top=res.out[:1500], here=first.brief())
                    return
                c.counts["compared_with_top_paths"] += 1
    c.sample("%s in %r" % (q.args, d))


def cases():
    if E.TIER == "quick":
        plan, nq, nw = dict(plain=50, odd=20, worktree=8, separate=8), 3, 2
    else:
        plan, nq, nw = dict(plain=400, odd=200, worktree=60, separate=60), 8, 4
    return [dict(seed=E.SEED, kind=k, i=i, queries=nq, ways=nw) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C22", run, cases(), min_nontrivial=60, rule=
        "one evaluation = one command in some directory reached in some way; the direct run is judged by the reference model, the "
        "others by equality with it, and tables and timelines by equality with the top level; non-trivial: the answer isn't empty; "
        "distinct by subcommand, metric, way, kind of directory and path arguments"))
