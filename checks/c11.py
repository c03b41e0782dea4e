"""C11: ignored revisions are skipped everywhere, and nothing else is."""
import os, sys
from vh import check, env as E, gitgen, model, outp, query, world

COMMENTS = [b"# a comment", b"#", b"#%s", b"  # indented", b"\t#x", b"## %s", b"#" + b"long " * 300, b"# " + b"very long " * 7000]


def layout(rng, hashes, others):
    """An ignore file naming exactly `hashes` (a list). others: hashes that are
    only mentioned in comments."""
    out = bytearray()
    crlf = rng.random() < 0.15

    def nl():
        return b"\r\n" if crlf else b"\n"

    hs = list(hashes)
    for h in hashes:
        if rng.random() < 0.1:
            hs.append(h)  # twice
    rng.shuffle(hs)
    noise = rng.choice([0, 0.3, 0.7])
    for h in hs:
        while rng.random() < noise * 0.5:
            o = rng.choice(others).encode() if others else b"x"
            out += rng.choice(COMMENTS).replace(b"%s", o) + nl()
        if rng.random() < noise * 0.4:
            out += rng.choice([b"", b"   ", b"\t"]) + nl()
        b = h.encode()
        if rng.random() < noise * 0.4:
            b = rng.choice([b.upper(), b[:20].upper() + b[20:]])
        if rng.random() < noise * 0.5:
            b = rng.choice([b" ", b"\t", b"    "]) + b
        x = rng.random()
        if x < noise * 0.3:
            b += rng.choice([b" ", b"\t", b"  \t "])
        elif x < noise * 0.6:
            b += rng.choice([b" # why", b"# tight", b"\t# see " + (rng.choice(others).encode() if others else b"")])
        out += b + nl()
    if rng.random() < 0.3 and out:
        while out and out[-1:] in (b"\n", b"\r"):
            del out[-1:]
    return bytes(out)


def odd(c, w, f):
    """Something other than a file is there. That names no commit; being told
    that it can't be read is fine too, but not a made-up answer."""
    rng = c.rng
    if os.path.lexists(f):
        os.unlink(f)
    what = rng.choice(["directory", "directory", "dangling link", "loop", "link to a directory"])
    if what == "directory":
        os.mkdir(f)
    else:
        os.symlink({"dangling link": "nowhere", "loop": os.path.basename(f), "link to a directory": ".git"}[what], f)
    w.ignore = []
    try:
        for sub, modes in (("table", ["lines", "files"]), ("table", ["commits", "last", "first"]), ("tree", world.TABLE_MODES),
                           ("hist", ["lines", "files"]), ("hist", ["commits"])):
            q = query.Query(sub, rng.choice(modes))
            e = q.expect(w)
            t0 = world.now()
            res = c.who(w.path, *q.args, cpus=rng.choice([1, 2, 4, 8]))
            c.counts["evaluations"] += 1
            c.counts["no_file_there"] += 1
            what2 = "a %s for an ignore file" % what
            if res.hang or res.panicked:
                c.ok(res, what2)
                return False
            if res.rc:
                c.counts["no_file_there_refused"] += 1
                if res.out or not res.err.strip():
                    c.bad("%s: failed with output, or without an error message" % what2, run=res.brief())
                    return False
            else:
                bad = q.verify(res.out, e, t0, world.now())
                if bad:
                    c.bads(res, ["%s: %s" % (what2, b) for b in bad])
                    return False
    finally:
        os.rmdir(f) if what == "directory" else os.unlink(f)
    return True


def run(c):
    rng = c.rng
    kind = c.desc["kind"]
    sha256 = kind == "sha256"
    if kind == "big":
        p, r = world.linear(c, c.desc["n"], nauthors=6, merges_every=rng.choice([0, 6]))
    else:
        o = world.small(rng, commits=rng.randint(5, 30), depth=2, authors=world.authors(rng, rng.randint(2, 5)))
        if sha256:
            o["kinds"] = dict(gitgen.Gen.KINDS, submodule=0)
        p, r = world.make(c, sha256=sha256, **o)
    w = query.World(p, r)
    f = os.path.join(p, ".git-blame-ignore-revs")
    hs = sorted(r.commits)
    sel = r.select(["HEAD"])
    ign = []
    for i in range(c.desc["steps"]):
        k = rng.choice(["set", "set", "set", "remove", "drop", "add", "all", "many", "empty", "unknown", "elsewhere"])
        if k == "set":
            ign = rng.sample(hs, min(len(hs), rng.choice([1, 1, 2, 5])))
        elif k == "many":
            ign = rng.sample(hs, len(hs) * 2 // 3)
        elif k == "all":
            ign = list(hs)
        elif k == "remove":
            ign = []
        elif k == "drop" and ign:
            ign = ign[:-1]
        elif k == "add":
            ign = list(dict.fromkeys(ign + rng.sample(sel, 1)))
        if kind == "small" and rng.random() < 0.06 and not odd(c, w, f):
            return
        w.ignore = list(ign)
        names = list(ign)
        if k == "unknown" or rng.random() < 0.2:
            # commits that are no longer there, and near misses
            h = rng.choice(hs)
            names.append("".join(rng.choice("0123456789abcdef") for _ in h))
            names.append(h[:-1] + ("0" if h[-1] != "0" else "1"))
            names = [n for n in names if n in ign or n not in r.commits]
        if os.path.lexists(f):
            os.unlink(f)
        if names or k == "empty" or rng.random() < 0.5:
            data = layout(rng, names, [h for h in hs if h not in ign])
            if k == "empty" and not names:
                data = rng.choice([b"", b"\n", b"# nothing\n"])
            to = f
            if rng.random() < 0.1:
                to = os.path.join(c.dir, "ign")
                os.symlink(to, f)
            with open(to, "wb") as fh:
                fh.write(data)
        if k == "elsewhere":
            # a file of that name anywhere else means nothing
            for d in sorted(os.listdir(p)):
                if d != ".git" and os.path.isdir(os.path.join(p, d)) and not os.path.islink(os.path.join(p, d)):
                    with open(os.path.join(p, d, ".git-blame-ignore-revs"), "w") as fh:
                        fh.write("\n".join(rng.sample(hs, 1)) + "\n")
        c.counts["ignore_files"] += 1
        # git itself has to take the file
        if os.path.exists(f) and i == 0 and kind != "big":
            some = [outp.s(x) for x in sorted(r.worktree()) if os.path.isfile(os.path.join(p, outp.s(x))) and not os.path.islink(os.path.join(p, outp.s(x)))]
            if some:
                b = c.sb.git(p, "blame", "-p", "--ignore-revs-file", f, "--", some[0], check=False)
                if b.returncode == 0:
                    c.counts["files_accepted_by_git_blame"] += 1
                elif b"invalid object" in b.stderr or b"not " in b.stderr and b"name" in b.stderr:
                    raise E.HarnessError("git blame refuses the file: %r" % b.stderr)
        for j in range(c.desc["queries"]):
            q = query.random_query(rng, w, revs=0.3, filters=0.15, paths=0.2, prefix=0.2, merges=0.5)
            e = q.expect(w)
            if q.run(c, w, e, "ignoring %d (%s)" % (len(ign), k), cpus=rng.choice([1, 2, 4, 8]), nocache=rng.random() < 0.3) is None:
                return
            skipped = len(q_all(q, w)) - len(e["commits"])
            c.counts["commits_skipped"] += skipped
            if kind != "big" and rng.random() < 0.15 and not query.listed(c, w, q):
                return
            c.counts["commits_counted"] += len(e["commits"])
            if skipped:
                c.nontrivial(q.sub, q.mode, skipped, len(e["commits"]), k)
    c.sample("%s: %d of %d commits ignored" % (kind, len(ign), len(hs)))


def q_all(q, w):
    ig, w.ignore = w.ignore, []
    try:
        return q.selection(w)
    finally:
        w.ignore = ig


def cases():
    if E.TIER == "quick":
        plan, steps, nq, bigs = dict(small=80, sha256=12), 6, 3, [1300]
    else:
        plan, steps, nq, bigs = dict(small=500, sha256=60), 14, 6, [1023, 1500, 2049, 3000]
    return [dict(seed=E.SEED, kind="big", i=i, n=n, steps=steps, queries=nq) for i, n in enumerate(bigs)] + \
        [dict(seed=E.SEED, kind=k, i=i, steps=steps, queries=nq) for k, n in plan.items() for i in range(n)]


if __name__ == "__main__":
    sys.exit(check.main("C11", run, cases(), min_nontrivial=40, rule=
        "one evaluation = one command while some .git-blame-ignore-revs file is in effect, between edits of it, judged by totals over "
        "the other commits; non-trivial: the selection contains an ignored commit; distinct by subcommand, mode, ignored and counted commits"))
