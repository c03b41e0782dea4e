"""C26: showing progress never alters what ends up on the screen."""
import fcntl, os, pty, re, struct, subprocess, sys, termios, time
from vh import check, env as E, gitgen, model, outp, query, run as R, shim, world

COLS = 1000


class Odd(Exception):
    pass


def screen(data):
    """What a (very wide and tall) terminal shows after data: lines of
    (character, rendition)."""
    t = data.decode("utf-8", "surrogateescape")
    lines, y, x = [[]], 0, 0
    sgr = ()
    i = 0
    seen = dict(erases=0, updates=0, cr=0, widest=0)
    while i < len(t):
        ch = t[i]
        if ch == "\x1b":
            m = re.compile(r"\x1b\[([0-9;?]*)([A-Za-z])").match(t, i)
            if not m:
                raise Odd("escape sequence %r" % t[i:i + 8])
            i = m.end()
            a, k = m.group(1), m.group(2)
            if k == "m":
                for v in (a or "0").split(";"):
                    v = int(v or 0)
                    if v == 0:
                        sgr = ()
                    elif v == 39:
                        sgr = tuple(s for s in sgr if not 30 <= s <= 37)
                    elif v == 22:
                        sgr = tuple(s for s in sgr if s not in (1, 2))
                    elif v == 27:
                        sgr = tuple(s for s in sgr if s != 7)
                    elif 30 <= v <= 37:
                        sgr = tuple(s for s in sgr if not 30 <= s <= 37) + (v,)
                    else:
                        sgr = tuple(s for s in sgr if s != v) + (v,)
            elif k == "K":
                seen["erases"] += 1
                # one erasure only erases a line that isn't broken
                seen["widest"] = max(seen["widest"], len(lines[y]))
                n = int(a or 0)
                if n == 2:
                    lines[y] = []
                elif n == 0:
                    del lines[y][x:]
                else:
                    lines[y][:x] = [(" ", ())] * min(x, len(lines[y]))
            elif k == "J":
                n = int(a or 0)
                if n == 0:
                    del lines[y][x:]
                    del lines[y + 1:]
                else:
                    raise Odd("clears the screen")
            elif k == "G":
                x = int(a or 1) - 1
            elif k == "A":
                y = max(0, y - int(a or 1))
            elif k == "B":
                y += int(a or 1)
            elif k == "C":
                x += int(a or 1)
            elif k == "D":
                x = max(0, x - int(a or 1))
            elif k in "hl":
                pass
            else:
                raise Odd("escape sequence %r" % m.group(0))
            while y >= len(lines):
                lines.append([])
            continue
        if ch == "\r":
            seen["cr"] += 1
            x = 0
        elif ch == "\n":
            y += 1
            while y >= len(lines):
                lines.append([])
        elif ch == "\b":
            x = max(0, x - 1)
        else:
            l = lines[y]
            while len(l) < x:
                l.append((" ", ()))
            l[x:x + 1] = [(ch, sgr)]
            x += 1
            if ch == "%":
                seen["updates"] += 1
        i += 1
    # blanks at the end of a line can't be seen
    for l in lines:
        while l and l[-1] == (" ", ()):
            l.pop()
    while lines and not lines[-1]:
        lines.pop()
    return lines, x, sgr, seen


def on_tty(c, argv, cwd, e, err_too=True):
    """Runs argv on a pseudo-terminal."""
    m, s = pty.openpty()
    fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 60, COLS, 0, 0))
    p = subprocess.Popen(argv, cwd=cwd, env=e, stdin=s, stdout=s, stderr=s if err_too else subprocess.PIPE, start_new_session=True)
    os.close(s)
    out, err = bytearray(), bytearray()
    f = os.fdopen(m, "rb", buffering=0)
    bufs = {f: out}
    if not err_too:
        bufs[p.stderr] = err
    v = R.wait_watched(p, bufs)
    f.close()
    if not err_too:
        p.stderr.close()
    if v == "inconclusive":
        raise E.HarnessError("inconclusive")
    c.who.runs += 1
    return R.Result(p.returncode, bytes(out), bytes(err), v, argv[1:], cwd)


def progress(data):
    """What is wrong with the numbers shown on the way?"""
    last, total = (-1, -1), None
    for pct, a, b in re.findall(rb"(\d+)% \(([\d,]+)/([\d,]+) commits\)", data):
        pct, a, b = int(pct), int(a.replace(b",", b"")), int(b.replace(b",", b""))
        if pct > 100 or a > b or total not in (None, b):
            return "progress of %d%%, %d of %d commits" % (pct, a, b)
        if (pct, a) < last or a < last[1]:
            return "progress goes back from %d%%, %d to %d%%, %d" % (*last, pct, a)
        last, total = (pct, a), b
    return ""


def show(lines):
    return "\n".join("".join(ch for ch, _ in l) for l in lines)


def quiet(data):
    """Progress or erasing in what should be plain output?"""
    bad = []
    if re.search(rb"\x1b\[[0-9;]*[JKGABCDsu]", data) or b"\r" in data or b"\b" in data:
        bad.append("erase or cursor sequence on something that isn't a terminal")
    if re.search(rb"\d+% \(", data):
        bad.append("progress text on something that isn't a terminal")
    return bad


def run(c):
    rng = c.rng
    n = c.desc["n"]
    p, r = world.linear(c, n, authors_=world.authors(rng, 4), merges_every=rng.choice([0, 4]), checkout=True, end=1_500_000_000,
                        span=2000 * 86400)
    w = query.World(p, r)
    if rng.random() < 0.3:
        w.set_ignore(rng.sample(sorted(r.commits), rng.choice([1, 5])))
    sh = shim.Shim(c)
    for i in range(c.desc["queries"]):
        q = query.random_query(rng, w, subs=("table", "tree", "hist"), revs=0.1, filters=0.08, paths=0.1, text=0.5, tz=False)
        if q.mode == "commits" and q.sub != "tree" and rng.random() < 0.9:
            q.mode = rng.choice(["lines", "files"])
        if q.sub == "table" and rng.random() < 0.7:
            q.limit = 10
        cpus = rng.choice([1, 2, 2, 2, 2, 2, 3, 3, 4, 8])
        warm = rng.choice(["cold", "cold", "cold", "disabled", "disabled", "warm", "part"])
        fail = rng.random() < c.desc.get("fail", 0.15)
        rules = []
        if rng.random() < 0.5:
            rules.append("stdin:*:rdelay:%d" % rng.choice([5, 30, 80]))
        if rng.random() < 0.2:
            rules.append("stdin:%d:delay:%d" % (rng.randint(1, 3), 150))
        if fail:
            k = max(1, n // 1024)
            rules.append("stdin:%d:%s" % (rng.randint(1, k), rng.choice(["fail:128", "after:1", "trunc:4000:1", "sig:3000:9"])))
        rules = ";".join(rules)
        seed = rng.randrange(1 << 30)

        def prepare():
            import shutil
            shutil.rmtree(c.sb.cache, ignore_errors=True)
            if warm == "warm":
                c.who(p, "table", "-l", cpus=4)
            elif warm == "part":
                c.who(p, "table", "-l", "main~%d" % (n // 2 if n > 4500 else n - 200), cpus=4)

        def environ():
            k = sh.kw(rules, seed)
            e = c.sb.whoenv()
            e["GOMAXPROCS"] = str(cpus)
            if warm == "disabled":
                e["GIT_WHO_DISABLE_CACHE"] = "1"
            e.update(k["env"])
            e["PATH"] = k["path_prefix"] + ":" + e["PATH"]
            return e

        argv = [c.bin["plain"], *q.args]
        # to a pipe
        prepare()
        res0 = R.execute(argv, q.cwd(w), environ())
        c.counts["evaluations"] += 1
        if res0.hang or res0.panicked:
            c.ok(res0, "not on a terminal")
            return
        bad = quiet(res0.out)
        if bad:
            c.bads(res0, bad)
            return
        # to a pipe, with the rest on a terminal; to a file
        prepare()
        m, s = pty.openpty()
        try:
            o = os.path.join(c.dir, "out")
            with open(o, "wb") as fh:
                pr = subprocess.Popen(argv, cwd=q.cwd(w), env=environ(), stdin=s, stdout=fh, stderr=s)
                os.close(s)
                e2 = bytearray()
                f = os.fdopen(m, "rb", buffering=0)
                v = R.wait_watched(pr, {f: e2})
                f.close()
            got = open(o, "rb").read()
        finally:
            pass
        c.counts["evaluations"] += 1
        if v:
            c.bad("hangs with stdout in a file (%s)" % v)
            return
        bad = quiet(got)
        if got != res0.out and not fail and not q.ages():
            bad.append("output to a file differs from output to a pipe")
        if bad:
            c.bad("; ".join(bad), args=argv[1:], stdout=got[:1500], pipe=res0.out[:1500])
            return
        # on the terminal
        for _ in range(2):
            prepare()
            err_too = rng.random() < 0.7
            res = on_tty(c, argv, q.cwd(w), environ(), err_too)
            c.counts["evaluations"] += 1
            if res.hang or res.panicked:
                c.ok(res, "on a terminal")
                return
            try:
                lines, x, sgr, seen = screen(res.out)
                want, wx, wsgr, _ = screen((res0.out + (res0.err if err_too else b"")).replace(b"\n", b"\r\n"))
            except Odd as ex:
                c.bad("on a terminal: %s" % ex, run=res.brief(), stdout=res.out[:1500])
                return
            c.counts["screens_compared"] += 1
            c.counts["erases"] += seen["erases"]
            c.counts["progress_updates"] += seen["updates"]
            c.counts["with_progress"] += seen["erases"] > 0
            if seen["widest"] >= 80:
                c.bad("progress of %d characters can't be erased from a terminal of 80 columns" % seen["widest"], run=res.brief(), stdout=res.out[:1500])
                return
            wrong = progress(res.out)
            if wrong:
                c.bad(wrong, run=res.brief(), stdout=res.out[:1500])
                return
            if fail:
                c.counts["failing_runs"] += 1
                if (res.rc == 0) != (res0.rc == 0):
                    # which of the failing commands comes first is a matter of luck
                    c.counts["failed_differently"] += 1
                    continue
                if res.rc:
                    # The complaint names the worker, so only look for leftovers
                    left = [l for l in show(lines).split("\n") if re.search(r"\d+% \(", l)]
                    if left:
                        c.bad("progress is left on the screen when git-who fails", run=res.brief(), stdout=res.out[:1500], screen=show(lines)[:1500])
                        return
                    if seen["erases"]:
                        c.nontrivial("fail", q.sub, q.mode, cpus, warm, rules)
                    continue
            if res.rc != res0.rc:
                c.bad("status %r on a terminal, %r otherwise" % (res.rc, res0.rc), run=res.brief(), stdout=res.out[:1500])
                return
            if lines != want:
                k = next((k for k in range(max(len(lines), len(want))) if lines[k:k + 1] != want[k:k + 1]), 0)
                if q.ages() and show(lines) != show(want) and re.sub(r"\d+ (sec|min|hour|day|week|mon|year|hr)\w*", "", show(lines)) == \
                        re.sub(r"\d+ (sec|min|hour|day|week|mon|year|hr)\w*", "", show(want)):
                    c.counts["ages_moved"] += 1
                    continue
                c.bad("screen differs from the output not on a terminal, line %d: %r / %r" % (
                    k + 1, show(lines[k:k + 1])[:200], show(want[k:k + 1])[:200]), run=res.brief(), stdout=res.out[:2000], pipe=res0.out[:2000])
                return
            if x != wx or sgr != wsgr:
                c.bad("cursor or colours are left elsewhere: column %d %r, want %d %r" % (x, sgr, wx, wsgr), run=res.brief(),
                      stdout=res.out[-500:])
                return
            if seen["erases"]:
                ups = tuple(re.findall(rb"(\d+)% \(", res.out))
                c.nontrivial(q.sub, q.mode, cpus, warm, ups, bool(q.paths))
    c.sample("%d commits, GOMAXPROCS=%d, cache %s: %s, %d updates" % (n, cpus, warm, q.args, seen["updates"]))


def cases():
    if E.TIER == "quick":
        sizes, nq = [10, 1024, 2047, 2048, 2049, 2500, 3000, 3072, 3500, 4096, 4500, 5000, 6200, 6300] * 2, 8
    else:
        sizes, nq = ([10, 1023, 1024, 2047, 2048, 2049, 3071, 3072, 3500, 4096, 5000, 6200, 8192, 9000, 12000, 20000]) * 4, 25
    return [dict(seed=E.SEED, i=i, n=n, queries=nq) for i, n in sorted(enumerate(sizes), key=lambda x: -x[1])]


if __name__ == "__main__":
    sys.exit(check.main("C26", run, cases(), min_nontrivial=10, pre=shim.pre, rule=
        "one evaluation = one run whose output goes to a pipe, a file or a pseudo-terminal; what a terminal emulator shows at the end is "
        "compared with what the pipe got; non-trivial: progress was displayed; distinct by subcommand, metric, CPUs, cache and the "
        "sequence of percentages", assumptions=["the terminal has at least 80 columns"]))
