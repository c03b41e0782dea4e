#!/usr/bin/env python3
"""Confirm planted bugs in seeded/ and try the checks on them.

    tools/plant.py verify ID...      patch applies, builds, tests pass, changes only
                                     original lines, demo 0 without and nonzero with it
    tools/plant.py catch ID...       run the property's own check on the patched copy
    tools/plant.py catch --with C03 ID...   run another check

Everything happens in scratch copies of /repo, which are removed.  No check
reads this file or seeded/.
"""
import json, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ORIG = "b9fda2c"


def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def copy():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", REPO, r], check=True)
    return d, r


def build(r):
    return sh(". /opt/vp/env.sh >/dev/null 2>&1; cd %s && go build ./... && go build -o git-who ." % r, r)


def origin(r, patch):
    """Lines the patch removes that are not from the original repository."""
    bad, total, cur, old = [], 0, None, 0
    for l in open(patch, errors="replace"):
        if l.startswith("--- a/"):
            cur = l[6:].strip()
        elif l.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            total += 1
            b = sh("git blame -s -L %d,%d HEAD -- %s" % (old, old, cur), r).stdout
            if ORIG not in b:
                bad.append(b.strip())
            old += 1
        elif l.startswith(" ") or l == "\n":
            old += 1
    return total, bad


def verify(ident):
    s = os.path.join(ROOT, "seeded", ident)
    patch = os.path.join(s, "patch.diff")
    json.load(open(os.path.join(s, "meta.json")))
    d, r = copy()
    try:
        # the demonstration lies elsewhere when it counts
        demo = os.path.join(d, "elsewhere")
        shutil.copytree(s, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        total, bad = origin(r, patch)
        msg = []
        if not total:
            msg.append("removes no line")
        if bad:
            msg.append("touches lines that are not original: %s" % bad)
        p = build(r)
        if p.returncode:
            return "clean build failed: " + p.stdout
        p = sh("bash %s/demo.sh" % demo, r, timeout=300)
        if p.returncode:
            return "demo fails on the clean tree:\n" + p.stdout[-2000:]
        p = sh("git apply %s" % patch, r)
        if p.returncode:
            return "does not apply: " + p.stdout
        p = build(r)
        if p.returncode:
            return "patched build failed: " + p.stdout
        p = sh(". /opt/vp/env.sh >/dev/null 2>&1; cd %s && gofmt -l internal main.go; go vet ./internal/... && go test -count=1 ./internal/..." % r, r)
        if p.returncode:
            return "tests fail:\n" + "\n".join(x for x in p.stdout.split("\n") if "no test files" not in x)[-2500:]
        p = sh("bash %s/demo.sh" % demo, r, timeout=300)
        if p.returncode == 0:
            return "demo passes on the patched tree:\n" + p.stdout[-2000:]
        left = sh("git status --short", r).stdout
        return "; ".join(msg)
    finally:
        shutil.rmtree(d)


def catch(ident, with_=None, tier="quick"):
    s = os.path.join(ROOT, "seeded", ident)
    prop = with_ or json.load(open(os.path.join(s, "meta.json")))["property"]
    d, r = copy()
    try:
        p = sh("git apply %s/patch.diff" % s, r)
        if p.returncode:
            return prop, "does not apply"
        env = dict(os.environ, VERIF_REPO=r)
        p = sh("./check.sh %s %s" % (prop, tier), ROOT, env=env)
        v = [l for l in p.stdout.split("\n") if l.startswith("VIOLATION")]
        return prop, "rc=%d %s" % (p.returncode, v[:1] or p.stdout.strip().split("\n")[-3:])
    finally:
        shutil.rmtree(d)


def main(a):
    act, a = a[0], a[1:]
    with_ = None
    if a and a[0] == "--with":
        with_, a = a[1], a[2:]
    ids = a or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    rc = 0
    for i in ids:
        if act == "verify":
            m = verify(i)
            print(i, "ok" if not m else "BAD: " + m, flush=True)
            rc |= bool(m)
        else:
            print(i, *catch(i, with_), flush=True)
    return rc


sys.exit(main(sys.argv[1:]))
