"""Where things are, what tier and seed we run with, and building git-who from
/repo's current working tree."""
import atexit, fcntl, hashlib, json, os, pathlib, shutil, subprocess, sys, tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
# What this run builds (checks of different trees may run at the same time)
BUILD = VERIF / ".build" / str(os.getpid())
REPLAYS = VERIF / "replays"
EVIDENCE = VERIF / "evidence"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = int(os.environ.get("VERIF_JOBS", "0") or "0") or max(1, min(8, os.cpu_count() or 1))

GO_ENV = dict(
    GOTOOLCHAIN="local", GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off",
    GOWORK="off",
)


class HarnessError(Exception):
    """The check itself could not do its work (never a verdict)."""


def go_env():
    env = dict(os.environ)
    env["HOME"] = env.get("HOME") or "/root"
    godir = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(godir):
        env["PATH"] = godir + ":" + env.get("PATH", "")
    for k in ("GOOS", "GOARCH", "GOWORK"):
        env.pop(k, None)
    env.update(GO_ENV)
    env.setdefault("GOPATH", "/root/go")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


def build(race=False):
    """Builds git-who from the current working tree of /repo. Returns the path
    to the executable."""
    BUILD.mkdir(parents=True, exist_ok=True)
    out = BUILD / ("git-who-race" if race else "git-who")
    tmp = BUILD / (out.name + ".%d" % os.getpid())
    cmd = ["go", "build", "-o", str(tmp)]
    if race:
        cmd.insert(2, "-race")
    cmd.append(".")
    env = go_env()
    if race:
        env["CGO_ENABLED"] = "1"
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if r.returncode != 0:
        raise HarnessError("go build failed:\n" + r.stdout.decode(errors="replace")[-4000:])
    os.replace(tmp, out)
    return str(out)


def build_go_harness(name, race=False):
    """Builds /verif/harness/<name>/*.go as package main inside /repo's module
    (via an overlay, so that it may import internal packages). Returns path to
    the executable, or raises HarnessError."""
    BUILD.mkdir(parents=True, exist_ok=True)
    src = VERIF / "harness" / name
    files = sorted(p for p in src.glob("*.go"))
    virt = REPO / "internal" / ("verif_" + name)
    overlay = {"Replace": {str(virt / p.name): str(p) for p in files}}
    ov = BUILD / ("overlay-%s-%d.json" % (name, os.getpid()))
    ov.write_text(json.dumps(overlay))
    out = BUILD / (name + ("-race" if race else ""))
    tmp = BUILD / (out.name + ".%d" % os.getpid())
    cmd = ["go", "build", "-overlay", str(ov), "-o", str(tmp)]
    if race:
        cmd.insert(2, "-race")
    cmd.append("./internal/verif_" + name)
    env = go_env()
    if race:
        env["CGO_ENABLED"] = "1"
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    ov.unlink()
    if r.returncode != 0:
        raise HarnessError("go build of harness failed:\n" + r.stdout.decode(errors="replace")[-4000:])
    os.replace(tmp, out)
    return str(out)


def _clean_builds():
    """Leaves no builds of runs that have ended."""
    try:
        names = os.listdir(BUILD.parent)
    except OSError:
        return
    for n in names:
        if n == str(os.getpid()) or not n.isdigit() or not os.path.isdir("/proc/" + n):
            p = str(BUILD.parent / n)
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                pathlib.Path(p).unlink(missing_ok=True)


def _builder():
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and _clean_builds())


_builder()
_scratch = None


def scratch():
    """A scratch directory of this run, removed when it ends."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vh-")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid and _scratch:
                subprocess.run(["chmod", "-R", "u+rwX", _scratch],
                               stderr=subprocess.DEVNULL)
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch
