"""Running git-who (and git) in an isolated environment, under a watchdog that
decides on the state of the process tree rather than on elapsed time."""
import os, select, signal, subprocess, time

from . import env as E

GIT = "git"


class Sandbox:
    """HOME, cache, git configuration and environment of a set of runs."""

    def __init__(self, root):
        self.root = root
        self.home = os.path.join(root, "home")
        self.cache = os.path.join(root, "cache")
        self.tmp = os.path.join(root, "tmp")
        os.makedirs(self.home, exist_ok=True)
        os.makedirs(self.tmp, exist_ok=True)
        self.gitconfig = os.path.join(self.home, ".gitconfig")
        with open(self.gitconfig, "w") as f:
            f.write("[user]\n\tname = Nobody\n\temail = nobody@example.com\n"
                    "[init]\n\tdefaultBranch = main\n"
                    "[safe]\n\tdirectory = *\n"
                    "[gc]\n\tauto = 0\n"
                    "[core]\n\tfsync = none\n\tquotePath = true\n"
                    "[protocol \"file\"]\n\tallow = always\n"
                    "[advice]\n\tdetachedHead = false\n")
        self.env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": self.home,
            "XDG_CACHE_HOME": self.cache,
            "TMPDIR": self.tmp,
            "GIT_CONFIG_NOSYSTEM": "1",
            "GIT_CONFIG_GLOBAL": self.gitconfig,
            "GIT_TERMINAL_PROMPT": "0",
            "LC_ALL": "C.UTF-8",
            "TZ": "UTC",
            "NO_COLOR_UNUSED": "1",
        }

    # -- settings of git that are about its own output ------------------------
    # None of these may change what git-who prints.
    DISPLAY = [("log.follow", "true"), ("log.follow", "true"), ("log.showRoot", "false"), ("log.showRoot", "false"),
               ("log.showSignature", "true"), ("log.date", "iso"), ("log.abbrevCommit", "true"), ("log.decorate", "full"),
               ("log.mailmap", "false"), ("log.diffMerges", "first-parent"), ("log.diffMerges", "combined"),
               ("color.ui", "always"), ("color.diff", "always"), ("column.ui", "always"),
               ("format.pretty", "oneline"), ("format.pretty", "format:%an%x00%H"), ("format.notes", "true"),
               ("core.quotePath", "false"), ("core.abbrev", "4"), ("core.abbrev", "no"), ("core.pager", "false"), ("pager.log", "false"),
               ("core.warnAmbiguousRefs", "false"),
               ("diff.external", "false"), ("diff.noprefix", "true"), ("diff.mnemonicPrefix", "true"), ("diff.relative", "true"),
               ("diff.dirstat", "lines"), ("diff.submodule", "log"), ("diff.wordRegex", "."), ("diff.statNameWidth", "9"),
               ("diff.orderFile", "/dev/null"), ("diff.context", "0"), ("diff.interHunkContext", "9"),
               ("notes.displayRef", "*"), ("submodule.recurse", "true"), ("status.relativePaths", "false"),
               ("blame.ignoreRevsFile", "/dev/null"), ("grep.fullName", "true"), ("advice.pushFetchFirst", "false")]

    noise = {}

    def make_noise(self, rng, locale):
        """Has git-who (and not the harness) run under some such settings, and
        maybe a locale. (The latter matters to git's regular expressions.)"""
        sets = rng.sample(self.DISPLAY, rng.choice([1, 1, 2, 3, 5]))
        f = os.path.join(self.root, "userconfig")
        with open(f, "w") as fh:
            fh.write("[include]\n\tpath = %s\n" % self.gitconfig)
            for k, v in sets:
                s, n = k.split(".", 1)
                fh.write("[%s]\n\t%s = \"%s\"\n" % (s, n, v))
        self.noise = {"GIT_CONFIG_GLOBAL": f}
        lang = rng.choice([None, None, "ja_JP.UTF-8", "zh_CN.UTF-8", "de_DE.UTF-8", "C"])
        if lang and locale:
            self.noise.update(LC_ALL=lang, LANG=lang)
        return sets, lang

    def whoenv(self, **more):
        return dict(self.env, **self.noise, **more)

    def git(self, cwd, *args, input=None, check=True, env=None):
        e = dict(self.env)
        if env:
            e.update(env)
        r = subprocess.run([GIT, *args], cwd=cwd, env=e, input=input,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           stdin=subprocess.DEVNULL if input is None else None)
        if check and r.returncode != 0:
            raise E.HarnessError("git %s failed: %s" % (
                args, r.stderr.decode(errors="replace")[-2000:]))
        return r.stdout if check else r


class Result:
    __slots__ = ("rc", "out", "err", "hang", "args", "cwd", "extra")

    def __init__(self, rc, out, err, hang, args, cwd):
        self.rc, self.out, self.err, self.hang = rc, out, err, hang
        self.args, self.cwd = args, cwd
        self.extra = None

    @property
    def panicked(self):
        return (b"panic:" in self.err and b"goroutine " in self.err) or \
            b"fatal error: " in self.err and b"goroutine " in self.err

    def brief(self):
        s = "args=%r rc=%r" % (self.args, self.rc)
        if self.hang:
            s += " hang=%s" % self.hang
        if self.err:
            s += " stderr=%r" % self.err[-600:]
        return s


CLK = os.sysconf("SC_CLK_TCK")
# A process tree is taken to be stuck if none of its threads has used any CPU
# or become runnable for this long ...
IDLE_LIMIT = 25.0
# ... and to be livelocked if it has used this much CPU.
CPU_LIMIT = 150.0
# Otherwise give up (inconclusive) after this.
WALL_LIMIT = 400.0


def _children(pid):
    kids = []
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            with open("/proc/%d/task/%s/children" % (pid, t)) as f:
                kids += [int(x) for x in f.read().split()]
    except (OSError, ValueError):
        pass
    return kids


def _tree(pid):
    todo, seen = [pid], []
    while todo:
        p = todo.pop()
        seen.append(p)
        todo += _children(p)
    return seen


def _snapshot(pid):
    """(total CPU ticks, any thread runnable or in disk wait, pids)"""
    total, busy = 0, False
    pids = _tree(pid)
    for p in pids:
        try:
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/stat" % (p, t), "rb") as f:
                    s = f.read()
                rest = s[s.rindex(b")") + 2:].split()
                if rest[0] in (b"R", b"D"):
                    busy = True
                total += int(rest[11]) + int(rest[12])
        except (OSError, ValueError, IndexError):
            busy = True  # something is going on
    return total, busy, tuple(sorted(pids))


def kill_tree(pid):
    for p in reversed(_tree(pid)):
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


def wait_watched(proc, bufs, idle=IDLE_LIMIT, cpu=CPU_LIMIT, wall=WALL_LIMIT,
                 on_poll=None):
    """Collects output of proc until it ends. bufs maps file objects to
    bytearrays. Returns None, "blocked", "spinning" or "inconclusive"."""
    fds = {f.fileno(): (f, b) for f, b in bufs.items()}
    start = time.monotonic()
    last_change = start
    next_poll = start + 1.0
    prev = None
    verdict = None
    killed_at = None
    while fds:
        r, _, _ = select.select(list(fds), [], [], 0.25)
        now = time.monotonic()
        for fd in r:
            try:
                d = os.read(fd, 65536)
            except OSError:
                d = b""
            if d:
                fds[fd][1].extend(d)
                last_change = now
            else:
                del fds[fd]
        if on_poll:
            on_poll()
        if killed_at and now - killed_at > 5:
            break  # someone else holds the pipes open
        if proc.poll() is not None and killed_at is None and not r:
            # The program ended but someone (an orphaned git) still holds the
            # pipe; give it some time and then let go.
            if now - last_change > 5:
                break
        if now < next_poll:
            continue
        next_poll = now + 0.5
        if killed_at:
            continue
        if proc.poll() is None:
            total, busy, pids = _snapshot(proc.pid)
            cur = (total, pids)
            if busy or cur != prev:
                last_change = now
                prev = cur
            if now - last_change > idle:
                verdict = "blocked"
            elif total > cpu * CLK:
                verdict = "spinning"
            elif now - start > wall:
                verdict = "inconclusive"
            if verdict:
                kill_tree(proc.pid)
                killed_at = now
    try:
        proc.wait(timeout=10)
    except subprocess.TimeoutExpired:
        kill_tree(proc.pid)
        proc.wait()
    return verdict


def execute(argv, cwd, env, idle=IDLE_LIMIT, cpu=CPU_LIMIT, wall=WALL_LIMIT,
            on_start=None, on_poll=None, preexec_fn=None):
    p = subprocess.Popen(argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=preexec_fn)
    if on_start:
        on_start(p)
    out, err = bytearray(), bytearray()
    v = wait_watched(p, {p.stdout: out, p.stderr: err}, idle, cpu, wall, on_poll)
    p.stdout.close()
    p.stderr.close()
    if v == "inconclusive":
        raise E.HarnessError("inconclusive: %r used its wall-clock allowance" % (argv,))
    return Result(p.returncode, bytes(out), bytes(err), v, argv[1:], cwd)


class Who:
    """Runs one git-who executable in one sandbox."""

    def __init__(self, binary, sb):
        self.binary, self.sb = binary, sb
        self.runs = 0

    def __call__(self, cwd, *args, cpus=None, nocache=False, tz=None, env=None,
                 path_prefix=None, **kw):
        e = self.sb.whoenv()
        if cpus:
            e["GOMAXPROCS"] = str(cpus)
        if nocache:
            e["GIT_WHO_DISABLE_CACHE"] = "1"
        if tz:
            e["TZ"] = tz
        if path_prefix:
            e["PATH"] = path_prefix + ":" + e["PATH"]
        if env:
            e.update(env)
        for k in [k for k, v in e.items() if v is None]:
            del e[k]
        self.runs += 1
        return execute([self.binary, *args], cwd, e, **kw)
