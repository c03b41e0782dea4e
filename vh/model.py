"""Independent reference: what git-who ought to count, from Git's plumbing
(raw commit objects, diff-tree, check-mailmap) and Git's own commit selection."""
import os, re, tempfile, time

from . import env as E


class Commit:
    __slots__ = ("hash", "parents", "name", "email", "date", "diffs", "mname", "memail")

    @property
    def merge(self):
        return len(self.parents) > 1


IDENT = re.compile(rb"^([^<]*)<([^<>]*)> (\d{1,15}) [+-]\d{4}$", re.S)


def broken_ident(line):
    """What git makes of an author line that isn't as it should be: nobody if
    there is no address, and the epoch if there is no date."""
    a = line.find(b"<")
    z = line.find(b">", a + 1)
    if a < 0 or z < 0:
        return b"", b"", 0
    m = re.match(rb"\s*(\d+)\s*[+-]\d", line[line.rindex(b">") + 1:])
    return line[:a].strip(), line[a + 1:z], int(m.group(1)) if m else 0


class Repo:
    def __init__(self, sb, path, attr_env=None):
        self.sb, self.path = sb, path
        self.commits = {}
        self._paths_cache = {}
        self.load()

    # -- loading ----------------------------------------------------------
    def load(self, revs=("--all", "HEAD")):
        sb = self.sb
        hashes = sb.git(self.path, "rev-list", "--reverse", *revs, "--").split()
        new = [h for h in hashes if h.decode() not in self.commits]
        self._raw(new)
        self._diffs([h for h in new if len(self.commits[h.decode()].parents) <= 1])
        self.remap()

    def _raw(self, hashes):
        if not hashes:
            return
        data = self.sb.git(self.path, "cat-file", "--batch", input=b"\n".join(hashes) + b"\n")
        at = 0
        shallow = set()
        sp = self.sb.git(self.path, "rev-parse", "--git-path", "shallow").decode().strip()
        sp = os.path.join(self.path, sp)
        if os.path.exists(sp):
            shallow = set(open(sp).read().split())
        for h in hashes:
            nl = data.index(b"\n", at)
            head = data[at:nl].split()
            if len(head) != 3 or head[0] != h or head[1] != b"commit":
                raise E.HarnessError("cat-file said %r for %r" % (head, h))
            size = int(head[2])
            body = data[nl + 1:nl + 1 + size]
            at = nl + 1 + size + 1
            c = Commit()
            c.hash = h.decode()
            c.parents, c.diffs = [], []
            enc = None
            ident = None
            for line in body.split(b"\n\n", 1)[0].split(b"\n"):
                if line.startswith(b"parent "):
                    c.parents.append(line[7:].decode())
                elif line.startswith(b"author "):
                    ident = line[7:]
                elif line.startswith(b"encoding "):
                    enc = line[9:].decode()
            if c.hash in shallow:
                c.parents = []
            m = IDENT.match(ident or b"")
            if not m:
                name, email, date = broken_ident(ident or b"")
            else:
                name, email, date = m.group(1).rstrip(b" \t\n\r"), m.group(2), int(m.group(3))
            if enc:
                try:
                    name = name.decode(enc).encode("utf-8")
                    email = email.decode(enc).encode("utf-8")
                except (UnicodeError, LookupError):
                    pass
            c.name, c.email, c.date = name, email, date if date < 1 << 63 else 0
            self.commits[c.hash] = c

    def _diffs(self, hashes):
        if not hashes:
            return
        data = self.sb.git(self.path, "diff-tree", "--stdin", "-r", "-M", "--numstat",
                           "-z", "--root", "--always", input=b"\n".join(hashes) + b"\n")
        toks = data.split(b"\0")
        if toks and toks[-1] in (b"", b"\n"):
            toks.pop()
        at = 0
        for h in hashes:
            c = self.commits[h.decode()]
            t = toks[at].strip(b"\n")
            if t != h:
                raise E.HarnessError("diff-tree: expected %r, got %r" % (h, t))
            at += 1
            while at < len(toks):
                t = toks[at]
                m = re.match(rb"^\n?(\d+|-)\t(\d+|-)\t", t)
                if not m:
                    break
                p = t[m.end():]
                at += 1
                if p == b"":
                    p = toks[at + 1]
                    at += 2
                a = 0 if m.group(1) == b"-" else int(m.group(1))
                r = 0 if m.group(2) == b"-" else int(m.group(2))
                c.diffs.append((p, a, r))
        if at != len(toks):
            raise E.HarnessError("diff-tree: left over %r" % toks[at:at + 3])

    def remap(self):
        """(Re)applies the mailmap now in effect."""
        ids = sorted({(c.name, c.email) for c in self.commits.values()})
        inp = b"".join(n + b" <" + e + b">\n" for n, e in ids)
        out = self.sb.git(self.path, "check-mailmap", "--stdin", input=inp).split(b"\n")
        mapped = {}
        for (n, e), line in zip(ids, out):
            m = re.match(rb"^(.*?) ?<([^>]*)>$", line, re.S)
            mapped[(n, e)] = (m.group(1), m.group(2)) if m else (n, e)
        for c in self.commits.values():
            c.mname, c.memail = mapped[(c.name, c.email)]

    # -- selection ----------------------------------------------------------
    def select(self, args, cwd=None, env=None, mailmap=True):
        """Hashes git log lists for the arguments."""
        a = ["log", "--format=%H", "--no-show-signature"]
        if not mailmap:
            a.append("--no-mailmap")
        out = self.sb.git(cwd or self.path, *a, *args, env=env)
        hs = out.decode().split()
        for h in hs:
            if h not in self.commits:
                raise E.HarnessError("unknown commit " + h)
        return hs

    def counted(self, hashes, ignore=(), now=None):
        """The commits git-who should look at: those with an author and not in
        the future."""
        ign = set(ignore)
        r = []
        for h in hashes:
            c = self.commits[h]
            if h in ign or c.date > (time.time() if now is None else now):
                continue
            if c.mname == b"" and c.memail == b"":
                continue
            r.append(c)
        return r

    # -- paths ----------------------------------------------------------------
    def all_paths(self):
        return sorted({p for c in self.commits.values() for p, _, _ in c.diffs})

    def match_paths(self, pathspecs, prefix=b""):
        """The subset of all paths ever touched that git's own pathspec
        matching accepts. prefix is the current directory ("sub/")."""
        key = (tuple(pathspecs), prefix, len(self.commits))
        if key in self._paths_cache:
            return self._paths_cache[key]
        todo = self.all_paths()
        # Paths that are a prefix of one another can't be in one index
        groups = []
        for p in todo:
            for g in groups:
                if not any(p[:i] in g for i in range(len(p)) if p[i:i + 1] == b"/") \
                        and not g.get(("dir", p)):
                    break
            else:
                g = {}
                groups.append(g)
            g[p] = True
            for i in range(len(p)):
                if p[i:i + 1] == b"/":
                    g[("dir", p[:i])] = True
        got = set()
        empty = self.sb.git(self.path, "hash-object", "-t", "blob", "--stdin", input=b"").strip()
        specs = [os.fsencode(p) for p in pathspecs]
        got = set()
        real = self.sb.git(self.path, "rev-parse", "--git-path", "objects").decode().strip()
        real = os.path.join(self.path, real)
        with tempfile.TemporaryDirectory(dir=self.sb.tmp) as td:
            # Objects made up for the question must not end up in the repository
            env = {"GIT_OBJECT_DIRECTORY": os.path.join(td, "o"), "GIT_ALTERNATE_OBJECT_DIRECTORIES": real,
                   "GIT_INDEX_FILE": os.path.join(td, "index")}
            os.mkdir(env["GIT_OBJECT_DIRECTORY"])
            self.sb.git(self.path, "hash-object", "-w", "-t", "tree", "--stdin", input=b"", env=env)
            for g in groups:
                if os.path.exists(env["GIT_INDEX_FILE"]):
                    os.unlink(env["GIT_INDEX_FILE"])
                inp = b"".join(b"100644 " + empty + b"\t" + p + b"\0" for p in g if isinstance(p, bytes))
                self.sb.git(self.path, "update-index", "-z", "--index-info", input=inp, env=env)
                cwd = os.path.join(os.fsencode(self.path), prefix)
                # One pathspec at a time: with several, git ls-files only looks
                # under the directory they have in common, and git diff-tree
                # takes in what lies beside a match of */a if there is a
                # directory really named *.
                def ls(spec):
                    out = self.sb.git(cwd, "ls-files", "--full-name", "-z", "--", spec, env=env)
                    return set(x for x in out.split(b"\0") if x)
                pos = [x for x in specs if without_exclude(x) is None]
                here = set().union(*map(ls, pos)) if pos else {p for p in g if isinstance(p, bytes)}
                for x in specs:
                    if without_exclude(x) is not None:
                        here -= ls(without_exclude(x))
                got |= here
        self._paths_cache[key] = got
        return got

    def worktree(self, pathspecs=(), cwd=None):
        """Files in the index, relative to cwd."""
        out = self.sb.git(cwd or self.path, "ls-files", "-z", "--", *pathspecs)
        return set(x for x in out.split(b"\0") if x)


def without_exclude(spec):
    """The pathspec for what an exclude pathspec excludes, None if it's another one."""
    m = re.match(rb":\(([^)]*)\)", spec)
    if m:
        words = m.group(1).split(b",")
        return b":(" + b",".join(x for x in words if x != b"exclude") + b")" + spec[m.end():] if b"exclude" in words else None
    m = re.match(rb":([!^/]*)", spec)
    if m and (b"!" in m.group(1) or b"^" in m.group(1)):
        return b":" + re.sub(rb"[!^]", b"", m.group(1)) + spec[m.end():]
    return None


class Row:
    """What one author contributed to something."""
    __slots__ = ("key", "ids", "commits", "added", "removed", "files", "first", "last", "firstids")

    def __init__(self, key):
        self.key = key
        self.ids = set()
        self.commits = set()
        self.added = self.removed = 0
        self.files = set()
        self.first = self.last = None

    def see(self, c, name, email, diffs):
        self.ids.add((name, email))
        self.commits.add(c.hash)
        self.first = c.date if self.first is None else min(self.first, c.date)
        self.last = c.date if self.last is None else max(self.last, c.date)
        if not c.merge:
            for p, a, r in diffs:
                self.added += a
                self.removed += r
                self.files.add(p)

    def metric(self, mode):
        if mode == "lines":
            return self.added + self.removed
        if mode == "files":
            return len(self.files)
        if mode == "last":
            return self.last
        if mode == "first":
            return -self.first
        return len(self.commits)


def tally(commits, by_email=False, merges=False, paths=None, raw=False):
    """Rows of the table, keyed by author name or email."""
    rows = {}
    for c in commits:
        if c.merge and not merges:
            continue
        name, email = (c.name, c.email) if raw else (c.mname, c.memail)
        key = email if by_email else name
        diffs = c.diffs if paths is None else [d for d in c.diffs if d[0] in paths]
        rows.setdefault(key, Row(key)).see(c, name, email, diffs)
    return rows


def tree(commits, by_email=False, merges=False, paths=None, prefix=b""):
    """For every path at or above a touched file: {author key: Row}. The path
    b"" is the directory we run in. Also returns the set of touched files."""
    nodes = {}
    touched = set()
    for c in commits:
        if c.merge and not merges:
            continue
        key = c.memail if by_email else c.mname
        diffs = c.diffs if paths is None else [d for d in c.diffs if d[0] in paths]
        # The directory itself may once have been a file
        rel = [(p[len(prefix):], a, r) for p, a, r in diffs if p.startswith(prefix) or p + b"/" == prefix]
        where = {}
        if not diffs and prefix == b"":
            where[b""] = []
        for d in rel:
            p = d[0]
            if p:
                touched.add(p)
            ups = [b""] if not p else [b""] + [p[:i] for i in range(len(p)) if p[i:i + 1] == b"/"] + [p]
            for u in ups:
                where.setdefault(u, []).append(d)
        for u, ds in where.items():
            nodes.setdefault(u, {}).setdefault(key, Row(key)).see(c, c.mname, c.memail, ds)
    return nodes, touched
