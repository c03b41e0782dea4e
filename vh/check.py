"""Driver of a check: runs a deterministic list of cases in parallel, collects
what the monitors observed, writes evidence, reports violations."""
import collections, hashlib, json, multiprocessing, os, random, shutil, sys, time, traceback

from . import env as E
from .run import Sandbox, Who

STOP_AFTER = 3


class Case:
    """Handed to the check's case function. `rng` is seeded by the case's
    own description, so that a replay only needs that description."""

    def __init__(self, prop, desc, binaries, ctx):
        self.prop, self.desc, self.ctx = prop, desc, ctx
        self.rng = random.Random("%s|%s" % (prop, json.dumps(desc, sort_keys=True)))
        self.dir = os.path.join(E.scratch(), "c%d" % os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.sb = Sandbox(os.path.join(self.dir, "sb"))
        noise = random.Random("noise|%s|%s" % (prop, json.dumps(desc, sort_keys=True)))
        self.noise = self.sb.make_noise(noise, prop in ("C15",)) if noise.random() < 0.35 else None
        self.bin = binaries
        self.who = Who(binaries.get("plain"), self.sb) if binaries.get("plain") else None
        self.problems = []
        self.known = []
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.log = []
        self.counts["cases_with_other_git_settings"] += self.noise is not None

    def repo(self, name="repo"):
        return os.path.join(self.dir, name)

    def bad(self, what, **info):
        if self.noise:
            info["settings"] = self.noise
        self.problems.append(dict(what=what, **{k: repr(v)[:3000] for k, v in info.items()}))

    def bads(self, res, complaints, **info):
        if complaints:
            self.bad("; ".join(complaints[:6]), run=res.brief() if res is not None else "",
                     stdout=res.out[-3000:] if res is not None else b"", **info)

    def ok(self, res, what=""):
        """Complains unless the run ended normally; True if it did."""
        if res.hang:
            self.bad("%s: git-who hangs (%s)" % (what, res.hang), run=res.brief())
            return False
        if res.panicked:
            self.bad("%s: git-who crashed" % what, run=res.brief(), stderr=res.err[:3000])
            return False
        if res.rc != 0:
            self.bad("%s: git-who failed with status %r" % (what, res.rc), run=res.brief())
            return False
        return True

    def nontrivial(self, *sig):
        """Counts an evaluation as distinct and non-trivial by its signature."""
        self.sigs.add(hashlib.sha1(repr(sig).encode("utf-8", "surrogateescape")).hexdigest()[:16])

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:600])


def _clean(d):
    import subprocess
    if os.path.isdir(d):
        try:
            shutil.rmtree(d)
        except OSError:
            subprocess.run(["chmod", "-R", "u+rwX", d], stderr=subprocess.DEVNULL)
            shutil.rmtree(d, ignore_errors=True)


def _one(args):
    prop, fn, desc, binaries, ctx = args
    c = None
    try:
        c = Case(prop, desc, binaries, ctx)
        fn(c)
        err = None
    except E.HarnessError as e:
        err = "HarnessError: %s" % e
    except Exception:
        err = traceback.format_exc()
    finally:
        if c is not None:
            _clean(c.dir)
    if c is None:
        return dict(desc=desc, problems=[], known=[], counts={}, sigs=[], samples=[], err=err)
    return dict(desc=desc, problems=c.problems, known=c.known, counts=dict(c.counts),
                sigs=sorted(c.sigs), samples=c.samples, err=err,
                runs=c.who.runs if c.who else 0)


def known_findings(prop):
    """Entries `known: property=<id> key=<key> <text>` of KNOWN_FINDINGS.txt."""
    res = {}
    p = E.VERIF / "KNOWN_FINDINGS.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                k, _, t = rest.partition(" ")
                res[k.split("=", 1)[1]] = t
    return res


def main(prop, fn, cases, rule, level="exploration", race=False, plain=True, extra_ctx=None,
         min_nontrivial=1, assumptions=(), jobs=None, pre=None):
    """fn(case) runs one case. cases: list of JSON-able descriptions."""
    t0 = time.time()
    replay = None
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        replay = json.load(open(sys.argv[2]))
    binaries = {}
    try:
        E.scratch()
        if plain:
            binaries["plain"] = E.build()
        if race:
            binaries["race"] = E.build(race=True)
        ctx = pre(binaries) if pre else None
        if ctx is None:
            ctx = extra_ctx or {}
    except E.HarnessError as e:
        print("ERROR: %s" % e)
        return 2
    todo = [replay["case"]] if replay else cases
    results, errors, viol = [], [], []
    counts = collections.Counter()
    sigs, samples, known = set(), [], {}
    jobs = jobs or E.JOBS
    work = [(prop, fn, d, binaries, ctx) for d in todo]
    with multiprocessing.get_context("fork").Pool(min(jobs, max(1, len(work)))) as pool:
        it = pool.imap_unordered(_one, work)
        for r in it:
            results.append(r)
            counts.update(r["counts"])
            counts["git_who_runs"] += r.get("runs", 0)
            sigs.update(r["sigs"])
            if len(samples) < 6:
                samples += r["samples"]
            for k, t in r["known"]:
                known[k] = t
            if r["problems"]:
                viol.append(r)
            elif r["err"]:
                errors.append(r)
            if len(viol) >= STOP_AFTER:
                pool.terminate()
                break
    if not replay:
        for i in range(min(8, len(samples))):
            pass
    listed = known_findings(prop)
    for k in sorted(known):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[k]))
        else:
            viol.append(dict(desc=known[k].get("case") if isinstance(known[k], dict) else None,
                             problems=[dict(what="unlisted finding %s: %s" % (k, known[k]))]))
    rc = 0
    if viol:
        E.REPLAYS.mkdir(exist_ok=True)
        for r in viol[:STOP_AFTER]:
            h = hashlib.sha1(json.dumps(r["desc"], sort_keys=True).encode()).hexdigest()[:10]
            path = E.REPLAYS / ("%s-%s.json" % (prop, h))
            path.write_text(json.dumps(dict(property=prop, seed=E.SEED, case=r["desc"],
                                            problems=r["problems"]), indent=1))
            print("case %s" % json.dumps(r["desc"])[:300])
            for p in r["problems"][:3]:
                print("  " + p["what"][:700])
                for k in ("run", "settings"):
                    if p.get(k):
                        print("    %s: %s" % (k, p[k][:500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif errors:
        for r in errors[:3]:
            print("ERROR in case %s:\n%s" % (json.dumps(r["desc"])[:300], r["err"]))
        rc = 2
    evals = counts.pop("evaluations", 0)
    cov = dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=rule,
               samples=samples[:6] or ["none"], cases=len(results), cases_planned=len(todo),
               cases_in_error=len(errors), observed=dict(sorted(counts.items())))
    if rc == 0 and not replay and len(sigs) < min_nontrivial:
        print("ERROR: only %d non-trivial observations (want %d)" % (len(sigs), min_nontrivial))
        rc = 2
    if not replay:
        E.EVIDENCE.mkdir(exist_ok=True)
        (E.EVIDENCE / (prop + ".json")).write_text(json.dumps(dict(
            property=prop, tier=E.TIER, seed=E.SEED, level=level, coverage=cov,
            assumptions=list(assumptions), wall_s=round(time.time() - t0, 2),
            violations=len(viol)), indent=1))
    print("%s %s: %d cases, %d evaluations, %d distinct non-trivial, %.1f s%s" % (
        prop, E.TIER, len(results), evals, len(sigs), time.time() - t0,
        ", %d cases in error" % len(errors) if errors else ""))
    return rc
