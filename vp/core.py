"""Driver: Hypothesis legs in forked workers, shrinking, replay, evidence."""
import argparse
import hashlib
import importlib
import json
import mmap
import os
import pickle
import signal
import sys
import time
import traceback
import warnings
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", "/tmp")
WHEELS = "/opt/veriftools/wheels"
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

NPROC = 8
SHRINK_SECONDS = 40
CASE_LIMIT = 240      # one case normally takes milliseconds
MMAP_SIZE = 1 << 20


class Violation(Exception):
    """The property does not hold for the current case."""


class StopShrink(BaseException):
    """Raised through Hypothesis when the shrinking budget is used up."""


def _import_hypothesis():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    sys.path.append(PYVENV)
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        sys.path.remove(PYVENV)
        sys.modules.pop("hypothesis", None)
    target = os.path.join(WORK, "wheels")
    os.makedirs(target, exist_ok=True)
    for name in sorted(os.listdir(WHEELS)):
        if name.startswith(("hypothesis-", "sortedcontainers-", "attrs-")):
            with zipfile.ZipFile(os.path.join(WHEELS, name)) as z:
                z.extractall(target)
    sys.path.append(target)
    import hypothesis  # noqa: F401


def import_dcor():
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import dcor
    got = os.path.realpath(dcor.__file__)
    want = os.path.realpath(os.path.join(REPO, "dcor", "__init__.py"))
    if got != want:
        raise RuntimeError(f"dcor imported from {got}, not {want}")
    return dcor


class Leg:
    """One generated check of a property.

    strategy: zero-argument callable returning a Hypothesis strategy of
    JSON-able cases; check: case -> iterable of labels (the label "trivial"
    marks a trivial case), raising Violation; fixed: cases always run first.
    """

    def __init__(self, name, strategy, check, quick, thorough=None,
                 fixed=(), shards=None, deep=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.fixed = list(fixed)
        self.shards = shards
        self.deep = deep        # extra strategy used only in thorough runs


def _canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


class _Recorder:
    def __init__(self, leg, shm):
        self.leg = leg
        self.shm = shm
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.first_fail_time = None
        self.best_fail = None
        self.error = None

    def note(self, case):
        data = json.dumps({"leg": self.leg.name, "case": case,
                           "t": time.time()}).encode()
        if len(data) < MMAP_SIZE - 8:
            self.shm.seek(0)
            self.shm.write(len(data).to_bytes(8, "little") + data)

    def run(self, case):
        if (self.first_fail_time is not None
                and time.monotonic() - self.first_fail_time > SHRINK_SECONDS):
            raise StopShrink
        self.note(case)
        self.evaluations += 1
        try:
            labels = list(self.leg.check(case) or ())
        except Violation as exc:
            text = _canon(case)
            if self.first_fail_time is None:
                self.first_fail_time = time.monotonic()
            if self.best_fail is None or len(text) <= len(self.best_fail[0]):
                self.best_fail = (text, str(exc))
            raise
        except (MemoryError, OSError):
            raise
        except Exception as exc:
            # The checks only meet results and exceptions like this when the
            # library answers something of another kind than it should.
            if type(exc).__module__.startswith("hypothesis"):
                raise
            message = "unusable result: " + "".join(
                traceback.format_exception(exc, limit=-3)).strip()
            if self.first_fail_time is None:
                self.first_fail_time = time.monotonic()
            text = _canon(case)
            if self.best_fail is None or len(text) <= len(self.best_fail[0]):
                self.best_fail = (text, message)
            raise Violation(message) from exc
        if "trivial" not in labels:
            h = hashlib.blake2b(_canon(case).encode(), digest_size=8).digest()
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                if len(self.samples) < 2:
                    text = _canon(case)
                    self.samples.append(case if len(text) < 1500 else text[:1500] + "...")
        for lab in labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1

    def result(self):
        return dict(
            leg=self.leg.name,
            evaluations=self.evaluations,
            nontrivial=self.nontrivial,
            labels=self.labels,
            samples=self.samples,
            fail=self.best_fail,
            error=self.error,
        )


def _run_hypothesis(rec, strategy, n, seed, mutations):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity
    from hypothesis.internal.conjecture import engine

    if not mutations:
        # Hypothesis spends most examples on variants of earlier ones that
        # repeat parts of them; without, many more combinations are drawn
        # (this runs in a forked worker)
        engine.ConjectureRunner.generate_mutations_from = lambda self, data: None

    @hypothesis.seed(seed)
    @hypothesis.settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=Verbosity.quiet,
    )
    @hypothesis.given(strategy)
    def test(case):
        rec.run(case)

    try:
        test()
    except (Violation, StopShrink):
        pass
    except BaseException as exc:
        # Hypothesis reports flaky failures with its own exceptions: what
        # counts is whether the check saw a violation.
        if rec.best_fail is None:
            raise
        if isinstance(exc, KeyboardInterrupt):
            raise


def _child(leg, job, shm, out):
    rec = _Recorder(leg, shm)
    try:
        kind = job["kind"]
        if kind == "fixed":
            for case in job["cases"]:
                try:
                    rec.run(case)
                except Violation:
                    break
        else:
            strat = (leg.deep if kind == "deep" else leg.strategy)()
            _run_hypothesis(rec, strat, job["n"], job["seed"], job["mutations"])
    except Violation:
        pass
    except BaseException:
        rec.error = traceback.format_exc()
    with open(out + ".tmp", "wb") as fh:
        pickle.dump(rec.result(), fh)
    os.rename(out + ".tmp", out)


def _seed(base, *parts):
    text = repr((base,) + parts).encode()
    return int.from_bytes(hashlib.sha256(text).digest()[:8], "little")


def _jobs(prop, tier, seed, scale):
    jobs = []
    for leg in prop.LEGS:
        n = leg.quick if tier == "quick" else leg.thorough
        n = int(n * scale)
        if leg.fixed:
            # spread fixed cases round-robin over a few jobs
            k = min(4, len(leg.fixed))
            for i in range(k):
                jobs.append((leg, dict(kind="fixed", cases=leg.fixed[i::k])))
        if n > 0 and leg.strategy is not None:
            shards = leg.shards or min(8, max(1, n // 25))
            if tier == "thorough":
                shards = max(shards, 8)
            shards = min(shards, n)
            for i in range(shards):
                m = n // shards + (1 if i < n % shards else 0)
                jobs.append((leg, dict(kind="gen", n=m, mutations=i % 4 == 3,
                                       seed=_seed(seed, prop.ID, leg.name, i))))
    return jobs


def _read_shm(shm):
    shm.seek(0)
    n = int.from_bytes(shm.read(8), "little")
    if not n:
        return None
    try:
        return json.loads(shm.read(n))
    except ValueError:
        return None


def _run_jobs(jobs, progress):
    """Run the jobs in forked workers; stop at the first failure."""
    pending = list(enumerate(jobs))
    running = {}
    results = []
    failure = None
    errors = []

    def kill_all():
        for pid in list(running):
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        running.clear()

    try:
        while (pending or running) and failure is None:
            while pending and len(running) < NPROC:
                idx, (leg, job) = pending.pop(0)
                shm = mmap.mmap(-1, MMAP_SIZE)
                out = os.path.join(WORK, f"job{idx}.pkl")
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    os.setpgid(0, 0)
                    try:
                        _child(leg, job, shm, out)
                        sys.stdout.flush()
                        sys.stderr.flush()
                    finally:
                        os._exit(0)
                try:
                    os.setpgid(pid, pid)
                except OSError:
                    pass
                running[pid] = (idx, leg, job, shm, out, time.time())
            time.sleep(0.05)
            for pid in list(running):
                idx, leg, job, shm, out, started = running[pid]
                done, status = os.waitpid(pid, os.WNOHANG)
                if not done:
                    cur = _read_shm(shm)
                    if cur and time.time() - cur["t"] > CASE_LIMIT:
                        failure = dict(leg=leg.name, case=cur["case"],
                                       message=f"no answer after {CASE_LIMIT} s")
                        break
                    continue
                del running[pid]
                try:
                    os.killpg(pid, signal.SIGKILL)   # stray grandchildren
                except (ProcessLookupError, PermissionError):
                    pass
                if os.path.exists(out):
                    with open(out, "rb") as fh:
                        res = pickle.load(fh)
                    os.unlink(out)
                    results.append(res)
                    if res["fail"]:
                        failure = dict(leg=leg.name,
                                       case=json.loads(res["fail"][0]),
                                       message=res["fail"][1])
                        break
                    if res["error"]:
                        errors.append(f"leg {leg.name}: {res['error']}")
                elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
                        signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                        signal.SIGFPE, signal.SIGILL):
                    cur = _read_shm(shm)
                    if cur:
                        failure = dict(
                            leg=leg.name, case=cur["case"],
                            message="the process died with signal "
                                    f"{os.WTERMSIG(status)}")
                        break
                    errors.append(f"leg {leg.name}: worker died {status}")
                else:
                    errors.append(f"leg {leg.name}: worker died {status}")
                shm.close()
    finally:
        kill_all()
    return results, failure, errors


def _write_evidence(prop, tier, seed, results, wall, violations):
    coverage = {}
    evaluations = sum(r["evaluations"] for r in results)
    nontrivial = {}
    labels = {}
    samples = []
    per_leg = {}
    for r in results:
        nontrivial.setdefault(r["leg"], set()).update(r["nontrivial"])
        leg = labels.setdefault(r["leg"], {})
        for k, v in r["labels"].items():
            leg[k] = leg.get(k, 0) + v
        per_leg[r["leg"]] = per_leg.get(r["leg"], 0) + r["evaluations"]
        if sum(1 for s in samples if s["leg"] == r["leg"]) < 3:
            samples.extend({"leg": r["leg"], "case": s} for s in r["samples"][:1])
    coverage["evaluations"] = evaluations
    coverage["distinct_nontrivial"] = sum(len(v) for v in nontrivial.values())
    coverage["rule"] = prop.RULE
    coverage["samples"] = samples
    coverage["evaluations_per_leg"] = per_leg
    coverage["classes"] = labels
    evidence = dict(
        property=prop.ID,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=coverage,
        assumptions=list(getattr(prop, "ASSUMPTIONS", ())),
        wall_s=round(wall, 2),
        violations=violations,
    )
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.ID}.json")
    with open(path + ".tmp", "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")
    os.replace(path + ".tmp", path)


def _known(prop):
    """Findings of the known-findings file: {replay key: description}."""
    path = os.path.join(HERE, "known-findings.txt")
    found = []
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                if line.startswith(f"known: property={prop.ID} "):
                    found.append(line.split(" ", 2)[2].strip())
    return found


def selftest():
    """Setup: is everything that the checks need here?"""
    _import_hypothesis()
    import hypothesis
    dcor = import_dcor()
    print(f"hypothesis {hypothesis.__version__}, dcor from {os.path.dirname(dcor.__file__)}")
    for name in sorted(os.listdir(os.path.join(HERE, "vp", "props"))):
        if name.startswith("c") and name.endswith(".py"):
            importlib.import_module(f"vp.props.{name[:-3]}")
    return 0


def main(argv):
    if argv == ["--selftest"]:
        return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--leg", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    args = ap.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = _seed(os.environ["VERIF_SEED"]) % (2 ** 31)
    start = time.monotonic()

    _import_hypothesis()
    import_dcor()
    imported = time.monotonic()
    prop = importlib.import_module(f"vp.props.{args.property.lower()}")
    if args.leg:
        prop.LEGS = [leg for leg in prop.LEGS if leg.name in args.leg]
        assert prop.LEGS, "no such leg"

    if args.replay:
        with open(args.replay) as fh:
            rep = json.load(fh)
        leg = next(x for x in prop.LEGS if x.name == rep["leg"])
        try:
            leg.check(rep["case"])
        except Exception as exc:
            print(f"{prop.ID}/{leg.name}: {exc}")
            print(f"VIOLATION property={prop.ID} replay={args.replay}")
            return 1
        print(f"{prop.ID}/{leg.name}: the replayed case holds")
        return 0

    for line in _known(prop):
        print(f"KNOWN-FINDING: property={prop.ID} {line}")

    jobs = _jobs(prop, tier, seed, args.scale)
    results, failure, errors = _run_jobs(jobs, None)
    wall = time.monotonic() - start
    _write_evidence(prop, tier, seed, results, wall, 1 if failure else 0)
    total = sum(r["evaluations"] for r in results)
    nt = sum(len(r["nontrivial"]) for r in results)
    print(f"{prop.ID} {tier} seed={seed}: {total} cases, {nt} non-trivial, "
          f"{wall:.1f} s (import {imported - start:.1f} s)")
    if failure:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        payload = dict(property=prop.ID, leg=failure["leg"],
                       message=failure["message"], case=failure["case"])
        h = hashlib.sha256(_canon(payload).encode()).hexdigest()[:12]
        path = os.path.join(d, f"{prop.ID}-{failure['leg']}-{h}.json")
        with open(path, "w") as fh:
            json.dump(payload, fh, indent=1)
            fh.write("\n")
        print(f"{prop.ID}/{failure['leg']}: {failure['message'][:2000]}")
        print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    if errors:
        print("HARNESS ERROR\n" + "\n".join(errors), file=sys.stderr)
        return 2
    return 0
