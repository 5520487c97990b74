"""Sub-check registry, oracle helpers and the generated-input runner."""
import contextlib
import hashlib
import importlib
import json
import locale
import mmap
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOURNAL = 1 << 23
CASE_CPU_S = 60      # CPU seconds one case may take (they take milliseconds)
SHRINK_S = 25


class Violation(Exception):
    """The property does not hold for the current case."""


class Hang(BaseException):
    """A single case used more CPU than any conforming run could."""


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


AMBIENT = None       # process-wide settings while code under test runs


@contextlib.contextmanager
def surroundings():
    """The locale's encoding and numpy's settings as AMBIENT asks for, for the time being."""
    if not AMBIENT:
        yield
        return
    import numpy as np
    old = locale.setlocale(locale.LC_CTYPE)
    try:
        if AMBIENT.get("ascii"):
            locale.setlocale(locale.LC_CTYPE, "C")
        with np.printoptions(**AMBIENT.get("print", {})), np.errstate(**AMBIENT.get("err", {})):
            yield
    finally:
        locale.setlocale(locale.LC_CTYPE, old)


@contextlib.contextmanager
def ambient(env):
    global AMBIENT
    old, AMBIENT = AMBIENT, env or AMBIENT
    try:
        yield
    finally:
        AMBIENT = old


@contextlib.contextmanager
def sut(what):
    """Run code under test that must not raise."""
    try:
        with surroundings():
            yield
    except Violation:
        raise
    except Exception as e:  # noqa
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        raise Violation(f"{what}: unexpected {type(e).__name__}: {e}\n{tb}") from e


def rejects(what, fn, types=Exception):
    """fn() must raise one of `types`."""
    try:
        with surroundings():
            res = fn()
    except Violation:
        raise
    except types as e:
        return e
    except Exception as e:
        raise Violation(f"{what}: expected {types}, got {type(e).__name__}: {e}")
    raise Violation(f"{what}: accepted instead of being refused (got {str(res)[:200]})")


def outcome(fn):
    """('ok', value) or ('err', exception)."""
    try:
        with surroundings():
            return "ok", fn()
    except Violation:
        raise
    except Exception as e:
        return "err", e


class Ctx:
    """Per-worker state handed to the checks."""
    def __init__(self, scratch):
        self.scratch = scratch
        self.labels = {}
        self.n = 0

    def label(self, name, inc=1):
        self.labels[name] = self.labels.get(name, 0) + inc

    def path(self, name="f.bin"):
        return os.path.join(self.scratch, name)

    def clean(self):
        for n in os.listdir(self.scratch):
            p = os.path.join(self.scratch, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)


class Sub:
    """One executable check of a property over one generator."""
    def __init__(self, name, strategy, check, rule, quick, thorough=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.rule, self.quick = rule, quick
        self.thorough = thorough if thorough is not None else quick * 25


def load_prop(pid):
    return importlib.import_module(f"pbt.props.{pid.lower()}")


def run_case(sub, case, ctx):
    """Execute one case; returns truthy if non-trivial.  Raises Violation."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with ambient(case.get("env") if isinstance(case, dict) else None):
                return sub.check(case, ctx)
        except Violation:
            raise
        except Exception as e:
            why = blame(e)
            if why is None:
                raise
            tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
            raise Violation(f"{why}: {type(e).__name__}: {e}\n{tb}") from e
        finally:
            ctx.clean()


def blame(e):
    """Why an exception outside sut() is the tested code's doing, or None if it
    may be the machinery's own (no memory or disk, internals of Hypothesis)."""
    from .build import REPO
    src = os.path.join(os.path.realpath(REPO), "src") + os.sep
    frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
    if any(f.startswith(src) for f in frames):
        return "unexpected exception"
    if isinstance(e, (TypeError, AttributeError, ValueError, LookupError, ArithmeticError)):
        # no oracle raises these for the values the properties allow
        return "a result that cannot be interpreted"
    return None


def _alarm(_sig, _frm):
    raise Hang()


def _limits():
    # a conforming run needs far less; keeps a runaway allocation from taking
    # the sandbox down
    lim = 6 << 30
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    if hard != resource.RLIM_INFINITY:
        lim = min(lim, hard)
    resource.setrlimit(resource.RLIMIT_AS, (lim, hard))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    signal.signal(signal.SIGPROF, _alarm)


def shard(sub, seed, n, scratch, out, journal):
    """Child process body: explore n generated cases, write a report."""
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
    from hypothesis import Verbosity
    from hypothesis.errors import Flaky, Unsatisfiable
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = SHRINK_S
    _limits()
    ctx = Ctx(scratch)
    rep = dict(sub=sub.name, evaluations=0, nontrivial=[], samples=[], labels={},
               violation=None, error=None)
    seen = set()
    last = {}
    state = dict(shrinking=False, n=0)

    def one(case):
        s = json.dumps(case, sort_keys=True, ensure_ascii=True)
        b = s.encode()[:JOURNAL - 32]
        state["n"] += 1
        journal[:len(b) + 18] = b"%08d:%08d:" % (state["n"], len(b)) + b
        if not state["shrinking"]:
            rep["evaluations"] += 1
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
        try:
            nt = run_case(sub, case, ctx)
        except Violation as e:
            last["case"], last["msg"] = case, str(e)
            state["shrinking"] = True
            raise
        except Hang:
            last["case"], last["msg"] = case, \
                f"no answer within {CASE_CPU_S} CPU seconds"
            raise                            # not shrunk: every attempt may take as long
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        if nt and not state["shrinking"]:
            h = hashlib.blake2b(s.encode(), digest_size=8).hexdigest()
            if h not in seen:
                seen.add(h)
                if len(rep["samples"]) < 2 and len(s) < 1500:
                    rep["samples"].append(case)

    test = given(sub.strategy())(one)
    test = settings(max_examples=n, deadline=None, database=None,
                    derandomize=False, report_multiple_bugs=False,
                    print_blob=False, verbosity=Verbosity.quiet,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hseed(seed)(test)
    try:
        with contextlib.redirect_stdout(sys.stderr):
            test()
    except (Violation, Hang):
        pass
    except (Flaky, BaseExceptionGroup) as e:
        if "case" not in last:
            rep["error"] = "".join(traceback.format_exception(e))
    except Unsatisfiable as e:
        rep["error"] = f"generator unsatisfiable: {e}"
    except BaseException as e:  # harness bug
        if "case" not in last:
            rep["error"] = "".join(traceback.format_exception(e))
    if last:
        rep["violation"] = dict(sub=sub.name, case=last["case"], msg=last["msg"])
    rep["labels"] = ctx.labels
    rep["nontrivial"] = sorted(seen)
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(rep, f)
    os.rename(tmp, out)


def derive(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Runner:
    def __init__(self, pid, tier, seed, only=None, scale=1.0, workers=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.mod = load_prop(pid)
        self.subs = [s for s in self.mod.SUBS if not only or s.name in only]
        self.scale = scale
        self.workers = workers or int(os.environ.get("VERIF_JOBS", "0")) or \
            min(8, os.cpu_count() or 1)
        self.base = None
        self.beat = {}

    def run(self):
        t0 = time.time()
        root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        # memory-backed scratch if it has room, else the default
        if root:
            st = os.statvfs(root)
            if st.f_bavail * st.f_frsize < (256 << 20):
                root = None
        self.base = tempfile.mkdtemp(prefix="vp-pbt-", dir=root)
        signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
        try:
            return self._run(t0)
        finally:
            shutil.rmtree(self.base, ignore_errors=True)

    def _tasks(self):
        tasks = []
        nsh = 8      # fixed, so that a run does not depend on the core count
        for sub in self.subs:
            n = sub.quick if self.tier == "quick" else sub.thorough
            n = max(1, int(n * self.scale))
            k = min(nsh, max(1, n // 5)) if self.tier == "quick" else \
                min(64, max(nsh, n // 2000))
            per = -(-n // k)
            for i in range(k):
                tasks.append((sub, i, per))
        # interleave the sub-checks so that a violation surfaces early
        tasks.sort(key=lambda t: t[1])
        return tasks

    def _run(self, t0):
        tasks = self._tasks()
        limit = 600 if self.tier == "quick" else 6 * 3600
        running, reports, violations, errors = {}, [], [], []
        j = 0
        while (tasks or running):
            while tasks and len(running) < self.workers and not violations \
                    and not errors:
                sub, i, n = tasks.pop(0)
                d = os.path.join(self.base, f"w{j}")
                j += 1
                os.mkdir(d)
                out = os.path.join(self.base, f"r{j}.json")
                jr = mmap.mmap(-1, JOURNAL)
                sys.stdout.flush(), sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        os.setpgid(0, 0)
                        shard(sub, derive(self.seed, self.pid, sub.name, i), n,
                              d, out, jr)
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    finally:
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = (sub, i, d, out, jr, time.time())
            if (violations or errors):
                tasks = []
                for pid in running:
                    self._kill(pid)
            if not running:
                break
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = time.time()
                for p, (sub, _i, _d, _o, jr, st) in running.items():
                    if now - st > limit:
                        self._kill(p)
                    elif self._stuck(p, jr, now):
                        violations.append(dict(
                            sub=sub.name, case=self._journal(jr),
                            msg="no answer to this case within "
                                f"{2 * CASE_CPU_S} CPU seconds"))
                time.sleep(0.01)
                continue
            if pid not in running:
                continue
            sub, i, d, out, jr, st = running.pop(pid)
            shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(out):
                with open(out) as f:
                    rep = json.load(f)
                reports.append(rep)
                if rep["error"]:
                    errors.append(rep["error"])
                elif rep["violation"]:
                    violations.append(rep["violation"])
            elif violations or errors:
                pass                     # killed by us
            elif os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                case = self._journal(jr)
                took = time.time() - st
                if case is not None and (sig != signal.SIGKILL):
                    violations.append(dict(
                        sub=sub.name, case=case,
                        msg=f"process died with signal {sig}"))
                else:
                    errors.append(f"{sub.name} shard {i}: killed by signal "
                                  f"{sig} after {took:.0f} s; case {case}")
            else:
                errors.append(f"{sub.name} shard {i}: worker exit "
                              f"{os.WEXITSTATUS(status)}")
            jr.close()
        return self._report(reports, violations, errors, time.time() - t0)

    def _stuck(self, pid, jr, now):
        """True if one case has been running without end inside C code."""
        at = self.beat.get(pid)
        if at is not None and now - at[2] < 5:
            return False
        try:
            with open(f"/proc/{pid}/stat") as f:
                cpu = int(f.read().rsplit(")", 1)[1].split()[11])
        except (OSError, ValueError, IndexError):
            return False
        cpu /= os.sysconf("SC_CLK_TCK")
        count = bytes(jr[:8])
        if at is None or at[0] != count:
            self.beat[pid] = (count, cpu, now)
            return False
        self.beat[pid] = (count, at[1], now)
        return cpu - at[1] > 2 * CASE_CPU_S and self._journal(jr) is not None

    @staticmethod
    def _kill(pid):
        with contextlib.suppress(OSError):
            os.killpg(pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.kill(pid, signal.SIGKILL)

    @staticmethod
    def _journal(jr):
        try:
            n = int(jr[9:17])
            return json.loads(jr[18:18 + n].decode())
        except ValueError:
            return None

    def _report(self, reports, violations, errors, wall):
        # every generated case counts once, whatever sub-check it belongs to
        ev = sum(r["evaluations"] for r in reports)
        nt, labels, per = set(), {}, {}
        samples = []
        for r in reports:
            nt.update((r["sub"], h) for h in r["nontrivial"])
            for k, v in r["labels"].items():
                labels[f"{r['sub']}/{k}"] = labels.get(f"{r['sub']}/{k}", 0) + v
            q = per.setdefault(r["sub"], dict(evaluations=0, nontrivial=set()))
            q["evaluations"] += r["evaluations"]
            q["nontrivial"].update(r["nontrivial"])
        got = {}
        for r in reports:
            for c in r["samples"]:
                if got.get(r["sub"], 0) < 2:
                    got[r["sub"]] = got.get(r["sub"], 0) + 1
                    samples.append(dict(check=r["sub"], case=c))
        cov = dict(
            evaluations=ev, distinct_nontrivial=len(nt),
            rule="Cases are drawn by Hypothesis strategies (seeded from "
                 "VERIF_SEED), each executed against the oracle. "
                 + " ".join(f"[{s.name}] {s.rule}" for s in self.subs),
            samples=samples[:12],
            per_check={k: dict(evaluations=v["evaluations"],
                               distinct_nontrivial=len(v["nontrivial"]))
                       for k, v in sorted(per.items())},
            labels=dict(sorted(labels.items())))
        doc = dict(property=self.pid, tier=self.tier, seed=self.seed,
                   level=self.mod.LEVEL, coverage=cov,
                   assumptions=self.mod.ASSUMPTIONS, wall_s=round(wall, 2),
                   violations=len(violations))
        evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        tmp = os.path.join(evdir, f".{self.pid}.json.tmp")
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1, ensure_ascii=True)
        os.rename(tmp, os.path.join(evdir, f"{self.pid}.json"))
        print(f"{self.pid} tier={self.tier} seed={self.seed}: {ev} cases, "
              f"{len(nt)} distinct non-trivial, {wall:.1f} s")
        for k, v in sorted(per.items()):
            print(f"  {k}: {v['evaluations']} cases, {len(v['nontrivial'])} non-trivial")
        if violations:
            v = min(violations, key=lambda v: len(json.dumps(v["case"])))
            path = write_replay(self.pid, v)
            print(v["msg"][:3000])
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        if errors:
            print("ERROR of the check itself:\n" + errors[0], file=sys.stderr)
            return 2
        return 0


def write_replay(pid, v):
    d = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(v["case"], sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{v['sub']}-{h}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, **v), f, indent=1, ensure_ascii=True)
    return path


def replay(path):
    with open(path) as f:
        v = json.load(f)
    mod = load_prop(v["property"])
    sub = next(s for s in mod.SUBS if s.name == v["sub"])
    _limits()
    d = tempfile.mkdtemp(prefix="vp-pbt-")
    try:
        run_case(sub, v["case"], Ctx(d))
    except Violation as e:
        print(e)
        print(f"VIOLATION property={v['property']} replay={path}")
        return 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print("replay: the property holds for this case")
    return 0
