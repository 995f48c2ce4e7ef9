"""Shared harness: run context, verdicts, evidence, known findings, budgets."""
import collections
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import types
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VFB_REPO", "/repo"))
DATA = REPO / "Tests" / "Data"


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    """A single case used far more CPU time than it ever needs (watchdog)."""


def norm(o):
    """Structure equality modulo tuple/list."""
    if isinstance(o, dict):
        return {k: norm(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [norm(v) for v in o]
    return o


def jsonable(o, limit=4000):
    def f(x):
        if isinstance(x, bytes):
            return "hex:" + x.hex()
        if isinstance(x, dict):
            return {str(k): f(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set, frozenset)):
            return [f(v) for v in x]
        if isinstance(x, (str, int, float, bool)) or x is None:
            return x
        return repr(x)

    return f(o)


def _head(o, n, depth=3):
    """o, or the beginning of it, with a repr that isn't much longer than n"""
    if isinstance(o, (str, bytes, bytearray)):
        return o if len(o) <= 2 * n else o[: 2 * n]
    if depth and isinstance(o, (list, tuple)):
        return type(o)(_head(x, n, depth - 1) for x in o[:n]) if type(o) in (list, tuple) else o
    return o


def short(o, n=300):
    try:
        s = o if isinstance(o, str) else repr(_head(o, n))
    except MemoryError:
        return f"<{type(o).__name__}>"
    return s if len(s) <= n else s[: n - 20] + f"...({len(s)} chars)"


def first_diff(a, b, path=""):
    """A short description of the first difference between two structures."""
    if type(a) is not type(b) and not (
        isinstance(a, (int, float)) and isinstance(b, (int, float))
    ):
        return f"{path}: {short(a, 120)} != {short(b, 120)}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k}: missing on the right ({short(a[k], 100)})"
        for k in b:
            if k not in a:
                return f"{path}.{k}: missing on the left ({short(b[k], 100)})"
        for k in a:
            if a[k] != b[k]:
                return first_diff(a[k], b[k], f"{path}.{k}")
        return f"{path}: key order"
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}: {short(a, 150)} / {short(b, 150)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, f"{path}[{i}]")
    return f"{path}: {short(a, 120)} != {short(b, 120)}"


class Ctx:
    def __init__(self, prop, tier, seed, budget):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{prop}/{seed}")
        self.t0 = time.time()
        self.budget = budget
        self.evaluations = 0
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_hits = collections.OrderedDict()
        self.known = load_known(prop)
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.exhaustive = None
        self.required = {}

    # -- workload -----------------------------------------------------------
    def sub(self, *key):
        """A generator which only depends on the seed and the key."""
        return random.Random(f"{self.prop}/{self.seed}/" + "/".join(map(str, key)))

    def time_left(self):
        return self.budget - (time.time() - self.t0)

    def more(self, n, nmin, frac=1.0):
        """Loop control: at least nmin rounds, then until the budget is used."""
        if n < nmin:
            # even the minimum must end
            return self.time_left() > -5 * self.budget
        return self.time_left() > self.budget * (1 - frac)

    def ev(self, name, n=1):
        self.events[name] += n

    def case(self, key, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            if not isinstance(key, (bytes, str)):
                key = repr(key)
            if isinstance(key, str):
                key = key.encode("utf-8", "surrogatepass")
            self.distinct.add(hashlib.blake2b(key, digest_size=10).digest())

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    # -- verdicts -----------------------------------------------------------
    def violation(self, what, **detail):
        if len(self.violations) >= 20:
            self.violations.append(None)
            return
        rp = VERIF / "replays"
        rp.mkdir(exist_ok=True)
        path = rp / f"{self.prop}-{self.tier}-{self.seed}-{len(self.violations)}.json"
        replay = {
            "property": self.prop,
            "what": what,
            "seed": self.seed,
            "tier": self.tier,
            "rerun": f"VERIF_SEED={self.seed} /verif/check {self.prop} {self.tier}",
        }
        try:
            text = json.dumps({**replay, "detail": jsonable(detail)}, indent=1, ensure_ascii=True)
        except (MemoryError, ValueError, TypeError, RecursionError):
            text = json.dumps(replay, indent=1)
        path.write_text(text, "utf-8")
        self.violations.append(what)
        if len(self.violations) <= 5:
            print(f"  {self.prop}: {short(what, 600)}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    def expect(self, cond, what, **detail):
        if not cond:
            self.violation(what, **detail)
        return bool(cond)

    def equal(self, got, want, what, **detail):
        g, w = norm(got), norm(want)
        if g != w:
            self.violation(
                f"{what}: {first_diff(g, w)} (got != expected)", got=g, want=w, **detail
            )
            return False
        return True

    def known_finding(self, mech, what):
        """True when mech is listed in known_findings.json (then it's no alarm)."""
        if mech in self.known:
            self.known_hits.setdefault(mech, what)
            return True
        return False

    def guard(self, what, fn, *a, detail=None, **kw):
        """Call code under test which must not fail; (ok, result)."""
        try:
            return True, fn(*a, **kw)
        except Inconclusive:
            raise
        except Exception as e:
            self.violation(
                f"{what}: {type(e).__name__}: {short(str(e), 200)}",
                traceback=traceback.format_exc()[-3000:],
                **(detail or {}),
            )
            return False, None

    def enough(self):
        return self.evaluations and all(self.events[k] >= n for k, n in self.required.items())

    def restart(self, factor):
        self.t0, self.budget = time.time(), self.budget * factor
        self.evaluations = 0
        for c in (self.events, self.distinct, self.samples, self.required, self.extra):
            c.clear()

    def require(self, **mins):
        """Observed event counts below which the run is inconclusive."""
        self.required.update(mins)


def load_known(prop):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return {}
    d = json.loads(p.read_text("utf-8"))
    return {f["mechanism"]: f for f in d.get("findings", []) if f["property"] == prop}


def in_library(e):
    """Was it raised in the code under test, or by what this has called?"""
    src = str((REPO / "src").resolve())
    return any(str(Path(f.filename).resolve()).startswith(src)
               for f in traceback.extract_tb(e.__traceback__))


def bad_form(e):
    """Raised by an oracle when it reads a result, other than by a changed interface"""
    if isinstance(e, AttributeError):
        return type(e.obj).__module__ == "builtins" and not isinstance(e.obj, (type, types.ModuleType))
    if isinstance(e, TypeError) and "argument" in str(e):
        return False
    return isinstance(e, (TypeError, LookupError, ValueError, ArithmeticError, MemoryError))


def run_check(prop, tier, seed, module):
    budget = module.BUDGET[0] if tier == "quick" else module.BUDGET[1]
    scale = float(os.environ.get("VM_BUDGET_SCALE", "1"))
    ctx = Ctx(prop, tier, seed, budget * scale)
    err = None
    t0 = time.time()

    def hard(signum, frame):
        raise CaseTimeout("CPU" if signum == signal.SIGVTALRM else "wall")

    cpu = int(max(150, budget * 3)) if tier == "quick" else int(budget * 2 + 300)
    signal.signal(signal.SIGVTALRM, hard)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)

    signal.signal(signal.SIGALRM, hard)
    signal.alarm(int(max(300, budget * 3)) if tier == "quick" else int(budget * 2 + 600))
    try:
        module.run(ctx)
        # on slow machines: once more, with more time, until enough was observed
        for _ in range(3):
            if ctx.violations or ctx.enough():
                break
            ctx.restart(2)
            module.run(ctx)
    except Inconclusive as e:
        err = f"inconclusive: {e}"
    except CaseTimeout as e:
        err = "inconclusive: the watchdog fired\n" + traceback.format_exc()
        if str(e) == "CPU" and in_library(e):
            ctx.violation(f"no end after {cpu} s of CPU time", traceback=err[-3000:])
            err = None
    except Exception as e:
        err = traceback.format_exc()
        if in_library(e):
            # the code under test failed where the workload expects no failure
            ctx.violation(f"unexpected {type(e).__name__}: {short(str(e), 200)}", traceback=err[-3000:])
            err = None
        elif bad_form(e):
            ctx.violation(f"a result has an unexpected form: {type(e).__name__}: "
                          f"{short(str(e), 200)}", traceback=err[-3000:])
            err = None
    signal.alarm(0)
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if not err and not ctx.violations:
        for k, n in ctx.required.items():
            if ctx.events[k] < n:
                err = f"inconclusive: observed {ctx.events[k]} < {n} events of '{k}'"
        if not ctx.evaluations:
            err = "inconclusive: nothing was evaluated"
    cov = {
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": len(ctx.distinct),
        "rule": ctx.rule,
        "samples": ctx.samples,
        "observed_events": dict(sorted(ctx.events.items())),
    }
    cov.update(ctx.extra)
    if ctx.exhaustive is not None:
        cov["exhaustive"] = ctx.exhaustive
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(module, "LEVEL", "exploration"),
        "coverage": cov,
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(ctx.violations),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(
        json.dumps(ev, indent=1, ensure_ascii=True)
    )
    for mech, what in ctx.known_hits.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    if ctx.violations:
        print(f"{prop} {tier}: {len(ctx.violations)} violations in {ctx.evaluations} evaluations")
        if err:
            print(err)
        return 1
    if err:
        print(f"{prop} {tier}: ERROR {err}")
        return 3
    print(
        f"{prop} {tier}: held on {ctx.evaluations} evaluations "
        f"({len(ctx.distinct)} distinct) in {ev['wall_s']} s"
    )
    return 0
