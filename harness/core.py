"""Property-check runner shared by every check (see DESIGN.md, "Machinery").

A *subcheck* is a Hypothesis strategy producing JSON-able cases plus a function
`run(case, ctx)` that drives the real code in /repo/src and raises `Violation`
when the stated property does not hold for that case.  The runner shards the
search over processes, shrinks the first failure with Hypothesis, writes a
replay file, counts cases, and rewrites evidence/<id>.json.
"""

import os

for _v in (
    "OMP_NUM_THREADS",
    "OPENBLAS_NUM_THREADS",
    "MKL_NUM_THREADS",
    "NUMEXPR_NUM_THREADS",
):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYVISTA_OFF_SCREEN", "true")

import collections
import contextlib
import hashlib
import io
import json
import multiprocessing as mp
import shutil
import signal
import sys
import tempfile
import time
import traceback

SRC = os.environ.get("VERIF_REPO", "/repo") + "/src"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)  # at the END: the project's own numpy & co. win

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings, strategies as st


class Violation(Exception):
    """The property is broken for this case.  `key` names the failure class."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class HarnessError(Exception):
    pass


class StopShrinking(KeyboardInterrupt):
    pass


class CaseTimeout(BaseException):
    """A single case ran far longer than any case does on a correct tree."""


CASE_S = 90  # cases take well under 5 s; a longer one does not terminate


def _on_alarm(signum, frame):
    raise CaseTimeout()


class Ctx:
    """What one case reports about itself."""

    def __init__(self):
        self.nontrivial = False
        self.events = []
        self.tmp = None

    def event(self, label):
        self.events.append(str(label))

    def mark(self, condition=True):
        if condition:
            self.nontrivial = True


class Sub:
    def __init__(self, prop, name, strategy, fn, quick, thorough, weight, rule, shards):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.weight = quick, thorough, weight
        self.rule, self.shards = rule, shards


REGISTRY = collections.OrderedDict()


def subcheck(prop, name, strategy, quick, thorough, weight=1.0, rule="", shards=8):
    """Registers a subcheck; quick/thorough are total case counts (all shards)."""

    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Sub(prop, name, strategy, fn, quick, thorough, weight, rule, shards)
        )
        return fn

    return deco


@contextlib.contextmanager
def silence():
    """The library prints progress to stdout; keep that out of our output."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def _jsonable(o):
    import numpy as np

    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(type(o))


def case_digest(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=_jsonable).encode()
    ).hexdigest()


# --------------------------------------------------------------------------
# known findings


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


# --------------------------------------------------------------------------
# executing one case


def classify_exception(exc, sub):
    """Violation for anything the code under test is responsible for; a harness
    error otherwise."""
    if isinstance(exc, Violation):
        return exc
    tb = traceback.extract_tb(exc.__traceback__)
    in_src = [f for f in tb if f.filename.startswith(SRC + os.sep)]
    if isinstance(exc, (MemoryError, HarnessError)):
        return None
    if in_src:
        last = in_src[-1]
        # An unknown keyword / attribute directly at the call boundary is an
        # interface mismatch between harness and code, but the code still
        # failed on a call its users make, so it counts.
        return Violation(
            "unexpected %s from %s:%s: %s"
            % (
                type(exc).__name__,
                os.path.relpath(last.filename, SRC),
                last.name,
                str(exc)[:300],
            ),
            key="crash:%s:%s:%s"
            % (os.path.relpath(last.filename, SRC), last.name, type(exc).__name__),
        )
    if isinstance(exc, (IndexError, ValueError, KeyError, TypeError, ZeroDivisionError, ArithmeticError, AttributeError)):
        # the oracle could not make sense of a returned value
        import numpy as np  # noqa

        return Violation(
            "malformed result: %s: %s" % (type(exc).__name__, str(exc)[:300]),
            key="malformed:%s" % type(exc).__name__,
        )
    return None


def execute(sub, case):
    """Runs one case.  Returns (ctx, violation or None)."""
    ctx = Ctx()
    ctx.tmp = tempfile.mkdtemp(prefix="nfv_")
    cwd = os.getcwd()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_S)
    try:
        os.chdir(ctx.tmp)
        with silence():
            sub.fn(case, ctx)
        return ctx, None
    except CaseTimeout:
        v = Violation("the case does not terminate within %d s" % CASE_S, key="hang")
        v.detail = traceback.format_exc()
        return ctx, v
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as exc:  # noqa: BLE001 - classified, never swallowed
        v = classify_exception(exc, sub)
        if v is None:
            raise
        v.detail = traceback.format_exc()
        return ctx, v
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        os.chdir(cwd)
        shutil.rmtree(ctx.tmp, ignore_errors=True)


# --------------------------------------------------------------------------
# sharded search


def _shard(sub, seed, n, budget, known_keys, out_path):
    t0 = time.time()
    res = {
        "sub": sub.name,
        "evaluations": 0,
        "nontrivial": [],
        "events": {},
        "samples": [],
        "known_hits": {},
        "violation": None,
        "error": None,
        "budget_hit": False,
        "max_case_s": 0.0,
    }
    events = collections.Counter()
    seen = set()
    state = {"best": None, "fail_t": None}

    def body(case):
        now = time.time()
        if state["best"] is None and now - t0 > budget:
            res["budget_hit"] = True
            return
        if state["fail_t"] is not None and now - state["fail_t"] > SHRINK_S:
            raise StopShrinking()
        with open(out_path + ".case", "w") as f:
            json.dump(case, f, default=_jsonable)
        ctx, v = execute(sub, case)
        res["evaluations"] += 1
        res["max_case_s"] = max(res["max_case_s"], time.time() - now)
        for e in ctx.events:
            events[e] += 1
        if ctx.nontrivial:
            d = case_digest(case)
            if d not in seen:
                seen.add(d)
                if len(res["samples"]) < 3:
                    res["samples"].append(
                        json.loads(json.dumps(case, default=_jsonable))
                    )
        if v is not None:
            if v.key in known_keys:
                res["known_hits"][v.key] = res["known_hits"].get(v.key, 0) + 1
                return
            if state["fail_t"] is None:
                state["fail_t"] = time.time()
            state["best"] = (case, str(v), v.key, getattr(v, "detail", ""))
            raise v

    test = given(sub.strategy)(body)
    test = settings(
        max_examples=max(1, n),
        deadline=None,
        database=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[
            HealthCheck.too_slow,
            HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        with silence():
            test()
    except StopShrinking:
        pass
    except Violation:
        pass
    except BaseException as exc:  # noqa: BLE001
        if state["best"] is None:
            res["error"] = "".join(
                traceback.format_exception(type(exc), exc, exc.__traceback__)
            )
    if state["best"] is not None:
        case, msg, key, detail = state["best"]
        res["violation"] = {
            "case": json.loads(json.dumps(case, default=_jsonable)),
            "message": msg,
            "key": key,
            "detail": detail,
        }
    res["nontrivial"] = sorted(seen)
    res["events"] = dict(events)
    res["wall"] = time.time() - t0
    with open(out_path, "w") as f:
        json.dump(res, f, default=_jsonable)


def _died(r, code, out):
    """The case in progress took the process down (a crash or an endless loop in
    compiled code), unless the process was killed from outside."""
    if code != "hang" and (
        code is None or code >= 0 or -code in (signal.SIGKILL, signal.SIGTERM)
    ):
        return
    try:
        with open(out + ".case") as f:
            case = json.load(f)
    except (OSError, ValueError):
        return
    r["error"] = None
    r["violation"] = {
        "case": case,
        "message": "the process does not survive this case (%s)"
        % ("it does not terminate" if code == "hang" else "signal %d" % -code),
        "key": "died",
        "detail": "",
    }


# the quick tier of cheap checks runs more cases than their subchecks name
QUICK_DEPTH = {
    "C02": 2.0, "C03": 2.5, "C05": 2.0, "C06": 2.0, "C07": 2.0, "C10": 4.0, "C11": 2.0, "C12": 3.0,
    "C14": 2.5, "C15": 2.0, "C17": 2.0, "C18": 4.0, "C19": 2.0, "C20": 2.0, "C21": 4.0, "C22": 4.0,
    "C24": 5.0, "C26": 1.5,
}
SHRINK_S = 40.0


def run_property(prop, title, tier, seed, assumptions=(), workers=8, only=None):
    t0 = time.time()
    subs = REGISTRY.get(prop, [])
    if only:
        subs = [s for s in subs if s.name == only]
    if not subs:
        print("no subchecks registered for", prop)
        return 2
    known = load_known(prop)
    known_keys = {k["key"] for k in known}
    by_name = {s.name: s for s in subs}

    # 1. reproduce the listed findings, so each is named on every run
    known_still = []
    for k in known:
        s = by_name.get(k["subcheck"])
        if s is None:
            continue
        try:
            _, v = execute(s, k["case"])
        except Exception:
            traceback.print_exc()
            return 2
        if v is not None and v.key == k["key"]:
            known_still.append(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]), flush=True)
        elif v is not None:
            path = _write_replay(prop, s.name, k["case"], str(v), v.key, tier, seed)
            print("known-finding reproducer now fails differently: %s" % v)
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1

    # 2. search
    budget = float(
        os.environ.get("VERIF_BUDGET_S", "140" if tier == "quick" else "720")
    )
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    if tier == "quick":
        scale *= QUICK_DEPTH.get(prop, 1.0)
    jobs = []
    for si, s in enumerate(subs):
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        shards = min(s.shards, total)
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            jobs.append((s, (seed * 1000003 + si * 101 + k) & 0x7FFFFFFF, n))
    # each worker slot handles about len(jobs)/workers jobs one after another
    rounds = max(1.0, len(jobs) / float(workers))
    per_job = max(20.0, budget / rounds * 1.6)
    tmpd = tempfile.mkdtemp(prefix="nfv_run_")
    results = []
    stop_at = t0 + budget + SHRINK_S + 60
    try:
        ctxm = mp.get_context("fork")
        pending = list(enumerate(jobs))
        running = {}
        failed = False
        while pending or running:
            while pending and len(running) < workers and not failed:
                left = t0 + budget - time.time()
                if left < 2 and results:
                    # out of budget: the remaining shards are not run
                    pending = []
                    break
                i, (s, sd, n) = pending.pop(0)
                out = os.path.join(tmpd, "%d.json" % i)
                p = ctxm.Process(
                    target=_shard,
                    args=(s, sd, n, max(5.0, min(per_job, left)), known_keys, out),
                )
                p.start()
                running[i] = (p, out, s)
            if failed:
                pending = []
            for i in list(running):
                p, out, s = running[i]
                p.join(0.02)
                if not p.is_alive():
                    del running[i]
                    if os.path.exists(out):
                        with open(out) as f:
                            r = json.load(f)
                    else:
                        r = {
                            "sub": s.name,
                            "evaluations": 0,
                            "nontrivial": [],
                            "events": {},
                            "samples": [],
                            "known_hits": {},
                            "violation": None,
                            "error": "worker died with exit code %s" % p.exitcode,
                            "budget_hit": False,
                        }
                        _died(r, p.exitcode, out)
                    results.append(r)
                    if r["violation"]:
                        failed = True
            if time.time() > stop_at:
                for p, out, s in running.values():
                    p.kill()
                    p.join(5)
                    # only a case that hangs outside of Python gets here
                    r = {
                        "sub": s.name,
                        "evaluations": 0,
                        "nontrivial": [],
                        "events": {},
                        "samples": [],
                        "known_hits": {},
                        "violation": None,
                        "error": "worker did not stop",
                        "budget_hit": False,
                    }
                    with contextlib.suppress(OSError, ValueError):
                        if time.time() - os.path.getmtime(out + ".case") > CASE_S:
                            _died(r, "hang", out)
                    results.append(r)
                break
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)

    # 3. verdict and evidence
    violations = [r for r in results if r["violation"]]
    errors = [r for r in results if r["error"]]
    per_sub = {}
    events = collections.OrderedDict()
    distinct = set()
    samples = []
    evaluations = 0
    known_hits = collections.Counter()
    for r in results:
        d = per_sub.setdefault(
            r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "events": {}}
        )
        d["evaluations"] += r["evaluations"]
        new = {r["sub"] + ":" + x for x in r["nontrivial"]} - distinct
        d["distinct_nontrivial"] += len(new)
        distinct |= new
        for e, c in r["events"].items():
            d["events"][e] = d["events"].get(e, 0) + c
        evaluations += r["evaluations"]
        for e, c in r["known_hits"].items():
            known_hits[e] += c
        taken = sum(1 for x in samples if x["subcheck"] == r["sub"])
        for smp in r["samples"]:
            if taken < 2 and len(json.dumps(smp)) < 6000:
                samples.append({"subcheck": r["sub"], "case": smp})
                taken += 1
    budget_hit = any(r["budget_hit"] for r in results) or len(results) < len(jobs)
    rules = [s.name + ": " + s.rule for s in subs]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": " | ".join(rules),
            "samples": samples,
            "per_subcheck": per_sub,
            "known_finding_hits": dict(known_hits),
            "time_budget_hit": budget_hit,
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_jsonable)
    print(
        "%s (%s) tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s"
        % (
            prop,
            title,
            tier,
            seed,
            evaluations,
            len(distinct),
            time.time() - t0,
            ", time budget reached" if budget_hit else "",
        )
    )
    if os.environ.get("VERIF_VERBOSE"):
        for n, d in per_sub.items():
            print("   ", n, d["evaluations"], d["distinct_nontrivial"], d["events"],
                  "wall=%.1f case<=%.2fs"
                  % tuple(max(r.get(x, 0) for r in results if r["sub"] == n) for x in ("wall", "max_case_s")))
    if violations:
        r = min(violations, key=lambda r: len(json.dumps(r["violation"]["case"])))
        v = r["violation"]
        path = _write_replay(prop, r["sub"], v["case"], v["message"], v["key"], tier, seed)
        print("counterexample in subcheck %s: %s" % (r["sub"], v["message"]))
        if os.environ.get("VERIF_VERBOSE"):
            print(v["detail"])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        print("HARNESS ERROR in subcheck %s\n%s" % (errors[0]["sub"], errors[0]["error"]))
        return 2
    if len(distinct) == 0:
        print("HARNESS ERROR: nothing non-trivial was explored")
        return 2
    return 0


def _write_replay(prop, sub, case, message, key, tier, seed):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_%s_%s.json" % (prop, sub, case_digest(case)[:10]))
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "subcheck": sub,
                "case": case,
                "message": message,
                "key": key,
                "tier": tier,
                "seed": seed,
                "how": "bash /verif/check.sh %s --replay <this file>" % prop,
            },
            f,
            indent=1,
            default=_jsonable,
        )
    return path


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    for s in REGISTRY.get(rec["property"], []):
        if s.name == rec["subcheck"]:
            _, v = execute(s, rec["case"])
            if v is None:
                print("replay: property %s holds on this case" % rec["property"])
                return 0
            print("replay: %s" % v)
            print(getattr(v, "detail", ""))
            print("VIOLATION property=%s replay=%s" % (rec["property"], path))
            return 1
    print("no such subcheck")
    return 2
