"""The search engine shared by all checks.

A property module (props/<id>.py) declares facets. A facet is a Hypothesis strategy producing a plain JSON value (the
"case"), plus a function deciding the property on that case. Everything the case means is contained in that JSON value,
so a shrunk case can be written to a replay file and run again without Hypothesis.
"""

import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import zlib
from typing import Any, Callable, Optional

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUT_SRC = os.path.realpath(os.environ.get("VP_SUT_SRC", "/repo/src"))  # overridden only by tools/ (mutation experiments)
SUT_DIR = os.path.join(SUT_SRC, "evotorch") + os.sep
OUT = os.environ.get("VP_OUT", ROOT)  # where evidence and replay files go

# A single case takes milliseconds. One which burns this much CPU time is reported as not terminating.
CASE_CPU_LIMIT_S = 120.0
# Once a failing case is known, shrinking may go on for this long.
SHRINK_LIMIT_S = 60.0


class Violation(Exception):
    """The property was observed not to hold."""


class HarnessError(Exception):
    """The check itself could not do its work."""


def require(cond, msg="requirement does not hold"):
    if not cond:
        raise Violation(msg() if callable(msg) else str(msg))


class Ctx:
    """What the check of a case tells about that case."""

    def __init__(self):
        self.nontrivial = False
        self.labels = {}

    def hit(self, *labels: str):
        """Declare the case non-trivial (by the rule of its facet)."""
        self.nontrivial = True
        self.label(*labels)

    def label(self, *labels: str):
        for label in labels:
            if label is not None:
                self.labels[label] = self.labels.get(label, 0) + 1


class Facet:
    def __init__(
        self,
        name: str,
        strategy,
        check: Callable[[Any, Ctx], None],
        *,
        rule: str,
        quick: int,
        thorough: Optional[int] = None,
        needs_ray: bool = False,
        breakdowns: int = 3,
    ):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.rule = rule
        self.quick = quick
        self.thorough = quick * 20 if thorough is None else thorough
        self.needs_ray = needs_ray
        # A search which diverges can end with a matrix which is no longer positive definite in floating point: so many
        # such cases are set aside (and labelled) before it counts as a failure.
        self.breakdowns = breakdowns


class Probe:
    """A fixed input which reproduces a recorded open finding."""

    def __init__(self, key: str, what: str, fn: Callable[[], None]):
        self.key = key
        self.what = what
        self.fn = fn


def canon(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def spread_out_generation():
    """Lets the generator mutate only every tenth case: its mutations copy values between the fields of a case, and
    with them most of the cases of a small budget would resemble one another."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner

        original = ConjectureRunner.generate_mutations_from
    except (ImportError, AttributeError):
        return
    if getattr(original, "spread_out", False):
        return

    def generate_mutations_from(self, data):
        self.vp_count = getattr(self, "vp_count", 0) + 1
        if self.vp_count % 10 == 0:
            original(self, data)

    generate_mutations_from.spread_out = True
    ConjectureRunner.generate_mutations_from = generate_mutations_from


def seed_everything(n: int):
    import numpy as np
    import torch

    n = n % (2**31 - 1)
    random.seed(n)
    np.random.seed(n)
    torch.manual_seed(n)


PROPS_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(__file__))), "props")
UNUSABLE = (TypeError, AttributeError, LookupError, ValueError, ArithmeticError, RuntimeError, FileNotFoundError)


def frames_of(exc: BaseException):
    tb = exc.__traceback__
    while tb is not None:
        yield tb.tb_frame.f_code.co_filename, tb.tb_lineno, tb.tb_frame.f_code.co_name
        tb = tb.tb_next


def classify(exc: BaseException):
    """Turn an exception into (is_violation, text)."""
    if isinstance(exc, Violation):
        return True, str(exc)
    frames = list(frames_of(exc))
    sut = [f for f in frames if os.path.realpath(f[0]).startswith(SUT_DIR)]
    if sut:
        # An exception escaping from the library on an input which is valid by construction. If a callback of ours
        # (e.g. a fitness function) is what failed, the innermost frame tells: then the harness is to blame, unless the
        # library handed that callback something unusable, in which case our callback raises Violation by itself.
        f, line, name = sut[-1]
        return True, (
            f"unexpected {type(exc).__name__} escaping from {os.path.basename(f)}:{line} ({name}): {str(exc)[:300]}"
        )
    if isinstance(exc, UNUSABLE) and any(os.path.dirname(os.path.realpath(f[0])) == PROPS_DIR for f in frames):
        # What the library returned has not the form it should have (a missing field, None, another type or shape), so
        # that the check stumbled over it while comparing.
        where = [f for f in frames if os.path.dirname(os.path.realpath(f[0])) == PROPS_DIR][-1]
        return True, (
            f"a result of an unusable form: {type(exc).__name__}: {str(exc)[:300]}"
            f" (at {os.path.basename(where[0])}:{where[1]}, {where[2]})"
        )
    return False, "".join(traceback.format_exception(exc))


def broke_down(exc):
    import torch

    return isinstance(exc, torch.linalg.LinAlgError)


class FacetResult:
    def __init__(self, facet: Facet):
        self.facet = facet
        self.evaluations = 0
        self.digests = set()
        self.breakdowns = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.violation: Optional[str] = None
        self.violating_case = None
        self.error: Optional[str] = None
        self.wall_s = 0.0


class Runner:
    def __init__(self, prop: str, module, tier: str, seed: int, scale: float = 1.0):
        self.prop = prop
        self.module = module
        self.tier = tier
        self.seed = seed
        self.scale = scale
        self.t0 = time.time()
        self.results = []
        self.known = []
        self.current = None  # (FacetResult, case)

    # -- reporting ---------------------------------------------------------------------------------------------
    def write_evidence(self, violations: int):
        evals = sum(r.evaluations for r in self.results)
        nontriv = sum(len(r.nontrivial) for r in self.results)
        samples = []
        for r in self.results:
            for s in r.samples[:2]:
                samples.append(f"{r.facet.name}: {s}"[:600])
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": nontriv,
                "rule": "; ".join(f"[{r.facet.name}] {r.facet.rule}" for r in self.results),
                "samples": samples or ["none"],
                "facets": {
                    r.facet.name: {
                        "evaluations": r.evaluations,
                        "distinct": len(r.digests),
                        "distinct_nontrivial": len(r.nontrivial),
                        "labels": dict(sorted(r.labels.items())),
                        "wall_s": round(r.wall_s, 2),
                    }
                    for r in self.results
                },
            },
            "wall_s": round(time.time() - self.t0, 2),
            "violations": violations,
            "assumptions": list(getattr(self.module, "ASSUMPTIONS", [])),
        }
        if self.known:
            evidence["known_findings"] = self.known
        d = os.path.join(OUT, "evidence")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        os.replace(path + ".tmp", path)

    def write_replay(self, facet_name: str, case, text: str) -> str:
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        name = "".join(c if c.isalnum() else "-" for c in facet_name)
        path = os.path.join(d, f"{self.prop}-{name}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "facet": facet_name, "case": case, "message": text}, f, indent=1)
            f.write("\n")
        return os.path.relpath(path, OUT)

    def report_violation(self, facet_name: str, case, text: str):
        path = self.write_replay(facet_name, case, text)
        print(f"facet {facet_name}: {text}")
        print(f"case: {canon(case)[:2000]}")
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)

    def die_with_violation(self, result: FacetResult, case, text: str):
        """Used where the search cannot be left in an orderly way."""
        self.report_violation(result.facet.name, case, text)
        self.write_evidence(1)
        sys.stdout.flush()
        cleanup()
        os._exit(1)

    # -- execution ---------------------------------------------------------------------------------------------
    def _on_cpu_limit(self, signum, frame):
        result, case = self.current
        self.die_with_violation(result, case, f"no answer after {CASE_CPU_LIMIT_S:.0f} s of CPU time")

    def run_case(self, facet: Facet, case, result: FacetResult) -> Ctx:
        ctx = Ctx()
        seed_everything(zlib.crc32(canon(case).encode()))
        self.current = (result, case)
        signal.signal(signal.SIGPROF, self._on_cpu_limit)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT_S)
        try:
            facet.check(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return ctx

    def run_facet(self, facet: Facet) -> FacetResult:
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings

        spread_out_generation()
        result = FacetResult(facet)
        self.results.append(result)
        n = facet.quick * getattr(self.module, "QUICK_FACTOR", 2) if self.tier == "quick" else facet.thorough
        n = max(1, int(round(n * self.scale)))
        t0 = time.time()
        first_failure = [None]
        best_failure = [None]  # (size, case, text)

        def body(case):
            text = canon(case)
            case = json.loads(text)
            digest = hashlib.blake2b(text.encode(), digest_size=12).digest()
            try:
                ctx = self.run_case(facet, case, result)
            except Exception as exc:
                if broke_down(exc) and first_failure[0] is None:
                    if digest in result.breakdowns or len(result.breakdowns) < facet.breakdowns:
                        result.breakdowns.add(digest)
                        result.labels["numerical breakdown"] = len(result.breakdowns)
                        return
                bad, msg = classify(exc)
                if not bad:
                    result.error = f"facet {facet.name}, case {text[:1500]}\n{msg}"
                    raise HarnessError(msg) from exc
                if first_failure[0] is None:
                    first_failure[0] = time.time()
                if best_failure[0] is None or len(text) <= best_failure[0][0]:
                    best_failure[0] = (len(text), case, msg)
                if time.time() - first_failure[0] > SHRINK_LIMIT_S:
                    self.die_with_violation(result, best_failure[0][1], best_failure[0][2])
                raise
            if first_failure[0] is None:
                result.evaluations += 1
                result.digests.add(digest)
                for k, v in ctx.labels.items():
                    result.labels[k] = result.labels.get(k, 0) + 1
                if ctx.nontrivial:
                    if digest not in result.nontrivial and len(result.samples) < 3:
                        result.samples.append(text)
                    result.nontrivial.add(digest)

        test = given(facet.strategy)(body)
        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            verbosity=Verbosity.quiet,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
        )(test)
        test = hypothesis.seed(self.seed * 1000003 + zlib.crc32(f"{self.prop}/{facet.name}".encode()))(test)
        try:
            test()
        except BaseException as exc:
            if isinstance(exc, KeyboardInterrupt):
                raise
            if result.error is None and best_failure[0] is not None:
                result.evaluations += 1
                result.violating_case, result.violation = best_failure[0][1], best_failure[0][2]
            elif result.error is None:
                result.error = f"facet {facet.name}\n" + "".join(traceback.format_exception(exc))
        result.wall_s = time.time() - t0
        return result

    def run_probes(self) -> bool:
        """Reproduce recorded open findings. Returns False if one is not recorded."""
        listed = load_known(self.prop)
        ok = True
        for probe in getattr(self.module, "PROBES", []):
            try:
                seed_everything(1)
                probe.fn()
            except Exception as exc:
                bad, msg = classify(exc)
                if not bad:
                    raise
                if probe.key in listed:
                    self.known.append(probe.key)
                    print(f"KNOWN-FINDING: property={self.prop} {probe.what}")
                else:
                    self.report_violation("probe-" + probe.key, {"probe": probe.key}, msg)
                    ok = False
        return ok

    def run(self, only: Optional[str] = None) -> int:
        facets = [f for f in self.module.FACETS if only is None or f.name == only]
        if any(f.needs_ray for f in facets):
            start_ray()
        violations = 0
        if not self.run_probes():
            violations += 1
        errors = []
        for facet in facets:
            r = self.run_facet(facet)
            if r.error is not None:
                errors.append(r.error)
            if r.violation is not None:
                violations += 1
                self.report_violation(facet.name, r.violating_case, r.violation)
                break
        self.write_evidence(violations)
        if violations:
            return 1
        if errors:
            print("CHECK-ERROR\n" + "\n".join(errors))
            return 3
        evals = sum(r.evaluations for r in self.results)
        nontriv = sum(len(r.nontrivial) for r in self.results)
        thin = [r.facet.name for r in self.results if len(r.nontrivial) < min(5, r.evaluations)]
        if thin:
            print(f"CHECK-ERROR too few non-trivial cases in {thin}")
            return 3
        print(f"{self.prop}: held on {evals} cases ({nontriv} distinct non-trivial), {time.time() - self.t0:.1f} s")
        return 0

    def replay(self, path: str) -> int:
        with open(path) as f:
            data = json.load(f)
        if "probe" in (data["case"] if isinstance(data["case"], dict) else {}):
            return 0 if self.run_probes() else 1
        facet = [f for f in self.module.FACETS if f.name == data["facet"]][0]
        if facet.needs_ray:
            start_ray()
        try:
            self.run_case(facet, data["case"], FacetResult(facet))
        except Exception as exc:
            bad, msg = classify(exc)
            traceback.print_exception(exc)
            if not bad:
                return 3
            print(f"facet {facet.name}: {msg}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            return 1
        print("replay: the property holds on this case")
        return 0


def load_known(prop: str):
    """Keys of the open findings recorded for a property."""
    keys = set()
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.isfile(path):
        with open(path) as f:
            for line in f:
                parts = line.split()
                if parts[:1] == ["open:"] and parts[1] == f"property={prop}" and parts[2].startswith("key="):
                    keys.add(parts[2][4:])
    return keys


_ray_dir = None


class RaySchedule:
    """The source of the order in which remote results arrive (None: order of submission)."""

    order: Optional[random.Random] = None


def start_ray():
    """An in-process ray (local mode): actors live in this very process and run deterministically."""
    global _ray_dir
    import tempfile

    import ray

    if not ray.is_initialized():
        _ray_dir = tempfile.mkdtemp(prefix="vr", dir="/tmp")
        ray.init(local_mode=True, num_cpus=4, _temp_dir=_ray_dir, include_dashboard=False, log_to_driver=False)
        real_wait, real_get = ray.wait, ray.get

        # In local mode a submitted call has been executed by the time its reference exists, so that results are
        # available at once or (if the actor could not be created) never. All the results being available, which one
        # arrives first is ours to choose: this is where schedules are injected.
        def wait(refs, **kw):
            refs = list(refs)
            ready, rest = real_wait(refs, num_returns=len(refs), timeout=20)
            if rest:
                raise Violation("the result of a remote call never arrives")
            n = kw.get("num_returns", 1)
            if RaySchedule.order is not None:
                RaySchedule.order.shuffle(ready)
            return ready[:n], ready[n:]

        def get(refs, **kw):
            kw.setdefault("timeout", 20)
            try:
                return real_get(refs, **kw)
            except ray.exceptions.GetTimeoutError:
                raise Violation("the result of a remote call never arrives") from None

        ray.wait, ray.get = wait, get


def cleanup():
    if _ray_dir is not None:
        import shutil

        import ray

        try:
            ray.shutdown()
        except Exception:
            pass
        if _ray_dir.startswith("/tmp/vr"):
            shutil.rmtree(_ray_dir, ignore_errors=True)
