"""Explicit-state exploration engine shared by every check.

A check enumerates, in a fixed order and without sampling, every case of a
bounded space (object graphs, documents, operation histories, fault points,
schedules, option combinations), runs the real jsonpickle code from /repo on
each of them and compares the observed behaviour with a reference model.

A case is a plain literal (tuples, strings, numbers), so a violating case is
written to a file and can be re-run alone:  python -m mc replay <file>
"""

import ast
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.json")
CASE_TIMEOUT = 120  # seconds; cases take milliseconds
MEM_LIMIT = 3 << 30
RECURSION = 4000  # no case may fail because of the interpreter's frame limit


class Violation(Exception):
    """The property does not hold on this case."""


class CaseTimeout(BaseException):
    pass


class Skip(Exception):
    """The case is not a valid state of the space (e.g. an unbuildable graph)."""


def h64(obj):
    data = obj if isinstance(obj, bytes) else repr(obj).encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(data, digest_size=8).digest(), "big")


class Check:
    """Base class. Subclasses define `id` and `cases`/`run_case`."""

    id = None
    level = "model_checking"
    technique = "bounded exhaustive enumeration of object graphs on the real code"
    level_note = (
        "Every case within the stated bounds is executed on the implementation and compared "
        "with a reference model; nothing is claimed beyond the bounds."
    )
    rule = ""
    bounds = {}
    assumptions = ()
    case_timeout = CASE_TIMEOUT

    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.transitions = 0
        self.outcomes = {}
        self.states = set()

    # -- to be overridden ------------------------------------------------
    def setup(self):
        """Called once in each worker before any case."""

    def cases(self):
        raise NotImplementedError

    def run_case(self, case):
        raise NotImplementedError

    # -- helpers for run_case --------------------------------------------
    def step(self, n=1):
        """n calls into the implementation were made."""
        self.transitions += n

    def outcome(self, label):
        self.outcomes[label] = self.outcomes.get(label, 0) + 1

    def state(self, key):
        self.states.add(h64(key))

    def extra_coverage(self):
        return {}


def _on_alarm(signum, frame):
    raise CaseTimeout()


def _describe(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]


def execute(check, case):
    """Run one case. Returns None or a violation message."""
    signal.setitimer(signal.ITIMER_REAL, check.case_timeout)
    try:
        check.run_case(case)
        return None
    except Skip:
        return Skip
    except Violation as v:
        return str(v)
    except CaseTimeout:
        return f"no answer after {check.case_timeout} s"
    except (KeyboardInterrupt, SystemExit) as exc:
        return "unexpected " + _describe(exc)
    except BaseException as exc:  # noqa: BLE001
        # the harness only calls the public API inside run_case: an exception
        # the check did not expect is a behaviour the model does not allow
        return "unexpected exception: " + _describe(exc)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(check_cls, tier, index, total, conn, progress):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGALRM, _on_alarm)
    sys.setrecursionlimit(RECURSION)
    check = check_cls(tier)
    try:
        check.setup()
        evaluated = skipped = 0
        samples, bad = [], []
        known, unknown = load_findings(check.id), 0
        for n, case in enumerate(check.cases()):
            if n % total != index:
                continue
            progress.value = n
            message = execute(check, case)
            if message is Skip:
                skipped += 1
                continue
            evaluated += 1
            if evaluated in (1, 50, 1000, 20000) and len(repr(case)) < 2000:
                samples.append(repr(case))
            if message is not None:
                bad.append((case, message))
                unknown += repr(case) not in known
                if unknown >= 200:
                    break
        conn.send(
            {
                "ok": True,
                "evaluated": evaluated,
                "skipped": skipped,
                "transitions": check.transitions,
                "outcomes": check.outcomes,
                "states": check.states,
                "samples": samples,
                "bad": bad,
                "extra": check.extra_coverage(),
            }
        )
    except BaseException as exc:  # noqa: BLE001
        conn.send({"ok": False, "error": _describe(exc)})
    finally:
        conn.close()


def load_findings(prop):
    try:
        with open(FINDINGS) as f:
            entries = json.load(f)
    except FileNotFoundError:
        return {}
    out = {}
    for e in entries["findings"]:
        if e["property"] == prop and e["status"] == "finding":
            for c in e["cases"]:
                out[c] = e["what"]
    return out


def write_replay(prop, tier, case, message):
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{h64((prop, case)):016x}.txt")
    with open(path, "w") as f:
        f.write(f"property: {prop}\ntier: {tier}\ncase: {case!r}\n\n{message}\n")
    return path


def run(check_cls, tier, jobs=None):
    t0 = time.time()
    prop = check_cls.id
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    ctx = multiprocessing.get_context("fork")
    workers = []
    for i in range(jobs):
        parent, child = ctx.Pipe(duplex=False)
        progress = ctx.Value("q", -1, lock=False)
        p = ctx.Process(
            target=_worker, args=(check_cls, tier, i, jobs, child, progress)
        )
        p.start()
        child.close()
        workers.append((p, parent, progress))
    results, bad, errors = [], [], []
    for p, conn, progress in workers:
        try:
            r = conn.recv()
        except EOFError:
            p.join()
            n = progress.value
            r = None
            if n >= 0 and p.exitcode is not None and p.exitcode < 0:
                c = check_cls(tier)
                for k, case in enumerate(c.cases()):
                    if k == n:
                        bad.append((case, f"process died with signal {-p.exitcode}"))
                        break
            else:
                errors.append(f"worker ended with code {p.exitcode} and no result")
        p.join()
        if r is None:
            continue
        if not r["ok"]:
            errors.append(r["error"])
            continue
        results.append(r)
        bad.extend(r["bad"])

    states = set()
    outcomes = {}
    for r in results:
        states |= r["states"]
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    known = load_findings(prop)
    reported, fresh = {}, []
    for case, message in sorted(bad, key=lambda b: (len(repr(b[0])), repr(b[0]))):
        what = known.get(repr(case))
        if what is None:
            fresh.append((case, message))
        else:
            reported[what] = reported.get(what, 0) + 1

    probe = check_cls(tier)
    samples = []
    for r in results:
        samples.extend(r["samples"][:1])
    for r in results:
        samples.extend(r["samples"][1:])
    coverage = {
        "states": len(states),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["evaluated"] for r in results),
        "unbuildable_skipped": sum(r["skipped"] for r in results),
        "distinct_outcomes": len(outcomes),
        "outcomes": dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
        "rule": probe.rule,
        "bounds": probe.bounds,
        "exhaustive": not errors and not fresh,
        "samples": samples[:12],
    }
    for r in results:
        for k, v in r["extra"].items():
            if isinstance(v, int):
                coverage[k] = coverage.get(k, 0) + v
            else:
                coverage[k] = v
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": check_cls.level,
        "coverage": coverage,
        "assumptions": list(probe.assumptions),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for what, n in sorted(reported.items()):
        print(f"KNOWN-FINDING: property={prop} {what} ({n} explored cases)")
    for case, message in fresh[:5]:
        path = write_replay(prop, tier, case, message)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  case {case!r}"[:600])
        print("  " + message.strip().replace("\n", "\n  ")[-1200:])
    if len(fresh) > 5:
        print(f"  ... and {len(fresh) - 5} further violating cases")
    print(
        f"{prop} {tier}: cases={coverage['traces_validated_against_impl']} states={coverage['states']} "
        f"transitions={coverage['transitions']} outcomes={coverage['distinct_outcomes']} "
        f"wall={evidence['wall_s']}s"
    )
    if fresh:
        return 1
    if errors:
        print("ERROR in the check itself:\n" + errors[0], file=sys.stderr)
        return 2
    if coverage["traces_validated_against_impl"] == 0:
        print("ERROR: nothing was explored", file=sys.stderr)
        return 2
    return 0


def replay(path, registry):
    with open(path) as f:
        head = dict(
            line.rstrip("\n").split(": ", 1) for line in f.readlines()[:3] if ": " in line
        )
    signal.signal(signal.SIGALRM, _on_alarm)
    sys.setrecursionlimit(RECURSION)
    check = registry(head["property"])(head["tier"])
    check.setup()
    message = execute(check, ast.literal_eval(head["case"]))
    if message is None or message is Skip:
        print("the property holds on this case")
        return 0
    print(f"VIOLATION property={head['property']} replay={path}\n{message}")
    return 1
