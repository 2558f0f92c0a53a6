"""Exploration engine: enumerates the cases of one property over all cores and judges them.

A property module (mc.props.cNN) provides

  PROP, ASSUMPTIONS, RULE
  cases(tier)      deterministic generator of JSON-able cases, simplest first
  run(case, st)    executes one case on the implementation; raises Violation (or any exception) on disagreement
  LIMIT            optional per-case time limit in seconds

Exit codes: 0 property held on everything explored, 1 violation.  Nothing else.
"""
from __future__ import annotations

import collections
import gc
import importlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
WORKERS = int(os.environ.get("MC_WORKERS", 0)) or max(2, min(16, os.cpu_count() or 8))
DEADLINE = {"quick": 600, "thorough": 780}
MEMORY = 3 << 30
RECYCLE = 900 << 20  # a worker is replaced when it grows beyond this: classes of the library are never collected


def rss():
    with open("/proc/self/statm") as fh:
        return int(fh.read().split()[1]) * resource.getpagesize()


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = collections.Counter()
        self.outcomes: set = set()
        self.samples: list = []

    def state(self, n=1):
        self.states += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, key, n=1):
        self.extra[key] += n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(key))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)


def canon(case):
    return json.loads(json.dumps(case))


def known_findings(prop):
    path = ROOT / "known_findings.json"
    if not path.exists():
        return []
    return [e for e in json.loads(path.read_text()).get("findings", []) if e["property"] == prop]


def match_known(known, case, message):
    for e in known:
        if e["case"] == case and message.startswith(e.get("observed", "")):
            return e
    return None


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    if isinstance(exc, CaseTimeout):
        return "case did not terminate within its time limit"
    tb = traceback.extract_tb(exc.__traceback__)
    where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}" if tb else "?"
    return f"unexpected {type(exc).__name__}: {str(exc)[:300]} (in {where})"


def _alarm(*_):
    raise CaseTimeout


def run_case(mod, case, st, limit):
    """Returns None or the violation message."""
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run(case, st)
    except (Exception, CaseTimeout) as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return describe(e), "".join(traceback.format_exception(e))[-6000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def worker(mod, tier, w, n, wfd, deadline, known, start=0):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (ValueError, OSError):
        pass
    out = os.fdopen(wfd, "w")
    st = Stats()
    limit = getattr(mod, "LIMIT", 60)
    done = total = 0
    capped = False
    knowns = []
    result = {}
    try:
        for i, case in enumerate(mod.cases(tier)):
            total = i + 1
            if i % n != w or i < start:
                continue
            if time.monotonic() > deadline:
                capped = True
                break
            if rss() > RECYCLE and done:
                result = {"resume": i}
                break
            if done < 1 or (done & 1023) == 512:
                st.sample(getattr(mod, "show", lambda c: c)(case))
            bad = run_case(mod, case, st, limit)
            done += 1
            if bad:
                e = match_known(known, canon(case), bad[0])
                if e:
                    knowns.append(e["id"])
                    continue
                result = {"violation": {"index": i, "case": case, "message": bad[0], "trace": bad[1]}}
                break
    except BaseException as e:  # noqa: BLE001 -- fail closed
        result = {"violation": {"index": total, "case": None, "message": "harness: " + describe(e),
                                "trace": "".join(traceback.format_exception(e))[-6000:]}}
    result.update(done=done, total=total, capped=capped, knowns=knowns, states=st.states, transitions=st.transitions,
                  traces=st.traces, extra=dict(st.extra), outcomes=list(st.outcomes), samples=st.samples)
    out.write(json.dumps(result))
    out.close()
    os._exit(0)


def explore(mod, tier, known):
    start = time.monotonic()
    deadline = start + float(os.environ.get("MC_DEADLINE", DEADLINE[tier]))
    prepare = getattr(mod, "prepare", None)
    if prepare:
        prepare(tier)
    gc.collect()
    gc.freeze()
    n = WORKERS
    procs = {}
    sys.stdout.flush()

    def spawn(w, first):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(mod, tier, w, n, wfd, deadline, known, first)
            finally:
                os._exit(97)
        os.close(wfd)
        procs[r] = (pid, w, bytearray())

    for w in range(n):
        spawn(w, 0)
    results = {}
    violation = None
    found = None
    hard = deadline + getattr(mod, "LIMIT", 60) + 30
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            pid, w, buf = procs[fd]
            if chunk:
                buf += chunk
                continue
            os.close(fd)
            del procs[fd]
            _, status = os.waitpid(pid, 0)
            try:
                res = json.loads(bytes(buf).decode())
            except ValueError:
                res = {"violation": {"index": 1 << 60, "case": None,
                                     "message": f"worker {w} died (wait status {status})", "trace": ""}}
            results.setdefault(w, []).append(res)
            if "resume" in res:
                spawn(w, res["resume"])
            v = res.get("violation")
            if v and (violation is None or v["index"] < violation["index"]):
                violation = v
        now = time.monotonic()
        if violation and found is None:
            found = now  # give the other workers a moment to report an earlier case
        if procs and ((found and now > found + 3) or now > hard):
            if not violation:
                violation = {"index": 1 << 60, "case": None, "message": "a worker hung", "trace": ""}
            for fd, (pid, _, _) in list(procs.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
            procs.clear()
    return results, violation, time.monotonic() - start


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED") or 0)
    evidence = ROOT / "evidence" / f"{prop}.json"
    known = known_findings(prop)
    violation = None
    results, wall, mod = {}, 0.0, None
    try:
        mod = importlib.import_module(f"mc.props.{prop.lower()}")
        results, violation, wall = explore(mod, tier, known)
    except BaseException as e:  # noqa: BLE001 -- fail closed
        violation = {"index": 0, "case": None, "message": "harness: " + describe(e),
                     "trace": "".join(traceback.format_exception(e))[-6000:]}
    agg = collections.Counter()
    extra = collections.Counter()
    outcomes, samples, knowns, capped = set(), [], set(), False
    for r in (r for w in sorted(results) for r in results[w]):
        for k in ("done", "states", "transitions", "traces"):
            agg[k] += r.get(k, 0)
        extra.update(r.get("extra", {}))
        outcomes.update(r.get("outcomes", ()))
        samples.extend(r.get("samples", ()))
        knowns.update(r.get("knowns", ()))
        capped |= r.get("capped", False)
    cov = {
        "states": agg["states"],
        "transitions": agg["transitions"],
        "traces_validated_against_impl": agg["traces"],
        "cases": agg["done"],
        "distinct_outcomes": len(outcomes),
        "samples": samples[:12],
        "exhaustive": not capped and violation is None,
        "rule": getattr(mod, "RULE", ""),
        **{k: v for k, v in sorted(extra.items())},
    }
    doc = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    evidence.parent.mkdir(exist_ok=True)
    evidence.write_text(json.dumps(doc, indent=1) + "\n")
    for e in known:
        if e["id"] in knowns:
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    print(f"{prop} {tier}: cases={agg['done']} states={agg['states']} transitions={agg['transitions']} "
          f"traces={agg['traces']} outcomes={len(outcomes)} exhaustive={cov['exhaustive']} wall={wall:.1f}s "
          + " ".join(f"{k}={v}" for k, v in sorted(extra.items())))
    if violation:
        out = ROOT / "out"
        out.mkdir(exist_ok=True)
        path = out / f"{prop}-violation.json"
        path.write_text(json.dumps({"property": prop, **violation}, indent=1) + "\n")
        print(violation["message"])
        if os.environ.get("MC_TRACE"):
            print(violation["trace"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def replay(path):
    doc = json.loads(Path(path).read_text())
    mod = importlib.import_module(f"mc.props.{doc['property'].lower()}")
    if doc["case"] is None:
        print(doc["message"])
        print(doc["trace"])
        return 1
    signal.signal(signal.SIGALRM, _alarm)
    bad = run_case(mod, doc["case"], Stats(), getattr(mod, "LIMIT", 60))
    if bad:
        print(bad[0])
        print(bad[1])
        print(f"VIOLATION property={doc['property']} replay={path}")
        return 1
    print("case passes")
    return 0
