"""Runs the groups of one check, collects contract evaluations and obligations, writes evidence.

Outcome policy (see DESIGN.md):
 * a contract that fails on concrete values of the real code, or a proof obligation that is refuted
   -> VIOLATION line, exit 1;
 * a construct outside a prover's reach, a timeout or a missing private name -> recorded as undecided
   (the function falls back to bounded evaluation), never as a violation;
 * a case listed in known_findings.json -> KNOWN-FINDING line.
"""
from __future__ import annotations

import argparse
import collections
import importlib
import json
import multiprocessing
import os
import pathlib
import random
import signal
import sys
import time
import traceback
import zlib

from . import env
from .meta import BASE, META, note

EVIDENCE = pathlib.Path(env.VERIF) / "evidence"


class ContractFailure(AssertionError):
    """A contract of the real code evaluated to false on concrete values."""


class Skip(Exception):
    """The case cannot be evaluated on this tree (e.g. a private helper was renamed)."""


class StopGroup(BaseException):
    """The rest of a group is left out."""


class CaseTimeout(BaseException):
    pass


def private(obj, name):
    """Access to a private helper of the repository; absent after a refactoring -> Skip."""
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Skip(f"{obj!r} has no attribute {name}") from None


EVALS: collections.Counter = collections.Counter()  # contract name -> number of evaluations


def contract(target):
    """Mark a specification function as (part of) the contract of `target`; counts evaluations."""

    def deco(fn):
        import functools

        @functools.wraps(fn)
        def wrapped(*a, **k):
            for t in (target if isinstance(target, (list, tuple)) else [target]):
                EVALS[t] += 1
            return fn(*a, **k)

        wrapped.target = target
        return wrapped

    return deco


def check(cond, msg="contract clause is false"):
    if not cond:
        raise ContractFailure(msg if isinstance(msg, str) else msg())


def must_raise(excs, fn, *a, **k):
    """The call must be rejected with one of the given exceptions."""
    try:
        fn(*a, **k)
    except excs:
        return
    raise ContractFailure(f"call was accepted, but must raise {excs}")


class Obligation:
    """One proof obligation. status: discharged | refuted | undecided."""

    def __init__(self, name, function, status, backend, seconds=0.0, detail="", kind="post", counterexample=None):
        self.name, self.function, self.status = name, function, status
        self.backend, self.seconds, self.detail = backend, seconds, detail
        self.kind, self.counterexample = kind, counterexample

    def as_dict(self):
        return dict(self.__dict__)


class Ctx:
    def __init__(self, pid, group, tier, seed, deadline, only=None):
        self.pid, self.group, self.tier, self.seed = pid, group, tier, seed
        self.deadline, self.only = deadline, only
        self.cases = 0
        self.distinct = set()
        self.samples = []
        self.fails = []  # (label, message, traceback, inputs)
        self.skips = []
        self.timeouts = []
        self.hung, self.slowest = [], 0.0
        self.obligations = []
        self.assumptions = []
        self.notes = []

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def rng(self, label=""):
        return random.Random(zlib.crc32(f"{self.seed}|{self.pid}|{self.group}|{label}".encode()))

    def left(self):
        return self.deadline - time.time()

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def case(self, label, fn, *args, trivial=False, limit=90, **kwargs):
        """Evaluate one contract case. Returns True if it was evaluated and held."""
        if self.only is not None and self.only != label:
            return False
        self.cases += 1
        if not trivial:
            self.distinct.add(label)
        if len(self.samples) < 4:
            self.samples.append(f"{self.group}/{label}")

        def on_alarm(*_):
            raise CaseTimeout

        seed = zlib.crc32(f"{self.seed}|{label}".encode())
        import numpy as np
        random.seed(seed)
        np.random.seed(seed % 2**32)
        if self.hung:
            limit = min(limit, 45)
        started = time.process_time()
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            fn(*args, **kwargs)
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.slowest = max(self.slowest, time.process_time() - started)
            return True
        except Skip as e:
            self.skips.append((label, str(e)))
        except CaseTimeout:
            self.timeouts.append(label)
            self.no_answer(label, limit, time.process_time() - started)
        except MemoryError:
            self.timeouts.append(label)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            signal.setitimer(signal.ITIMER_REAL, 0)
            msg = f"{type(e).__name__}: {e}"
            try:
                inputs = [_short(a) for a in args] + [f"{k}={_short(v)}" for k, v in kwargs.items()]
            except Exception:
                inputs = []
            self.fails.append((label, msg[:2000], traceback.format_exc()[-6000:], inputs))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return False

    def no_answer(self, label, limit, used):
        """Two cases that run out of time, when all others are far from it, are calls that do not return."""
        if self.tier != "quick" or used < 0.7 * limit or used < 5 * self.slowest:
            return
        self.hung.append((label, used))
        if len(self.hung) >= 2:
            for name, seconds in self.hung:
                self.timeouts.remove(name)
                self.fails.append((name, f"no answer after {seconds:.0f} s of processor time; every case that ended took at most {self.slowest:.1f} s", "", []))
            raise StopGroup

    def ob(self, *a, **k):
        o = Obligation(*a, **k)
        self.obligations.append(o)
        return o

    def result(self):
        return dict(group=self.group, cases=self.cases, distinct=len(self.distinct), samples=self.samples,
                    fails=self.fails, skips=self.skips, timeouts=self.timeouts,
                    obligations=[o.as_dict() for o in self.obligations],
                    assumptions=self.assumptions, notes=self.notes, evals=dict(EVALS))


def _short(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return f"array({np.asarray(x).tolist()!r})"[:3000]
    return repr(x)[:1500]


def _inside_repo(exc):
    """Was the exception raised in (or below) a function of /repo that the harness called with prepared inputs?"""
    return any("/qldpc/" in f.filename and "/verif/" not in f.filename for f in traceback.extract_tb(exc.__traceback__))


def _run_group(pid, fn, name, tier, seed, deadline, only, conn):
    EVALS.clear()
    ctx = Ctx(pid, name, tier, seed, deadline, only)
    err = None
    try:
        fn(ctx)
    except StopGroup:
        pass
    except BaseException as e:
        if isinstance(e, Exception) and _inside_repo(e):
            ctx.fails.append(("(preparation of the inputs)", f"the code raises {type(e).__name__}: {e}"[:2000], traceback.format_exc()[-6000:], []))
        else:
            err = traceback.format_exc()[-6000:]
    res = ctx.result()
    res["error"] = err
    conn.send(res)
    conn.close()


def _run_all(pid, groups, tier, seed, only, limit):
    t0 = time.time()
    deadline = t0 + limit
    jobs = int(os.environ.get("VF_JOBS", 0)) or max(1, min(8, os.cpu_count() or 1))
    mp = multiprocessing.get_context("fork")
    pending, running, results = list(groups), [], []
    while pending or running:
        while pending and len(running) < jobs:
            name, fn = pending.pop(0)
            r, w = mp.Pipe(duplex=False)
            p = mp.Process(target=_run_group, args=(pid, fn, name, tier, seed, deadline, only, w))
            p.start()
            w.close()
            running.append((name, p, r, time.time()))
        for item in list(running):
            name, p, r, ts = item
            got = None
            if r.poll(0.02):
                try:
                    got = r.recv()
                except EOFError:
                    got = dict(group=name, dead=True)
            elif not p.is_alive() and not r.poll(0.05):
                got = dict(group=name, dead=True)
            elif time.time() - t0 > limit * 1.5 + 240:
                p.kill()
                got = dict(group=name, dead=True)
            if got is not None:
                p.join(5)
                got["seconds"] = round(time.time() - ts, 2)
                results.append(got)
                running.remove(item)
    order = {n: i for i, (n, _) in enumerate(groups)}
    results.sort(key=lambda r: order[r["group"]])
    return results


def load_known():
    path = pathlib.Path(env.VERIF) / "known_findings.json"
    return json.loads(path.read_text()) if path.exists() else {"findings": [], "fixed": []}


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--group")
    ap.add_argument("--case")
    ap.add_argument("--limit", type=float)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    pid = a.property
    t0 = time.time()
    mod = importlib.import_module(f"checks.{pid.lower()}")
    groups = list(mod.GROUPS.items()) if isinstance(mod.GROUPS, dict) else [(g.__name__, g) for g in mod.GROUPS]
    if a.group:
        groups = [g for g in groups if g[0] == a.group]
    limit = a.limit or (getattr(mod, "QUICK_LIMIT", 60) if tier == "quick" else getattr(mod, "THOROUGH_LIMIT", 600))
    results = _run_all(pid, groups, tier, seed, a.case, limit)

    known = [k for k in load_known()["findings"] if k["property"] == pid]
    known_cases = {(k["group"], k["case"]): k for k in known}
    violations, findings, undecided, errors = [], [], [], []
    evals = collections.Counter()
    obligations, assumptions, notes, samples = [], [], [], []
    cases = distinct = 0
    for r in results:
        if r.get("dead"):
            errors.append(f"group {r['group']} died or ran out of time")
            continue
        if r["error"]:
            errors.append(f"group {r['group']}: {r['error']}")
        cases += r["cases"]
        distinct += r["distinct"]
        samples += r["samples"][:3]
        evals.update(r["evals"])
        assumptions += [x for x in r["assumptions"] if x not in assumptions]
        notes += [x for x in r["notes"] if x not in notes]
        for label, msg, tb, inputs in r["fails"]:
            k = known_cases.get((r["group"], label))
            if k is not None and k.get("match", "") in msg:
                findings.append((k, msg))
            else:
                violations.append(dict(kind="contract evaluation on the real code", group=r["group"], case=label,
                                       message=msg, traceback=tb, inputs=inputs))
        undecided += [dict(group=r["group"], case=l, why=w) for l, w in r["skips"]]
        undecided += [dict(group=r["group"], case=l, why="time limit") for l in r["timeouts"]]
        for o in r["obligations"]:
            o["group"] = r["group"]
            obligations.append(o)
            if o["status"] == "refuted":
                k = known_cases.get((r["group"], o["name"]))
                if k is not None:
                    findings.append((k, o["detail"]))
                else:
                    violations.append(dict(kind="proof obligation refuted", group=r["group"], case=o["name"],
                                           message=o["detail"], function=o["function"], backend=o["backend"],
                                           counterexample=o["counterexample"]))
            elif o["status"] == "undecided":
                undecided.append(dict(group=r["group"], case=o["name"], why="obligation undecided: " + o["detail"][:400]))

    rdir = EVIDENCE / "replay"
    rdir.mkdir(parents=True, exist_ok=True)
    if not (a.group or a.case):
        for old in rdir.glob(f"{pid}-*.json"):
            old.unlink()
    lines = []
    for i, v in enumerate(violations):
        path = rdir / f"{pid}-{i}.json"
        v.update(property=pid, tier=tier, seed=seed,
                 rerun=f"cd /verif && VERIF_SEED={seed} bash run.sh {pid} {tier} --group '{v['group']}' --case '{v['case']}'")
        path.write_text(json.dumps(v, indent=1, default=str))
        if i < 10:
            concrete = v["kind"].startswith("contract evaluation") or v.get("counterexample")
            lines.append(f"VIOLATION property={pid} replay={path}" + ("" if concrete else " no-failing-input-found"))

    nd = sum(o["status"] == "discharged" for o in obligations)
    by_backend = collections.Counter(o["backend"] for o in obligations if o["status"] == "discharged")
    fun_ob = collections.Counter(o["function"] for o in obligations if o["status"] == "discharged")
    level = META[pid]["level"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": note(pid),
            "obligations": len(obligations), "discharged": nd,
            "undischarged": [o["name"] for o in obligations if o["status"] != "discharged"],
            "discharged_by_backend": dict(by_backend),
            "solver_seconds": round(sum(o["seconds"] for o in obligations), 2),
            "functions_proved": dict(fun_ob),
            "obligation_list": [f"{o['function']} :: {o['name']} [{o['status']}, {o['backend']}, {o['seconds']:.2f}s]" for o in obligations],
            "checker_cmd": f"bash /verif/run.sh {pid} {tier}",
            "trusted_base": BASE + assumptions,
            "bounded_contract_evaluations": dict(evals),
            "evaluations": cases, "distinct_nontrivial": distinct,
            "rule": "cases are the members of the listed groups: named families, edge shapes and pseudo-random inputs "
                    "drawn from VERIF_SEED; a case is non-trivial unless its code or input is empty",
            "samples": samples[:12],
            "undecided": undecided[:60],
            "groups": {r["group"]: r.get("seconds") for r in results},
            "notes": notes,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    EVIDENCE.mkdir(exist_ok=True)
    if not (a.group or a.case):
        (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1, default=str))
    for k, msg in findings:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for u in undecided[:20]:
        print(f"undecided: {u['group']}/{u['case']}: {u['why'][:300]}")
    for v in violations[:10]:
        print(f"failed: {v['group']}/{v['case']}: {v['message'][:600]}")
    for line in lines:
        print(line)
    print(f"{pid} {tier}: {cases} cases, {sum(evals.values())} contract evaluations, "
          f"{nd}/{len(obligations)} obligations discharged, {len(violations)} violations, "
          f"{len(findings)} known findings, {len(undecided)} undecided, {time.time() - t0:.1f}s")
    if violations:
        return 1
    if errors:
        for e in errors:
            print("error:", e, file=sys.stderr)
        return 3
    minimum = min(1, META[pid]["minimum"])  # a refactoring may leave groups undecided; it never empties a run
    if not (a.group or a.case) and (len(obligations) < minimum or cases + len(obligations) == 0):
        print(f"error: vacuous run ({len(obligations)} obligations, expected at least {minimum})", file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
