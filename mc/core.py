"""Shared machinery: case runner (worker pool with hang detection), evidence, findings.

A check module defines
    ID        property id
    MODE      'jit' (compiled, as users run it) or 'pure' (NUMBA_DISABLE_JIT=1: same source,
              random draws under the harness' control)
    cases(tier)      -> list of JSON-able case descriptors (the enumerated space)
    run_case(case)   -> Result
    warm()           optional, executed once in the parent before workers are forked
    ASSUMPTIONS, EXHAUSTIVE, CASE_TIMEOUT optional
"""
import collections
import errno
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
NPROC = int(os.environ.get("MC_NPROC", "8"))


class Violation(Exception):
    pass


class Result:
    """What one case explored."""

    def __init__(self):
        self.states = 0          # distinct states visited (as counted by the check)
        self.transitions = 0     # real-code steps executed
        self.traces = 0          # complete traces compared with the implementation
        self.outcomes = set()    # digests of distinct observed outcomes
        self.violations = []     # list of (message, detail)
        self.findings = {}       # message -> detail; violations that do not stop the exploration
        self.sample = None
        self.extra = collections.Counter()

    def fail(self, msg, detail=None):
        if len(self.violations) < 20:
            self.violations.append((msg, detail))

    def finding(self, msg, detail=None):
        """a violation after which the exploration goes on (it may be a listed known finding)"""
        self.findings.setdefault(msg, detail)

    def seen(self, obj):
        self.outcomes.add(digest(obj))

    def pack(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    outcomes=list(self.outcomes), violations=self.violations, findings=self.findings,
                    sample=self.sample, extra=dict(self.extra))


def digest(obj):
    import numpy as np
    h = hashlib.blake2b(digest_size=8)

    def upd(o):
        if isinstance(o, np.ndarray):
            h.update(str(o.shape).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in sorted(o):
                h.update(str(k).encode())
                upd(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"[")
            for x in o:
                upd(x)
            h.update(b"]")
        else:
            h.update(repr(o).encode())
    upd(obj)
    return h.hexdigest()


def classify_exception(tb):
    """'repo' if the deepest frame belonging to either code base is the project's."""
    where = "harness"
    for f in traceback.extract_tb(tb):
        fn = os.path.realpath(f.filename)
        if fn.startswith(os.path.realpath(REPO) + os.sep):
            where = "repo"
        elif fn.startswith(VERIF + os.sep):
            where = "harness"
    return where


def environmental(e):
    """trouble of the machine and not of the code under test"""
    return isinstance(e, (MemoryError, KeyboardInterrupt, SystemExit, ImportError, BlockingIOError, BrokenPipeError, ConnectionError)) or (
        isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN, errno.EDQUOT, errno.EROFS))


class Scratch:
    """A scratch directory that is removed afterwards; cwd is moved into it."""

    def __init__(self):
        self.path = None

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="mcv_")
        self.old = os.getcwd()
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)


def _worker(mod, conn, quiet):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if quiet:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
    import warnings
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        idx, case = job
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with Scratch():
                    r = mod.run_case(case)
            conn.send((idx, "ok", r.pack()))
        except BaseException as e:  # noqa
            where = classify_exception(e.__traceback__)
            if isinstance(e, Violation):
                where = "violation"
            elif where == "harness" and not environmental(e):
                # the case is evaluated without error on the unchanged tree, so what the code produced cannot be examined
                where = "unexaminable"
            conn.send((idx, where, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]))
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                os._exit(3)


def run_cases(mod, cases, nproc=NPROC, timeout=None, stop_after=3, budget=None):
    """Distribute the cases over forked workers.  A worker that hangs or dies is itself a finding."""
    timeout = timeout or getattr(mod, "CASE_TIMEOUT", 240)
    ctx = mp.get_context("fork")
    pending = collections.deque(enumerate(cases))
    results, violations, errors = {}, [], []
    workers = {}
    t_end = time.time() + budget if budget else None
    capped = False

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(mod, b, True), daemon=False)
        p.start()
        b.close()
        workers[a] = dict(p=p, job=None, t=0.0)
        return a

    def feed(a):
        nonlocal capped
        if t_end and time.time() > t_end and pending:
            capped = True
            pending.clear()
        if pending and not errors and len(violations) < stop_after:
            job = pending.popleft()
            workers[a]["job"] = job
            workers[a]["t"] = time.time()
            a.send(job)
        else:
            try:
                a.send(None)
            except OSError:
                pass
            w = workers.pop(a)
            w["p"].join(20)
            if w["p"].is_alive():
                w["p"].kill()
            a.close()

    for _ in range(min(nproc, max(1, len(cases)))):
        feed(spawn())
    while workers:
        ready = mpc.wait(list(workers), timeout=1.0)
        for a in ready:
            w = workers[a]
            try:
                idx, kind, payload = a.recv()
            except (EOFError, ConnectionResetError):
                idx, case = w["job"]
                w["p"].join(5)
                violations.append((case, "the process executing the case died (exit code %s)" % w["p"].exitcode, None))
                workers.pop(a)
                a.close()
                if pending and len(violations) < stop_after:
                    feed(spawn())
                continue
            case = w["job"][1]
            if kind == "ok":
                results[idx] = payload
                for m, d in payload["violations"]:
                    violations.append((case, m, d))
            elif kind == "repo":
                violations.append((case, "unexpected exception from the code under test", payload))
            elif kind == "unexaminable":
                violations.append((case, "what the code produced cannot be examined: " + payload.strip().splitlines()[-1], payload))
            elif kind == "violation":
                violations.append((case, payload.strip().splitlines()[-1], payload))
            else:
                errors.append((case, payload))
            feed(a)
        now = time.time()
        for a in list(workers):
            w = workers[a]
            if w["job"] is not None and now - w["t"] > timeout:
                w["p"].kill()
                w["p"].join()
                violations.append((w["job"][1], "case did not terminate within %g s" % timeout, None))
                workers.pop(a)
                a.close()
                if pending and len(violations) < stop_after:
                    feed(spawn())
    return results, violations, errors, capped


# ------------------------------------------------------------------ findings
def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def match_finding(pid, msg, findings):
    for f in findings:
        if f.get("status") == "known" and f["property"] == pid and f["signature"] in msg:
            return f
    return None


# ------------------------------------------------------------------ main
def main(pid, tier, seed):
    import importlib
    t0 = time.time()
    mod = importlib.import_module("mc.checks." + pid.lower())
    if getattr(mod, "MODE", "jit") == "pure":
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    sys.path.insert(0, REPO)
    # scratch files of this run live in one directory that is removed at the end
    base = tempfile.mkdtemp(prefix="mcv_%s_" % pid)
    tempfile.tempdir = base
    os.environ["TMPDIR"] = base
    try:
        return _main(mod, pid, tier, seed, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _import_target():
    import pyDeltaRCM
    here = os.path.realpath(os.path.dirname(pyDeltaRCM.__file__))
    if here != os.path.realpath(os.path.join(REPO, "pyDeltaRCM")):
        raise SystemExit("imported pyDeltaRCM from %s, not from %s" % (here, REPO))


def _main(mod, pid, tier, seed, t0):
    _import_target()
    results, violations, errors, capped = {}, [], [], False
    import warnings
    if hasattr(mod, "warm"):
        out = os.dup(1)
        try:
            with warnings.catch_warnings(), Scratch():
                warnings.simplefilter("ignore")
                os.dup2(2, 1)
                mod.warm()
        except BaseException as e:  # noqa
            os.dup2(out, 1)
            txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))
            if classify_exception(e.__traceback__) == "repo":
                violations.append(({"warm": True}, "unexpected exception from the code under test", txt))
            else:
                print(txt, file=sys.stderr)
                return 2
        finally:
            os.dup2(out, 1)
            os.close(out)
    cases = []
    if not violations:
        cases = list(mod.cases(tier))
        # the seed only rotates the order in which the (complete) case list is worked through
        k = seed % max(1, len(cases))
        budget = float(os.environ.get("MC_BUDGET", "700" if tier == "quick" else "100000"))
        results, violations, errors, capped = run_cases(mod, cases[k:] + cases[:k], budget=budget)
    if errors:
        print("HARNESS ERROR in case %s\n%s" % (json.dumps(errors[0][0], default=str)[:2000], errors[0][1]), file=sys.stderr)
        if not violations:
            return 2

    findings = load_findings()
    known, new = {}, []
    for case, msg, detail in violations:
        f = match_finding(pid, msg, findings)
        if f:
            known.setdefault(f["id"], f)
        else:
            new.append((case, msg, detail))
    for i in sorted(results):
        for msg, detail in sorted(results[i].get("findings", {}).items()):
            f = match_finding(pid, msg, findings)
            if f:
                known.setdefault(f["id"], f)
            else:
                case = cases[(i + k) % len(cases)]
                new.append((detail["case"] if isinstance(detail, dict) and "case" in detail else case, msg, detail))
    agg = dict(states=0, transitions=0, traces=0)
    outcomes, extra = set(), collections.Counter()
    samples = []
    for i in sorted(results):
        r = results[i]
        for k in agg:
            agg[k] += r[k]
        outcomes.update(r["outcomes"])
        extra.update(r["extra"])
        if r["sample"] is not None and len(samples) < 6:
            samples.append(r["sample"])
    if not samples:
        samples = [c for c in cases[:3]]
    level = getattr(mod, "LEVEL", "model_checking")
    cov = dict(cases=len(cases), cases_completed=len(results), distinct_outcomes=len(outcomes),
               bounds=getattr(mod, "BOUNDS", {}).get(tier, ""), capped=capped,
               exhaustive=bool(getattr(mod, "EXHAUSTIVE", True) and not capped and len(results) == len(cases)),
               samples=samples)
    if level == "model_checking":
        cov.update(states=agg["states"], transitions=agg["transitions"],
                   traces_validated_against_impl=agg["traces"])
    else:
        cov.update(evaluations=agg["transitions"], distinct_nontrivial=len(outcomes),
                   rule=getattr(mod, "RULE", ""), states=agg["states"])
    for k, v in sorted(extra.items()):
        cov.setdefault(k, v)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for f in known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    print("%s %s: cases=%d/%d states=%d transitions=%d traces=%d outcomes=%d capped=%s wall=%.1fs" % (
        pid, tier, len(results), len(cases), agg["states"], agg["transitions"], agg["traces"],
        len(outcomes), capped, time.time() - t0))
    if new:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for n, (case, msg, detail) in enumerate(new[:5]):
            path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump(dict(property=pid, case=case, message=msg, detail=detail,
                               how="bash /verif/run.sh replay " + path), f, indent=1, default=str)
            print("  %s" % msg[:400])
            if detail:
                print("    " + str(detail)[-1500:].replace("\n", "\n    "))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        return 1
    sys.stdout.flush()
    if capped or (cases and len(results) != len(cases)):
        print("note: run was capped before the case list was finished", file=sys.stderr)
    return 0


def replay(path):
    import importlib
    import warnings
    d = json.load(open(path))
    mod = importlib.import_module("mc.checks." + d["property"].lower())
    if getattr(mod, "MODE", "jit") == "pure":
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    sys.path.insert(0, REPO)
    _import_target()
    warnings.simplefilter("ignore")
    with Scratch():
        if "warm" in (d["case"] if isinstance(d["case"], dict) else {}):
            mod.warm()
            return 0
        try:
            r = mod.run_case(d["case"])
        except Exception:
            traceback.print_exc()
            return 1
    r.violations = list(r.violations) + list(r.findings.items())
    for m, det in r.violations:
        print(m, "\n   ", det)
    print("reproduced" if r.violations else "not reproduced")
    return 1 if r.violations else 0
