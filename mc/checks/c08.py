"""C08: batch execution.

Explored: the complete state graph (all interleavings) of the real `run_jobs` and the real job bodies under a
controlled scheduler, for every assignment of failures to jobs, plus every failure assignment of serial batches.
"""
import copy
import io
import itertools
import os
import sys

from mc import core, lib

ID = "C08"
MODE = "pure"
CASE_TIMEOUT = 600
BOUNDS = {
    "quick": "every assignment of {no failure, fails at output initialization / in a step / at finalization / in a step and at finalization} to the jobs. Parallel, all interleavings of all operations: 1-2 jobs, 1-2 slots, message pipe holding 1 or many messages; 3 jobs with sending a message grouped with the work before it: 1 slot all assignments of at most two different outcomes, 2 slots some single and multiple failures, 3 slots two. Serial: up to 3 jobs",
    "thorough": "as quick with every assignment for 3 jobs on 1-2 slots, single failures on 3 slots, all operations interleaved for some, and 4 jobs on 1-2 slots",
}
ASSUMPTIONS = ["a job fails by raising an exception while it runs (not by being killed)",
               "jobs interact only through the semaphore, the queue and process exit; model steps are local to a job",
               "multiprocessing primitives are replaced by stand-ins with the documented semantics (bounded pipe, exit waits for the feeder)"]

F = ["ok", "init", "step", "final", "both"]


def cases(tier):
    out = []
    for n in (1, 2, 3):
        for a in itertools.product(F, repeat=n):
            out.append(dict(kind="serial", fail=list(a)))
    for n in (1, 2):
        for a in itertools.product(F, repeat=n):
            for slots in (1, 2) if n > 1 else (1,):
                for cap in (1, 99):
                    out.append(dict(kind="par", fail=list(a), slots=slots, cap=cap, resume=False))
    def three(a, slots, fine=False):
        out.append(dict(kind="par", fail=list(a), slots=slots, cap=2, resume=False, fine=fine))
    singles = [("ok",) * i + (f,) + ("ok",) * (2 - i) for i in range(3) for f in F[1:]]
    mixed = [("ok",) * 3, ("init", "step", "ok"), ("ok", "final", "both"), ("both", "init", "final"), ("step",) * 3]
    for a in itertools.product(F, repeat=3):
        if tier != "quick" or len(set(a)) < 3:
            three(a, 1)
        if tier != "quick":
            three(a, 2)
    if tier == "quick":
        for a in mixed + [s for s in singles if s[2] != "ok" or "step" in s]:
            three(a, 2)
    for a in mixed[:2] if tier == "quick" else singles + mixed:
        three(a, 3)
    if tier != "quick":
        for a in mixed:
            three(a, 2, True)
            three(a, 1, True)
    for a in (("ok", "ok"), ("init", "ok"), ("ok", "init"), ("step", "init")):
        out.append(dict(kind="par", fail=list(a), slots=2, cap=2, resume=True))
    out.append(dict(kind="par", fail=["ok", "step", "ok"], slots=True, cap=2, resume=False, fine=False))
    out.append(dict(kind="par", fail=["ok", "ok"], slots=7, cap=2, resume=False))
    if tier != "quick":
        for a in (("ok",) * 4, ("step", "ok", "init", "ok"), ("final", "both", "ok", "ok")):
            for slots in (1, 2):
                out.append(dict(kind="par", fail=list(a), slots=slots, cap=2, resume=False, fine=False))
    return out


def warm():
    from mc import sched
    sched.install()
    from pyDeltaRCM import preprocessor  # noqa  (after the stand-ins are in place)
    import yaml
    real, memo = yaml.load, {}

    def load(stream, Loader=None):
        """The same text always gives the same settings."""
        text = stream if isinstance(stream, (str, bytes)) else stream.read()
        k = (text, Loader)
        if k not in memo:
            memo[k] = real(text, Loader=Loader)
        return copy.deepcopy(memo[k])
    yaml.load = load


EXC = [RuntimeError, ValueError, KeyError, MemoryError, ZeroDivisionError, OSError, Exception]
STEPS = 2


class Log:
    def __init__(self):
        self.lines = []

    def _add(self, *a, **k):
        self.lines.append(" ".join(str(x) for x in a))
    info = warning = error = exception = debug = critical = _add


def fake(case, jobs):
    """The real model class with its numerics taken out: only the interface a job uses."""
    M = lib.DeltaModel()

    class Fake(M):
        def __init__(self, input_file=None, defer_output=False, **kw):
            n = len(jobs)
            self.k = n
            self.events = []
            self.fail = case["fail"][n] if n < len(case["fail"]) else "ok"
            self.token = "token%dq" % n
            self._time, self._dt, self._time_iter, self._save_iter = 0.0, 10.0, 0, 0
            self._verbose = 0
            self._is_finalized = False
            self.logger = Log()
            self._resume_checkpoint = bool(case.get("resume"))
            self.defer = defer_output
            jobs.append(self)

        def boom(self, where):
            self.events.append(where)
            if where == "init" and self.fail == "init" or where == "step" and self.fail in ("step", "both") and self._time_iter == 1 \
                    or where == "final" and self.fail in ("final", "both"):
                raise EXC[(self.k * 3 + len(self.fail)) % len(EXC)](self.token)

        def init_output_file(self):
            self.boom("init")

        def load_checkpoint(self, defer_output=False):
            self.boom("init")

        def output_data(self):
            self.events.append("data")

        def output_checkpoint(self):
            self.events.append("ckpt")

        def update(self):
            self.boom("step")
            self._time += self._dt
            self._time_iter += 1

        def finalize(self):
            self.events.append("finalize")
            # others may run while this job is still at work
            from mc import sched
            if sched.CUR is not None:
                sched.CUR.point(("work",))
            self.boom("final")
            self._is_finalized = True
    return Fake


def make_pp(case):
    from pyDeltaRCM.preprocessor import Preprocessor
    n = len(case["fail"])
    spec = dict(out_dir="root", timesteps=STEPS, resume_checkpoint=True)
    if case["kind"] == "par":
        spec["parallel"] = case["slots"]
    if n == 1:
        with open("one.yml", "w") as f:
            f.write("out_dir: root1\ntimesteps: %d\n" % STEPS + ("parallel: %s\n" % case["slots"] if case["kind"] == "par" else ""))
        return Preprocessor("one.yml")
    spec["set"] = [dict(seed=i) for i in range(n)]
    return Preprocessor(spec)


def check_jobs(case, jobs, text, parallel):
    n = len(case["fail"])
    if len(jobs) != n:
        return "the batch created %d models for %d jobs" % (len(jobs), n)
    for j in jobs:
        steps = j.events.count("step")
        fin = j.events.count("finalize")
        want = STEPS if j.fail in ("ok", "final") else 2 if j.fail in ("step", "both") else 0 if (parallel and j.fail == "init") else STEPS
        if steps != want:
            return "job %d (%s) performed %d of %d steps" % (j.k, j.fail, steps, want)
        if fin != 1:
            return "job %d (%s) was finalized %d times" % (j.k, j.fail, fin)
        failed = j.fail in ("step", "final", "both") or (parallel and j.fail == "init")
        said = text + " ".join(j.logger.lines)
        if failed and j.token not in said:
            return "the failure of job %d was not reported" % j.k
        if failed and parallel and j.token not in text:
            return "the failure of job %d was not reported by the batch" % j.k
        if not failed and j.token in said:
            return "job %d was reported as failed" % j.k
    return None


def run_case(case):
    from mc import sched
    from pyDeltaRCM import preprocessor
    sched.install()
    res = core.Result()
    preprocessor.time.sleep = sched.sleep if case["kind"] == "par" else (lambda *_: None)
    if case["kind"] == "serial":
        jobs = []
        pp = make_pp(case)
        old, sys.stdout = sys.stdout, io.StringIO()
        try:
            pp.run_jobs(DeltaModel=fake(case, jobs))
        finally:
            text, sys.stdout = sys.stdout.getvalue(), old
        e = check_jobs(case, jobs, text, False)
        if e:
            res.fail("serial batch: " + e, case)
        res.transitions = sum(len(j.events) for j in jobs)
        res.states = res.traces = 1
        res.seen((case["fail"], [j.events for j in jobs]))
        res.sample = case
        return res

    n = len(case["fail"])
    if case["slots"] is True:
        preprocessor.multiprocessing.cpu_count = lambda: 3
        slots = 2
    else:
        slots = case["slots"]
    cell = {}
    old = sys.stdout
    pp0 = make_pp(case)

    def start():
        cell["jobs"] = []
        cell["out"] = sys.stdout = io.StringIO()
        cell["pp"] = copy.deepcopy(pp0)
        cell["returned"] = False

    def main():
        cell["pp"].run_jobs(DeltaModel=fake(case, cell["jobs"]))
        cell["returned"] = True
        cell["alive"] = [t.name for t in sched.CUR.tasks[1:] if not t.done]

    def active():
        return [j.k for j in cell["jobs"] if j.events and j.events[-1] != "final"]

    def monitor(s):
        a = active()
        if len(a) > slots:
            return "%d jobs run at the same time with %d slots" % (len(a), slots)
        return None

    def end(s):
        main_t = s.tasks[0]
        if main_t.error is not None:
            return "run_jobs ended with %r" % (main_t.error,)
        if not cell["returned"]:
            return "run_jobs did not return"
        if cell["alive"]:
            return "run_jobs returned before %s ended" % ", ".join(cell["alive"])
        if len(s.started) != n or len(set(map(id, s.started))) != n:
            return "%d of %d jobs were started" % (len(s.started), n)
        for o in s.objects:
            if isinstance(o, sched.Semaphore) and o.value != o.initial:
                return "job slots were not all given back (%d of %d)" % (o.value, o.initial)
        res.seen((case["fail"], [j.events for j in cell["jobs"]], slots))
        return check_jobs(case, cell["jobs"], cell["out"].getvalue(), True)

    ex = sched.Explorer(main, monitor, capacity=case["cap"], max_states=None, fine=case.get("fine", True))
    try:
        ex.explore(end, start)
    finally:
        sys.stdout = old
    for e, trace in ex.errors[:1]:
        res.fail("parallel batch: " + e, dict(case, schedule=trace))
    res.states = len(ex.visited) + len(ex.terminal)
    res.transitions = ex.transitions
    res.traces = ex.executions
    res.sample = dict(case, states=res.states, executions=ex.executions, terminal_states=len(ex.terminal))
    if len(ex.terminal) == 0 and not ex.errors:
        res.fail("parallel batch: no execution reaches the end", case)
    return res
