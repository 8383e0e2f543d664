"""U01-U04, U06, U07, U10: model-based monitors on the utility code."""
import re, json
from common import *

def harvest(chk, r, replay, what):
    for l in r.out.splitlines():
        if l.startswith("FAIL "):
            _, key, msg = l.split(" ", 2)
            chk.violation(key, msg, replay)
        elif l.startswith("SAMPLE "):
            if len(chk.samples) < 8:
                chk.samples.append(l[7:])
        elif l.startswith("COUNT "):
            chk.count(l.split()[1], int(l.split()[2]))
        elif l.startswith("STAT "):
            _, a, b = l.split()
            chk.evals += int(a)
            chk.extra["distinct"] = chk.extra.get("distinct", 0) + int(b)
    n = chk.sanitizer(r.err, replay)
    if r.timeout:
        return "timeout"
    if r.rc != 0 and not n:
        chk.violation("%s:abnormal-exit:%s" % (what, r.rc), "exit %s\n%s" % (r.rc, r.err[-2000:]), replay)
    if r.rc == 0 and "STAT" not in r.out:
        raise HarnessError("no statistics from " + what)

def usrc(repo, threaded=False):
    return runtime_sources(repo, threaded) + g(repo, "util/deque.c")

DEFS = ["PLATFORM_Linux", "LOG_LEVEL=0", "LF_SINGLE_THREADED=1", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10"]
DEFST = ["PLATFORM_Linux", "LOG_LEVEL=0", "NUMBER_OF_WORKERS=4", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10"]

def simple(what, rule, quick, thorough, nruns=4):
    def f(chk):
        exe = build("u_check", usrc(REPO) + [os.path.join(VERIF, "c", "u_check.c"), os.path.join(VERIF, "c", "u_stub.c")], DEFS)
        n = quick if chk.quick else thorough
        seeds = [chk.seed * 1000 + i for i in range(nruns if chk.quick else 8)]
        def one(s):
            cmd = [exe, what, str(s), str(n)]
            r = run(cmd, timeout=600)
            if r.timeout:
                r = run(cmd, timeout=800)
            return s, cmd, r
        for s, cmd, r in pmap(one, seeds):
            if harvest(chk, r, dict(cmd=cmd[1:]), what) == "timeout":
                chk.violation(what + ":hang", "did not finish twice", dict(cmd=cmd[1:]))
        chk.rule = rule
        chk.assumptions = ["gcc 13 with AddressSanitizer and UndefinedBehaviorSanitizer, x86-64 Linux"]
        return chk.finish(ndistinct=chk.extra.pop("distinct", 0))
    return f

def clock(chk):
    n = 60000 if chk.quick else 1500000
    for flags, nm in ((ASAN, "asan"), (TSAN, "tsan")):
        exe = build("u_clock_" + nm, usrc(REPO, True) + [os.path.join(VERIF, "c", "u_clock.c"), os.path.join(VERIF, "c", "u_stub.c")], DEFST, flags, ld=wraps("_lf_clock_gettime"))
        for i, nt in enumerate((2, 4, 8)):
            cmd = [exe, str(chk.seed * 10 + i), str(n), str(nt)]
            r = run(cmd, timeout=300)
            if harvest(chk, r, dict(cmd=cmd[1:], build=nm), "clock") == "timeout":
                chk.inconclusive.append("clock run timed out")
    chk.rule = "readings of physical time under an injected system clock that steps back, jumps and stalls; single thread against an exact model, 2-8 threads against the order of completed readings; distinct = combinations of clock step kind and relation to the last reading, per thread count"
    return chk.finish(ndistinct=chk.extra.pop("distinct", 0))

def sem(chk):
    n = 60 if chk.quick else 1200
    for flags, nm in ((ASAN, "asan"), (TSAN, "tsan"), (PLAIN, "plain")):
        exe = build("u_sem_" + nm, usrc(REPO, True) + [os.path.join(VERIF, "c", "u_sem.c"), os.path.join(VERIF, "c", "u_stub.c")], DEFST, flags)
        def one(i):
            cmd = [exe, str(chk.seed * 10 + i), str(n)]
            r = run(cmd, timeout=240)
            if r.timeout:
                r = run(cmd, timeout=240)
            return cmd, r
        for cmd, r in pmap(one, range(2)):
            if harvest(chk, r, dict(cmd=cmd[1:], build=nm), "sem") == "timeout":
                chk.violation("sem:hang", "a waiter stayed blocked although permits suffice (twice)", dict(cmd=cmd[1:], build=nm))
    chk.rule = "rounds with random numbers of acquirers, releasers, waiters and initial permits and random yields; every round is non-trivial (all permits are consumed); distinct = parameter combinations"
    return chk.finish(ndistinct=chk.extra.pop("distinct", 0))

CHECKS = {
    "U01": simple("tag", "random triples of tags biased to the extremes; distinct = class combinations of the operands (extreme/near extreme/sign/size) and their order", 400000, 20000000),
    "U02": simple("fmt", "random times biased to unit boundaries; distinct = (set of units printed, length)", 150000, 8000000),
    "U03": simple("pq", "random operation sequences on heaps and tag queues checked against a list model after each step; distinct = (kinds of operations exercised, maximal size)", 2500, 120000),
    "U04": simple("cont", "random operation sequences on vector, hash set, hash map, deque against array models; distinct = (operations exercised, size class)", 2500, 120000),
    "U06": simple("radix", "full cycles of random mixed-radix counters of 1-5 digits; distinct = (radixes, permutation)", 6000, 200000),
    "U07": clock,
    "U10": sem,
}
