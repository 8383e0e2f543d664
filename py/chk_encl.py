"""L20: scheduling enclaves of one program behave as the unpartitioned program."""
import random, heapq
from common import *
from chk_rt import SCHED, SAN
import chk_rt
M64 = (1 << 64) - 1
def mix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64; x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64; x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64; return x ^ (x >> 31)
NEVER = -(1 << 63); FOREVER = (1 << 63) - 1
_ex = {}
def exe(v):
    if v not in _ex:
        flags, cc = SAN[v[0]]
        d = ["PLATFORM_Linux", "LOG_LEVEL=0", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "WRAPPED", "NUMBER_OF_WORKERS=2", "SCHEDULER=" + SCHED[v[1:]], "LF_ENCLAVES=1"]
        _ex[v] = build("encl_" + v, runtime_sources(REPO, True) + g(REPO, "core/federated/RTI/rti_common.c", "core/federated/RTI/rti_local.c") + [VERIF + "/c/encl.c"], d, flags=flags, cc=cc, ld=chk_rt.wraps("lf_mutex_lock", "lf_mutex_unlock", "lf_cond_wait"), extra_inc=[REPO + "/core/federated/RTI", REPO + "/include/core/federated"])
    return _ex[v]
def delay(t, d): return t if d == NEVER else (t[0], t[1] + 1) if d == 0 else (t[0] + d, 0)
class P: pass
def gen(rng, kind):
    p = P(); p.n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8]); p.seed = rng.getrandbits(60); p.unit = rng.choice([1, 1000, 10 ** 6]); u = p.unit; p.kind = kind
    p.enc = [[(rng.randint(1, 6) * u if rng.random() < 0.7 else -1), rng.choice([1, 2, 3, 5, 7]) * u, rng.randint(1, 3)] for _ in range(p.n)]
    p.con = []; shape = rng.random()
    for a in range(p.n):
        for b in range(p.n):
            if a == b or rng.random() > (0.9 if abs(a - b) == 1 and a < b else 0.35): continue
            if a > b and (kind == "starve" or shape < 0.5): continue
            for _ in range(rng.choice([1, 1, 1, 2])):
                d = rng.choice([NEVER, NEVER, 0, u, 2 * u, 5 * u]) if a < b else rng.choice([0, u, u, 3 * u])
                p.con.append([a, b, d, rng.choice([1, 1, 2, 3]) if a < b else rng.choice([2, 3])])
    p.con = p.con[:40]
    if kind == "starve":
        for e in p.enc: e[1] = 0     # timers that fire once: the program runs out of events
    if not any(e[0] > 0 for e in p.enc): p.enc[0][0] = u
    p.timeout = None if kind == "starve" else rng.choice([3, 20, 60]) * u
    p.stop = (rng.choice([i for i in range(p.n) if p.enc[i][0] > 0]), rng.randint(0, 30) * u) if kind == "stop" else (0, -1)
    if kind == "asleep":                    # one enclave stops the program while another sleeps until an event that is far away
        p.n = rng.choice([2, 3, 4]); p.unit = 10 ** 6; p.enc = [[rng.randint(1, 6) * 10 ** 6, 3 * 10 ** 6, rng.randint(1, 3)] for _ in range(p.n)]; p.con = []; s = rng.randrange(p.n)
        for e in range(p.n):
            if e != s: p.enc[e][0] = rng.choice([40, 50]) * 10 ** 9; p.enc[e][1] = 0
        p.timeout = rng.choice([None, 60 * 10 ** 9]); p.stop = (s, rng.randint(0, 30) * 10 ** 6)
        if rng.random() < 0.4: p.con = [[s, e, rng.choice([10 ** 6, 0, NEVER]), 3] for e in range(p.n) if e > s]
    p.lag = rng.choice([0, 0, 300, 1500])
    return p
def text(p):
    return "%d %d %d %d %d %d 0\n" % (p.seed, p.n, len(p.con), p.stop[0], p.stop[1], p.lag) + "".join("%d %d %d\n" % tuple(e) for e in p.enc) + "".join("%d %d %d %d\n" % tuple(c) for c in p.con)
def semantics(p, limit=3000, upto=None):
    """Executions of each enclave under the unpartitioned semantics: [(tag, state, inputs)]."""
    st = [mix(p.seed + e) for e in range(p.n)]; q = []; ex = [[] for _ in range(p.n)]; n = 0
    for e, (o, per, w) in enumerate(p.enc):
        if o >= 0: heapq.heappush(q, ((o, 0), e, -1, 0))
    stop = (p.timeout, 0) if p.timeout is not None else (FOREVER, 0); sent = [[] for _ in p.con]
    if upto: stop = (upto, 0)
    while q and q[0][0] <= stop:
        t, e = q[0][0], q[0][1]; ins = {}                              # in one tag, enclaves in index order: undelayed connections only go upwards
        while q and q[0][0] == t and q[0][1] == e:
            _, _, c, v = heapq.heappop(q)
            if c >= 0: ins[c] = v
            elif p.enc[e][1] > 0: heapq.heappush(q, ((t[0] + p.enc[e][1], 0), e, -1, 0))
        x = mix(st[e] ^ (t[0] & M64) ^ ((t[1] << 50) & M64))
        for c in sorted(ins): x = mix(x ^ ((ins[c] + c) & M64))
        st[e] = x; ex[e].append((t, x, tuple(sorted(ins.items())))); n += 1
        if n > limit: return None, None
        for c, (a, b, d, den) in enumerate(p.con):
            if a == e and mix((x + 77 * c) & M64) % den == 0 and (t[1] == mix((t[0] + c) & M64) % 4 % 3 % 2 or d <= 0):
                u = delay(t, d); heapq.heappush(q, (u, b, c, mix((x + c) & M64))); sent[c].append(u)
    return ex, sent
import itertools
_n = itertools.count()
def case(chk, i, base, kinds, vs):
    rng = random.Random((chk.seed * 1000003 + i) * 61 + base); kind = rng.choice(kinds)
    while True:
        p = gen(rng, kind); ex, sent = semantics(p, upto=10 ** 9 if kind == "asleep" else None)
        if ex is not None and sum(map(len, ex)) <= (400 if vs == "t" else 1500): break
    v = vs + rng.choice(["np", "ge", "ad"]); fast = kind != "asleep" and (p.unit < 10 ** 6 or rng.random() < 0.5 or (p.timeout or 0) > 10 ** 8)
    k = next(_n); pf, lf = "%s/en%d.p" % (chk_rt.tmpdir(), k), "%s/en%d.log" % (chk_rt.tmpdir(), k); open(pf, "w").write(text(p))
    args = ["-f", "true" if fast else "false"] + (["-o", str(p.timeout), "nsec"] if p.timeout is not None else []); replay = dict(variant=v, program=text(p), args=args, kind="enclaves")
    r = run([exe(v), pf] + args, timeout=75, env={"PROG_LOG": lf})
    if r.timeout and not r.idle: r = run([exe(v), pf] + args, timeout=120, env={"PROG_LOG": lf})
    L = open(lf).read().splitlines() if os.path.exists(lf) else []
    for x in (pf, lf):
        if os.path.exists(x): os.unlink(x)
    for m in re.finditer(r"^MONITOR (\S+) (.*)$", r.err, re.M): chk.violation("monitor:" + m.group(1), m.group(2), replay); return False
    if chk.sanitizer(r.err, replay): return False
    if r.timeout: chk.violation("hang", "%d enclaves: the program did not end [%s, %s]" % (p.n, v, kind), replay); return False
    if r.rc or not L or L[-1] != "END": chk.violation("abnormal-exit", "exit %s [%s]\n%s%s" % (r.rc, v, r.out[-600:], r.err[-600:]), replay); return False
    got = [[] for _ in range(p.n)]; fin = {}; D = {}; U = {}; msg = []; e = 0; quit = None; late = 0
    for l in L[:-1]:
        a = l.split()
        if a[0] == "F": e = int(a[1]); fin[e] = ((int(a[2]), int(a[3])), (int(a[4]), int(a[5])))
        elif a[0] == "E": got[e].append(((int(a[1]), int(a[2])), int(a[3]), tuple(sorted((int(z.split(":")[0]), int(z.split(":")[1])) for z in a[6:])), int(a[4])))
        elif a[0] == "D": D.setdefault(e, []).append((int(a[1]), int(a[2]))); late = max(late, int(a[3]))
        elif a[0] == "U": U.setdefault(e, []).append((int(a[1]), int(a[2])))
        elif a[0] == "Q": quit = (int(a[1]), int(a[2]))
        elif a[0] == "M": msg.append(tuple(map(int, a[1:])))
    V = lambda key, m: chk.violation(key, m + " [%s, %s, %d enclaves]" % (v, kind, p.n), replay)
    stop = None
    if quit is not None:
        s = {fin[e][1] for e in fin}
        if len(s) > 1: V("stop-tags", "after lf_request_stop at %s the enclaves end at different tags: %s" % (quit, sorted(s))); return False
        stop = s.pop()
        if not quit < stop and stop != (p.timeout, 0): V("stop-tag", "lf_request_stop at %s stops the enclaves at %s" % (quit, stop)); return False
        top = max([t for x in got for t, *_ in x] + [(0, 0)])
        if p.timeout is not None and stop > (p.timeout, 0): V("stop-tag", "lf_request_stop at %s stops the program at %s, after the timeout" % (quit, stop)); return False
    elif p.timeout is not None: stop = (p.timeout, 0)
    if kind == "asleep" and late > 20 * 10 ** 9: V("stop-late", "after lf_request_stop at %s the program ended %d s later" % (quit, late // 10 ** 9)); return False
    bad = []
    for e in range(p.n):
        want = [x for x in ex[e] if stop is None or x[0] <= stop] if quit is None else [x for x in ex[e] if x[0] < stop]
        have = [x[:3] for x in got[e] if quit is None or x[0] < stop]
        if have != want:
            k = next((j for j, (a, b) in enumerate(zip(have, want)) if a != b), min(len(have), len(want)))
            at = min([x[k][0] for x in (have, want) if k < len(x)])
            bad.append((at, "enclave %d executed its reaction %d times, expected %d; first difference %s, expected %s" % (e, len(have), len(want), have[k:k + 1], want[k:k + 1]))); continue
        if any(x[0] > stop for x in got[e]) if stop else False: V("after-stop", "enclave %d executed a reaction after the final tag %s" % (e, stop)); return False
        last = max([x[0] for x in ex[e]] + [(0, 0)])
        if U.get(e) != [(0, 0)]: V("startup", "enclave %d executed startup at %s" % (e, U.get(e))); return False
        if len(D.get(e, [])) != 1 or stop is not None and D[e][0] != stop or stop is None and D[e][0] <= last: V("shutdown", "enclave %d executed its shutdown reaction at %s, expected %s" % (e, D.get(e), stop)); return False
        if not fast:
            for x in got[e]:
                if x[3] < x[0][0] - 20000: V("early", "enclave %d handled an event at %d ns before its time" % (e, x[0][0] - x[3])); return False
    if bad: V("executions", min(bad)[1] + (" (stop requested at %s, final tag %s)" % (quit, stop) if quit else "")); return False
    chk.count("enclaves", p.n); chk.count("executions", sum(map(len, got))); chk.count("messages", len(msg)); chk.count("stops", int(quit is not None)); chk.count("enclave_programs_" + kind)
    chk.saw(1, (v, kind, p.n, len(p.con), p.unit, tuple(len(x) for x in got)), dict(enclaves=p.n, connections=len(p.con), executions=[len(x) for x in got], messages=len(msg)) if i < 3 else None)
    return True
def L20(chk):
    for v in ("anp", "age", "aad", "tnp", "tge", "tad"): exe(v)
    go = lambda n, base, kinds, vs: pmap(lambda i: case(chk, i, base, kinds, vs), range(n))
    go(900 if chk.quick else 6000, 1, ("timeout", "timeout", "starve"), "a")
    go(300 if chk.quick else 2000, 2, ("stop",), "a")
    go(24 if chk.quick else 200, 4, ("asleep",), "a")
    go(400 if chk.quick else 3000, 3, ("timeout", "starve", "stop"), "t")
    chk.rule = "distinct = (variant, way of ending, topology size, time scale, reactions executed per enclave)"
    return chk.finish()
CHECKS = {"L20": L20}
