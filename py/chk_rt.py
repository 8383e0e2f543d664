"""L01-L19: programs interpreted by c/prog.c on the real runtime, judged against the
discrete-event oracle (prog.Sim) and by offline checkers over the recorded logs."""
import random, collections, itertools, tempfile
from common import *
import prog
from prog import Op, Prog, Sim, FOREVER, M64

W_THR = ["lf_mutex_lock", "lf_mutex_unlock", "lf_cond_wait", "lf_cond_broadcast", "lf_cond_signal", "_lf_clock_gettime"]
W_SGL = ["lf_mutex_lock", "lf_mutex_unlock", "_lf_clock_gettime"]
OPT = ["-O2", "-g", "-DNDEBUG"]
SCHED = dict(np="SCHED_NP", ge="SCHED_GEDF_NP", ad="SCHED_ADAPTIVE")
SAN = dict(a=(ASAN, "gcc"), t=(TSAN, "clang"), o=(OPT, "gcc"))
_lk = threading.Lock(); _exes = {}

def exe(v):
    """Variant name: [asan a | tsan t | optimised o] + [s | np | ge | ad] + optional m (modal)."""
    with _lk:
        if v in _exes: return _exes[v]
        flags, cc = SAN[v[0]]; modal = v.endswith("_m"); trace = v.endswith("_r"); k = v[1:].split("_")[0]
        d = ["PLATFORM_Linux", "LOG_LEVEL=0", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "WRAPPED"]
        if v[0] == "t": d.append("NOTRACK")
        if modal: d.append("MODAL_REACTORS=1")
        if trace: d.append("LF_TRACE=1")
        if k == "s": d.append("LF_SINGLE_THREADED=1")
        else: d += ["NUMBER_OF_WORKERS=4", "SCHEDULER=" + SCHED[k]]
        _exes[v] = build("rt_" + v, runtime_sources(REPO, k != "s", modal=modal, trace=trace) + [os.path.join(VERIF, "c", "prog.c")], d, flags=flags, cc=cc,
                         ld=wraps(*(W_SGL if k == "s" else W_THR)))
        return _exes[v]

ALL4 = ("as", "anp", "age", "aad")
THR3 = ("anp", "age", "aad")

class Out: pass
_tmp = None
def tmpdir():
    global _tmp
    with _lk:
        if _tmp is None:
            import atexit
            os.makedirs(CACHE, exist_ok=True)
            _tmp = tempfile.mkdtemp(prefix="run", dir=CACHE)
            atexit.register(shutil.rmtree, _tmp, True)
    return _tmp
_ctr = itertools.count()

def launch(v, p, workers=None, fast=True, env=None, timeout=40, extra=(), text=None, rawargs=None, cwd=None):
    n = next(_ctr); pf = "%s/%d.p" % (tmpdir(), n); lf = "%s/%d.log" % (tmpdir(), n)
    text = text or p.text()
    open(pf, "w").write(text)
    args = ["-f", "true" if fast else "false"]
    if p.timeout is not None: args += ["-o", str(p.timeout), "nsec"]
    if p.keepalive: args += ["-k", "true"]
    if workers and not v[1:].startswith("s"): args += ["-w", str(workers)]
    args += list(extra)
    if rawargs is not None: args = list(rawargs)
    e = {"PROG_LOG": lf}; e.update(env or {})
    o = Out(); o.replay = dict(variant=v, args=args, env=env or {}, program=text)
    r = run([exe(v), pf] + args, timeout=timeout, env=e, cwd=cwd)
    if r.timeout and not r.idle:
        r = run([exe(v), pf] + args, timeout=timeout * 3, env=e, cwd=cwd)
    o.r = r; o.v = v; o.recs = []; o.complete = False; o.workers = 1 if v[1:].startswith("s") else (workers or 4)
    if os.path.exists(lf):
        for l in open(lf):
            if l.startswith("END"): o.complete = True; break
            a = l.split(); f = [int(x) for x in a[2:]]; o.recs.append((a[0], int(a[1]), f + [0] * (24 - len(f))))
        os.unlink(lf)
    os.unlink(pf)
    o.E = [f for k, t, f in o.recs if k == "E"]; o.S = [(t, f) for k, t, f in o.recs if k == "S"]
    z = [f for k, t, f in o.recs if k == "Z"]; o.Z = z[0] if z else None
    return o

# ------------------------------------------------------------ generic judges
def health(chk, o, allow_rc=(0,)):
    """Crashes, hangs, sanitizer reports, on-line monitors. True if the log is usable."""
    r = o.r
    for m in re.finditer(r"^MONITOR (\S+) (.*)$", r.err, re.M):
        chk.violation("monitor:" + m.group(1), m.group(2) + " [" + o.v + "]", o.replay)
    n = chk.sanitizer(r.err, o.replay)
    if r.timeout:
        if r.idle: chk.violation("hang", "the program stopped making progress: all threads asleep [%s]" % o.v, o.replay)
        else: chk.violation("no-termination", "the program did not finish in %.0fs (twice) [%s]" % (r.wall, o.v), o.replay)
        return False
    if r.rc not in allow_rc and not (n and r.rc in (66, 77, 78)):
        chk.violation("abnormal-exit:%s" % r.rc, "exit %s [%s]\n%s" % (r.rc, o.v, r.err[-1500:]), o.replay)
        return False
    if r.rc == 66: return o.complete
    if not o.complete or o.Z is None:
        if not n: chk.violation("no-termination-record", "the program ended without its normal termination [%s]\n%s" % (o.v, r.err[-1500:]), o.replay)
        return False
    return True

def order(chk, p, o):
    """Tags never decrease and do not overlap; dependencies and reactors are respected."""
    es = sorted(o.E, key=lambda f: f[0])
    last = None; maxend = -1; prevend = -1
    tags = {}
    for f in es:
        tg = (f[4], f[5])
        tags.setdefault(tg, []).append(f)
        if last is not None and tg < last:
            chk.violation("order:tag-decreases", "reaction %d at tag %s started after one at tag %s [%s]" % (f[2], tg, last, o.v), o.replay); return
        if last is None or tg > last:
            prevend = maxend; last = tg
        if f[0] < prevend:
            chk.violation("order:tags-overlap", "reaction %d at tag %s started before the previous tag finished [%s]" % (f[2], tg, o.v), o.replay); return
        maxend = max(maxend, f[1])
    for tg, l in tags.items():
        at = {f[2]: f for f in l}
        for f in l:
            for y in p.anc[f[2]]:
                if y in at and at[y][1] > f[0]:
                    chk.violation("order:precedence", "at %s reaction %d started before reaction %d, which it depends on, finished [%s]" % (tg, f[2], y, o.v), o.replay); return
    if o.Z and es and es[-1][4:6] > [o.Z[1], o.Z[2]]:
        chk.violation("order:after-end", "reaction at %s after the final tag %s" % (es[-1][4:6], o.Z[1:3]), o.replay)

def against(chk, p, s, o, final=True, rets=True):
    """Executions, observed values, API results and final state against the oracle."""
    ex = {}
    bad = False
    for f in o.E:
        d = ex.setdefault((f[4], f[5]), {})
        if f[2] in d:
            chk.violation("oracle:executed-twice", "reaction %d executed twice at %s [%s]" % (f[2], (f[4], f[5]), o.v), o.replay); return False
        d[f[2]] = (f[3], f[8] & M64, f[9] & M64)
    for tg in sorted(set(ex) | {t for t in s.execs if s.execs[t]}):
        a, b = ex.get(tg, {}), s.execs.get(tg, {})
        if a != b:
            x = min(x for x in set(a) | set(b) if a.get(x) != b.get(x))
            g, w = a.get(x), b.get(x)
            kind = "missing" if g is None else "unexpected" if w is None else "wrong-variant" if g[0] != w[0] else "wrong-presence" if g[1] != w[1] else "wrong-values"
            chk.violation("oracle:" + kind, "at elapsed tag %s reaction %d: executed %s, the semantics prescribes %s (kind, presence, value digests) [%s]" % (tg, x, g, w, o.v), o.replay)
            return False
    if rets:
        for t, f in o.S:
            if f[8] >= 0: continue
            w = s.scheds.get((f[1], (f[9], f[10]), f[2]))
            if w and w[0] in (0, 1) and (f[9], f[10]) not in s.stop_req and (f[4] > 0) != (w[0] == 1):
                chk.violation("oracle:schedule-result", "reaction %d at %s: lf_schedule returned %d, expected %s [%s]" % (f[1], (f[9], f[10]), f[4], w, o.v), o.replay); return False
    if final and (o.Z[1], o.Z[2]) != s.final:
        chk.violation("oracle:final-tag", "ended at %s, expected %s [%s]" % ((o.Z[1], o.Z[2]), s.final, o.v), o.replay); return False
    if final:
        fs = {f[0]: f[1] & M64 for k, t, f in o.recs if k == "F"}
        for r in range(p.nR):
            if fs.get(r) != s.st[r]:
                chk.violation("oracle:final-state", "final state of reactor %d differs [%s]" % (r, o.v), o.replay); return False
    return True

def interleaving(o):
    """A signature of the schedule observed: which thread executed what, in start order."""
    ids = {}
    es = sorted((f[0], t, f[2]) for k, t, f in o.recs if k == "E")
    return hash(tuple((ids.setdefault(t, len(ids)), x) for _, t, x in es))

def det(chk, p, s, variants, workers=None, fast=True, env=None, mon=None, **kw):
    """Run deterministic program p on variants and judge it."""
    nev = 0
    for v in variants:
        w = workers(v) if callable(workers) else workers
        o = launch(v, p, workers=w, fast=fast, env=env, **kw)
        if not health(chk, o): continue
        order(chk, p, o)
        against(chk, p, s, o)
        if mon: mon(chk, p, s, o)
        chk.saw(1, (hash(p.text()), interleaving(o)))
        chk.count("reaction_executions", len(o.E)); chk.count("schedule_calls", len(o.S)); nev += len(o.E)
    chk.count("programs")
    return nev

def sweep(chk, n, knobs, variants, workers=None, delays=None, mon=None, base=0, gen=None, **kw):
    def one(i):
        rng = random.Random((chk.seed * 1000003 + i) * 31 + base)
        p, s = (gen or prog.generate)(rng, **(knobs(rng) if callable(knobs) else knobs))
        if delays and rng.random() < delays[2]: p.delay = (delays[0], delays[1], i)
        nev = det(chk, p, s, variants, workers=(lambda v: rng.choice([1, 2, 3, 4, 8])) if workers is None else workers, mon=mon, **kw)
        if i < 3: chk.saw(0, None, dict(reactors=p.nR, reactions=len(p.rxs), actions=len(p.acts), timers=len(p.timers), timeout=p.timeout, tags=len(s.tagorder), executions=nev))
    pmap(one, range(n))

WIDE = dict(nreact=(6, 12), maxrx=3, p_conn=0.9)
BASE_RULE = "randomly generated reactor programs run on the real runtime (%s); one evaluation = one complete run compared with the discrete-event oracle and the log checkers; distinct = (program, order in which threads started reactions)"

def tier(chk, q, t): return q if chk.quick else t

def L01(chk):
    sweep(chk, tier(chk, 120, 4000), {}, ALL4, delays=(150, 80, 0.6))
    sweep(chk, tier(chk, 60, 1500), dict(WIDE, p_zero=0.6), THR3, delays=(250, 150, 0.8), base=1)
    pmap(lambda i: async_case(chk, i, THR3), range(tier(chk, 16, 300)))
    chk.rule = BASE_RULE % "single threaded and three schedulers, 1-8 workers, with injected delays around every lock and condition variable, plus programs with asynchronous physical events"
    return chk.finish()

def L02(chk):
    sweep(chk, tier(chk, 150, 5000), {}, ALL4, delays=(100, 60, 0.4))
    sweep(chk, tier(chk, 50, 1200), dict(nreact=(10, 24), maxrx=6, p_timer=0.7, limit=4000), ALL4, delays=(100, 60, 0.5), base=1)
    sweep(chk, tier(chk, 40, 1000), dict(p_zero=0.8, p_action=1.0, maxrx=5, nreact=(1, 4)), ALL4, base=2)
    chk.rule = BASE_RULE % "all variants; large programs, many levels, microstep-dense programs"
    return chk.finish()

def L03(chk):
    sweep(chk, tier(chk, 120, 4000), dict(WIDE), THR3, delays=(250, 120, 0.8))
    sweep(chk, tier(chk, 60, 1500), dict(WIDE, nreact=(10, 20), p_multi=0.6, limit=3000), THR3 + ("oad", "onp", "oge"), delays=(300, 200, 0.8), base=1)
    chk.rule = BASE_RULE % "three schedulers, 1-8 workers, wide and deep dependency graphs, injected delays inside reactions and around synchronisation"
    return chk.finish()

def L04(chk):
    vs = ("as", "os", "anp", "age", "aad", "onp", "oge", "oad")
    sweep(chk, tier(chk, 70, 2500), {}, vs, workers=None, delays=(120, 60, 0.5))
    def one(i):
        rng = random.Random(chk.seed * 7919 + i)
        p, s = prog.generate(rng, **WIDE)
        for w in (1, 2, 3, 5, 8, 16):
            p.delay = (100, 60, w)
            det(chk, p, s, ("onp", "oge", "oad"), workers=w)
    pmap(one, range(tier(chk, 14, 500)))
    chk.rule = BASE_RULE % "single threaded and three schedulers, sanitized and optimised with assertions off, 1-16 workers, several runs each"
    return chk.finish()

def L05(chk):
    sweep(chk, tier(chk, 120, 4000), dict(p_action=1.0, p_zero=0.4, p_negextra=0.15, p_huge=0.06, p_minsp=0.05), ALL4)
    sweep(chk, tier(chk, 50, 1500), dict(p_action=1.0, p_zero=0.9, nreact=(1, 4), p_minsp=0.0, p_arr=0.6), ALL4, base=1)
    def big(rng): return dict(p_action=1.0, p_zero=0.2, tscale=rng.choice([3, 10 ** 6, 10 ** 9, 3600 * 10 ** 9, 10 ** 16]), p_negextra=0.1)
    sweep(chk, tier(chk, 50, 1500), big, ALL4, base=2)
    pmap(lambda i: async_case(chk, i, ("aad", "anp"), exact=True), range(tier(chk, 8, 100)))
    chk.rule = BASE_RULE % "action-heavy programs: zero, negative, huge delays, all payload kinds, colliding events; ns to years time scales"
    return chk.finish()

def L06(chk):
    def mon(chk, p, s, o):
        seen = collections.defaultdict(list)
        for x in p.rxs:
            trig = [(k, i) for (k, i, f) in x.src if f & 1]
            if len(trig) == 1 and trig[0][0] == 1 and p.acts[trig[0][1]].minsp > 0 and not x.special:
                a = trig[0][1]
                ts = sorted((f[4], f[5]) for f in o.E if f[2] == x.id)
                for u, w in zip(ts, ts[1:]):
                    chk.count("spaced_pairs")
                    if w[0] - u[0] < p.acts[a].minsp:
                        chk.violation("spacing", "action %d with minimum spacing %d occurs at %s and %s [%s]" % (a, p.acts[a].minsp, u, w, o.v), o.replay)
    k = dict(p_action=1.0, p_minsp=0.9, p_stop=0.02)
    sweep(chk, tier(chk, 150, 4000), k, ALL4, mon=mon)
    sweep(chk, tier(chk, 60, 1500), dict(k, p_zero=0.8, nreact=(1, 3), p_arr=0.5, tscale=12), ALL4, mon=mon, base=1)
    sweep(chk, tier(chk, 30, 800), dict(k, p_huge=0.1, tscale=10 ** 9), ("as", "aad"), mon=mon, base=2)
    chk.rule = BASE_RULE % "actions with minimum spacing under the three policies, all payload kinds"
    return chk.finish()

def L07(chk):
    def mon(chk, p, s, o):
        end = (o.Z[1], o.Z[2])
        for x in p.rxs:
            t = [(k, i) for (k, i, f) in x.src if f & 1]
            if len(t) == 1 and t[0][0] == 2 and not x.special:
                tm = p.timers[t[0][1]]
                want, k = [], 0
                while (tm.off + k * tm.per, 0) <= end:
                    want.append((tm.off + k * tm.per, 0)); k += 1
                    if tm.per == 0 or k > 5000: break
                got = sorted((f[4], f[5]) for f in o.E if f[2] == x.id)
                chk.count("timer_firings", len(got))
                if got != want: chk.violation("timer-series", "timer offset %d period %d fired at %s..., expected %s... up to %s [%s]" % (tm.off, tm.per, got[:6], want[:6], end, o.v), o.replay)
    def k(rng): return dict(p_timer=1.0, p_action=0.3, ntimers=[1, 2, 3, 5], tscale=rng.choice([7, 40, 40, 10 ** 6, 10 ** 9, 3600 * 10 ** 9, 10 ** 15]), only_timer=0.6)
    sweep(chk, tier(chk, 150, 4000), k, ALL4, mon=mon, delays=(60, 40, 0.3))
    def rt(i):
        rng = random.Random(chk.seed * 131 + i)
        p = Prog(); 
        for _ in range(rng.randint(1, 4)):
            r = p.reactor()
            for _ in range(rng.randint(1, 2)):
                t = p.timer(r, rng.choice([0, rng.randint(1, 20) * 10 ** 6]), rng.choice([0, rng.randint(1, 9) * 10 ** 6, rng.randint(100, 900) * 1000]))
                x = p.rx(r); x.src = [(2, t, 3)]
        p.timeout = rng.randint(10, 60) * 10 ** 6; p.keepalive = rng.random() < 0.5; p.finish()
        s = Sim(p, p.timeout, p.keepalive, limit=10 ** 6).run()
        det(chk, p, s, ("as", rng.choice(THR3)), fast=False, mon=lambda c, pp, ss, o: (mon(c, pp, ss, o), not_early(c, pp, o)))
    pmap(rt, range(tier(chk, 12, 200)))
    chk.rule = BASE_RULE % "timer programs at ns to day scale in fast mode and ms scale in real time; additionally each timer's firing series compared with offset+k*period"
    return chk.finish()

MIN_SLEEP = 10000   # documented minimum sleep duration: shorter waits are skipped
def not_early(chk, p, o):
    if o.Z is None: return
    st = o.Z[6]
    for f in o.E:
        chk.count("real_time_starts")
        if f[6] - st < f[4] - MIN_SLEEP:
            chk.violation("early", "reaction %d at elapsed %d started when physical elapsed was %d [%s]" % (f[2], f[4], f[6] - st, o.v), o.replay); return
    if o.Z[5] < o.Z[1] - MIN_SLEEP: chk.violation("early-end", "terminated at elapsed %d when physical elapsed was %d [%s]" % (o.Z[1], o.Z[5], o.v), o.replay)

# ---------------------------------------------------------------- async events
def async_prog(rng, fast=True, kind="plain", n=50):
    p = Prog(); p.mayfast = fast
    nr = rng.randint(1, 3); acts = []
    ms = 1 if fast else 10 ** 3
    rs = [p.reactor() for _ in range(nr)]
    stopn = None
    for r in rs:
        if rng.random() < 0.7: 
            t = p.timer(r, rng.choice([0, 1000 * ms]), rng.randint(300, 3000) * ms)
            x = p.rx(r); x.src = [(2, t, 3)]
            if rng.random() < 0.5:
                la = p.act(r, 0, rng.choice([0, rng.randint(1, 2000) * ms]), 0, 0, 1); x.ops.append(Op(prog.SCHI, la, 0)); y = p.rx(r); y.src = [(1, la, 3)]
        for _ in range(rng.randint(1, 2)):
            typ = rng.choice([0, 1, 1, 2, 3])
            minsp, pol = 0, 0
            if kind == "spacing": minsp, pol = rng.randint(1, 50) * 1000, rng.randrange(3)
            acts.append(p.act(r, 1, rng.choice([0, 0, rng.randint(1, 400) * 1000]), minsp, pol, typ))
            x = p.rx(r); x.src = [(1, acts[-1], 3)]
            if rng.random() < 0.4 and kind == "plain": # schedule from a reaction too
                c = {0: prog.SCH, 1: prog.SCHI, 2: prog.SCHC, 3: prog.SCHI32}[typ]
                x.ops.append(Op(c, acts[-1], 0, mask=7, match=rng.randrange(8)))
    x = p.rx(rs[0], special=1); x.ops = [Op(prog.ASYNC)]
    tot = 0
    for k in range(rng.randint(1, 4)):
        nn = rng.randint(5, n); tot += nn
        p.asyncs.append((rng.choice(acts), nn, rng.randrange(2), rng.choice([0, 0, 30, 200]), rng.choice([0, 0, 50000]), rng.choice([0, 300])))
    if kind == "stop":
        for _ in range(rng.randint(1, 3)): p.asyncs.append((acts[0], rng.randint(1, 3), 9, rng.choice([0, 100]), 0, rng.choice([0, 500, 2000, 4000])))
        p.timeout = rng.choice([None, None, rng.randint(1, 20) * 10 ** 6 if not fast else 10 ** 9 * 10])
    else: p.timeout = (rng.randint(25, 50) * 10 ** 6) if not fast else rng.choice([10 ** 9, 10 ** 10])
    p.keepalive = True
    z = p.rx(rs[0], special=2)
    p.delay = rng.choice([(0, 0, 0), (200, 60, rng.randrange(1000))])
    return p.finish()

def async_judge(chk, p, o, exact=False):
    """Physical events: tag at least physical time at the call plus delay, after every tag already executed,
    exactly once with own value, in order per thread and action."""
    if o.Z is None: return
    st = o.Z[6]; end = (o.Z[1], o.Z[2])
    order(chk, p, o)
    occ = collections.defaultdict(list)
    for f in sorted(o.E, key=lambda f: f[0]):
        for j in range(f[10]): occ[(f[11 + 2 * j], f[12 + 2 * j])].append((f[4], f[5], f[2]))
    key = lambda a, val: {0: -1, 1: val, 3: val & 0x7fffffff, 2: val & 0x7fffffff}[p.acts[a].type]
    starts = sorted((f[0], f[4], f[5]) for f in o.E)
    # any one reader suffices to witness an occurrence
    rd = {}
    for x in p.rxs:
        for (k, i, f) in x.src:
            if k == 1 and p.acts[i].physical: rd.setdefault(i, x.id)
    last = {}; n = 0; nos = 0
    accepted = collections.Counter(); used = set()
    for t, f in sorted(o.S, key=lambda z: z[1][0]):
        a = f[3]; ac = p.acts[a]
        if not ac.physical: continue
        n += 1
        if ac.type == 0: accepted[a] += 1; continue
        k = key(a, f[7]) if f[8] >= 0 or ac.type != 2 else prog.mkarr(f[7] & M64)[1]; used.add((a, k))
        oc = [(u, m) for (u, m, x) in occ.get((a, k), []) if x == rd[a]]
        if len(oc) > 1:
            chk.violation("async:duplicate", "value %d scheduled once on action %d occurs at %s [%s]" % (k, a, oc, o.v), o.replay); return
        extra = p.asyncs[f[8]][4] if f[8] >= 0 else p.rxs[f[1]].ops[f[2]].b
        if not oc:
            if f[4] > 0 and ac.minsp <= 0:
                # lost, unless its tag is after the end: its time is at least pa+delay, at most that of the clock after the call
                # or one past the tag at the call
                low = f[5] + ac.mind + extra - st; hi = f[6] + ac.mind + extra - st
                cur = max([(u, m) for (s0, u, m) in starts if s0 < f[9]] or [(0, 0)])
                if max(hi, cur[0]) < end[0] and not p.fastrun:
                    chk.violation("async:lost", "value %d scheduled on action %d (returned %d) at physical elapsed %d never occurs although the program ran until %s [%s]" % (k, a, f[4], f[6] - st, end, o.v), o.replay); return
                nos += 1
            continue
        u, m = oc[0]
        if ac.minsp > 0 and f[4] == 0: continue   # replaced the value of an earlier event
        if f[4] < 0: chk.violation("async:rejected-but-occurs", "lf_schedule returned %d but the event occurs" % f[4], o.replay)
        if u < f[5] + ac.mind + extra - st:
            chk.violation("async:too-early", "event scheduled at physical elapsed %d with delay %d occurs at %d [%s]" % (f[5] - st, ac.mind + extra, u, o.v), o.replay); return
        before = [(uu, mm) for (s0, uu, mm) in starts if s0 < f[0]]
        if before and (u, m) <= max(before):
            chk.violation("async:past", "event scheduled after tag %s had started occurs at %s [%s]" % (max(before), (u, m), o.v), o.replay); return
        if ac.minsp <= 0:
            hi = f[6] + ac.mind + extra - st
            curhi = max([(uu, mm) for (s0, uu, mm) in starts if s0 < f[9]] or [(0, 0)])
            nxt = [(uu, mm) for (s0, uu, mm) in starts if s0 >= f[9]]
            lim = max(hi, curhi[0], min(nxt)[0] if nxt and p.fastrun else 0)
            if u > lim:
                chk.violation("async:too-late", "event scheduled at physical elapsed %d..%d with delay %d at current tag %s occurs at %d [%s]" % (f[5] - st, f[6] - st, ac.mind + extra, curhi, u, o.v), o.replay); return
        if f[8] < 0:
            chk.count("scheduled_by_reactions")
            if (u, m) <= (f[9], f[10]): chk.violation("async:past", "event scheduled by reaction %d at tag %s occurs at %s [%s]" % (f[1], (f[9], f[10]), (u, m), o.v), o.replay); return
        kk = (f[8], a)
        if f[8] >= 0 and kk in last and last[kk] >= (u, m) and ac.minsp <= 0:
            chk.violation("async:reordered", "thread %d: a later event on action %d occurs at %s, not after %s [%s]" % (f[8], a, (u, m), last[kk], o.v), o.replay); return
        last[kk] = (u, m)
    for (a, k), l in occ.items():
        if p.acts[a].type and (a, k) not in used and k >= 0:
            src = [f for t, f in o.S if f[3] == a and f[8] < 0]
            if not src: chk.violation("async:invented", "action %d occurs with value %d that nobody scheduled [%s]" % (a, k, o.v), o.replay)
    chk.count("async_events", n); chk.count("async_not_seen_before_end", nos)
    stops(chk, p, o, end)
    # startup once, shutdown once at the last tag
    for x in p.rxs:
        if x.special == 2:
            l = [(f[4], f[5]) for f in o.E if f[2] == x.id]
            if l != [end]: chk.violation("async:shutdown", "shutdown reaction executed at %s, final tag %s [%s]" % (l, end, o.v), o.replay)

def stops(chk, p, o, end):
    """Stop requests by other threads: the end is after every tag executed before the request, not later than
    the requests and the timeout require."""
    st = o.Z[6]
    ts = sorted((f[0], f[4], f[5]) for f in o.E)
    for k, t, f in o.recs:
        if k != "q": continue
        chk.count("stop_requests")
        before = [(u, m) for (s0, u, m) in ts if s0 < f[0]]
        # the end of a run that was already stopping may be the tag being executed
        after = [(u, m) for (s0, u, m) in ts if s0 > f[9]]
        if f[0] < o.Z[0] and before and end < max(before):
            chk.violation("stop:past", "a stop requested after tag %s had started ended the program at %s [%s]" % (max(before), end, o.v), o.replay)
    # a request made while another one is being processed may return before the stop tag is set
    q = [f for k, t, f in o.recs if k == "q"]
    if q and not p.fastrun and not any(k == "Q" for k, t, f in o.recs):
        first = min(f[9] for f in q); lim = max(f[6] for f in q if f[0] <= first) - st
        if first < o.Z[0] and end[0] > lim + MIN_SLEEP:
            chk.violation("stop:late", "a stop requested at physical elapsed %d ended the program at %s [%s]" % (lim, end, o.v), o.replay)
    if p.timeout is not None and end > (p.timeout, 0):
        chk.violation("stop:past-timeout", "ended at %s, timeout %d [%s]" % (end, p.timeout, o.v), o.replay)

def async_case(chk, i, variants, fast=None, kind=None, exact=False, n=50, env=None):
    rng = random.Random(chk.seed * 99991 + i * 17)
    f = rng.random() < 0.5 if fast is None else fast
    p = async_prog(rng, f, kind or rng.choice(["plain", "plain", "spacing"]), n)
    for v in variants:
        p.fastrun = f
        if f and kind != 'stop': # bounded by the number of calls: stop from a reaction-independent thread
            p.timeout = None
            if not any(a[2] == 9 for a in p.asyncs): p.asyncs.append((p.asyncs[0][0], 1, 9, 0, 0, 20000))
        o = launch(v, p, fast=f, workers=rng.choice([1, 2, 4, 8]), env=env if v[0] == 'a' else None)
        if not health(chk, o): continue
        async_judge(chk, p, o, exact)
        chk.saw(1, interleaving(o)); chk.count("reaction_executions", len(o.E))

def idle_case(chk, i, variants, stop):
    """The program has nothing to do until another thread schedules or requests a stop: if that does not wake it up it sleeps forever."""
    rng = random.Random(chk.seed * 77773 + i)
    p = Prog(); r = p.reactor(); p.keepalive = True; p.fastrun = False
    p.timeout = rng.choice([None, None, 1000 * 10 ** 9])
    x = p.rx(r, special=1); x.ops = [Op(prog.ASYNC)]
    if rng.random() < 0.4: t = p.timer(r, rng.choice([0, 900 * 10 ** 9]), 900 * 10 ** 9); y = p.rx(r); y.src = [(2, t, 3)]
    tot = 0
    na = rng.randint(1, 3); acts = [p.act(r, 1, rng.choice([0, 10 ** 6]), 0, 0, rng.randrange(4)) for _ in range(na)]
    for k in range(rng.randint(0 if stop else 1, 2)):
        n = rng.randint(1, 4); tot += n
        p.asyncs.append((rng.choice(acts), n, rng.randrange(2), rng.choice([0, 1000, 5000]), 0, rng.choice([2000, 20000, 60000])))
    for a in acts:
        y = p.rx(r); y.src = [(1, a, 3)]
        if not stop: y.ops = [Op(prog.COUNTSTOP, tot)]
    if stop:
        for k in range(rng.choice([1, 1, 1, 2])): p.asyncs.append((acts[0], 1, 9, 0, 0, rng.choice([3000, 30000, 80000])))
    p.delay = rng.choice([(0, 0, 0), (200, 60, rng.randrange(1000))]); p.finish()
    for v in variants:
        o = launch(v, p, fast=False, workers=rng.choice([1, 2, 4, 8]), timeout=12)
        if not health(chk, o): continue
        if stop: stops(chk, p, o, (o.Z[1], o.Z[2]))
        else: async_judge(chk, p, o, False)
        chk.saw(1, interleaving(o)); chk.count("wakeups_from_idle", tot)

def L15(chk):
    vs = ("as_m", "anp_m", "age_m", "aad_m")
    def mon(chk, p, s, o): chk.count("transitions", s.ntrans); chk.count("resumed_events", s.nresumed)
    sweep(chk, tier(chk, 160, 5000), {}, vs, mon=mon, gen=prog.gen_modal)
    sweep(chk, tier(chk, 60, 2000), dict(depth=3, tscale=12), vs, mon=mon, gen=prog.gen_modal, base=1, delays=(60, 60, 0.4))
    sweep(chk, tier(chk, 60, 2000), dict(depth=0, tscale=60), vs, mon=mon, gen=prog.gen_modal, base=2)
    chk.rule = BASE_RULE % "single threaded and three schedulers, programs with modal reactors up to three levels deep, reset and history transitions, timers and actions inside modes"
    return chk.finish()

# ---------------------------------------------------------------- watchdogs
MS = 10 ** 6
def wd_prog(rng, tail=True):
    p = Prog(); nw = 0
    for _ in range(rng.randint(1, 3)):
        r = p.reactor(-1, 1); mine = []
        act = p.act(r, 1, 0, 0, 0, 0)
        for _ in range(rng.choice([1, 1, 2, 3])):
            if nw == 8: break
            p.wds.append((r, rng.choice([0, rng.randint(1, 5), rng.randint(1, 30), rng.randint(20, 60)]) * MS, [])); mine.append(nw); nw += 1
        y = p.rx(r); y.src = [(1, act, 3)]
        for w in mine:
            if rng.random() < 0.5: p.wds[w][2].append(Op(prog.SCH, act, 0))
            if rng.random() < 0.3: p.wds[w][2].append(Op(prog.WDSTOP if rng.random() < 0.5 else prog.WDSTART, rng.choice(mine), rng.randint(10, 30) * MS))
        n = rng.randint(3, 14)
        for k in range(n):
            t = p.timer(r, rng.randint(0, 150) * MS + rng.choice([0, 0, rng.randint(0, MS)]), 0)
            x = p.rx(r, deadline=rng.choice([-1, -1, -1, 0])); x.src = [(2, t, 3)]
            for _ in range(rng.choice([1, 1, 2, 3])):
                w = rng.choice(mine) if mine else 0
                if not mine: break
                x.ops.append(Op(rng.choice([prog.WDSTART] * 3 + [prog.WDSTOP]), w, rng.choice([0, 0, rng.randint(0, 60) * MS])))
            if x.ops and x.ops[-1].code == prog.WDSTOP: x.ops[-1].b = 0
            if rng.random() < 0.4: x.ops.insert(rng.randrange(len(x.ops) + 1), Op(prog.SLEEP, 100, rng.choice([300, 8000])))
            if x.deadline == 0: x.hops = list(x.ops)
    z = p.rx(0, special=2)
    p.timeout = (3200 if tail else rng.randint(5, 170)) * MS; p.keepalive = True
    p.delay = rng.choice([(0, 0, 0), (150, 100, rng.randrange(1000))])
    return p.finish()

def wd_judge(chk, p, o, tail):
    order(chk, p, o)
    ev = sorted((f for k, t, f in o.recs if k == "W"), key=lambda f: f[0])
    pend = {}; pend_in = {}
    fires = sorted(f for f in ev if f[3] == 2)
    for f in ev:
        w = f[2]; r, to, ops = p.wds[w]
        if f[3] == 0: pend[w] = f[6] + to + max(f[5], 0); chk.count("watchdog_starts")
        elif f[3] == 1: pend[w] = None; chk.count("watchdog_stops")
        else:
            chk.count("watchdog_fires")
            e = pend.get(w); pend[w] = None
            if e is None:
                chk.violation("watchdog:spurious", "the handler of watchdog %d ran at physical elapsed %d although the watchdog was stopped or has fired already [%s]" % (w, f[4], o.v), o.replay); return
            if f[4] < e:
                chk.violation("watchdog:early", "the handler of watchdog %d ran at physical elapsed %d, before its expiration %d [%s]" % (w, f[4], e, o.v), o.replay); return
            chk.count("fire_latency_us_total", (f[4] - e) // 1000)
    if tail:
        for w, e in pend.items():
            if e is not None and e < 400 * MS:
                chk.violation("watchdog:missed", "watchdog %d expired at %d but its handler did not run until the program ended at %d [%s]" % (w, e, o.Z[5], o.v), o.replay); return
    # handlers and reactions of the same reactor do not overlap
    for f in fires:
        r = p.wds[f[2]][0]
        for g in o.E:
            if p.rxs[g[2]].reactor == r and g[0] < f[1] and f[0] < g[1]:
                chk.violation("watchdog:concurrent", "watchdog %d's handler overlaps reaction %d of its reactor [%s]" % (f[2], g[2], o.v), o.replay); return

def L16(chk):
    def one(i, tail, vs):
        rng = random.Random(chk.seed * 4241 + i * 7 + tail)
        p = wd_prog(rng, tail)
        for v in vs:
            if v[0] == 't': # whether handlers may start watchdogs is not documented; reading the current tag there is racy
                for wd in p.wds: wd[2][:] = [z for z in wd[2] if z.code != prog.WDSTART]
            o = launch(v, p, fast=False, timeout=15, workers=rng.choice([1, 2, 4]), env=LEAK if v[0] == "a" else None)
            if not health(chk, o): continue
            wd_judge(chk, p, o, tail)
            chk.saw(1, hash(tuple((f[2], f[3], f[4]) for k, t, f in o.recs if k == "W"))); chk.count("reaction_executions", len(o.E))
    for v in ("anp", "age", "aad", "tnp", "onp"): exe(v)
    vv = lambda i: [("anp", "age", "aad", "tnp", "onp")[i % 5]]
    pmap(lambda i: one(i, 1, vv(i)), range(tier(chk, 100, 1500)), jobs=40)
    pmap(lambda i: one(i, 0, vv(i) + ["tnp"]), range(tier(chk, 120, 3000)), jobs=16)
    chk.rule = "programs with 1-3 reactors and up to 8 watchdogs started, restarted and stopped at random real times, handlers that schedule, start and stop; half end with watchdogs pending; one evaluation = one run; distinct = sequence of start/stop/fire and its physical times"
    return chk.finish()


LEAK = {"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")}

def L08(chk):
    pmap(lambda i: async_case(chk, i, ("anp", "age", "aad")), range(tier(chk, 30, 800)))
    pmap(lambda i: async_case(chk, 1000 + i, ("onp", "oge", "oad"), fast=False, kind="plain", n=150), range(tier(chk, 24, 600)))
    pmap(lambda i: async_case(chk, 2000 + i, ("tnp", "tge", "tad"), kind="plain", n=30), range(tier(chk, 10, 300)))
    pmap(lambda i: idle_case(chk, 500 + i, ("onp", "age", "aad"), False), range(tier(chk, 50, 1200)), jobs=24)
    pmap(lambda i: async_case(chk, 3000 + i, ("onp", "aad"), fast=True, kind="plain", n=200), range(tier(chk, 10, 300)))
    chk.rule = "programs with physical actions scheduled by 1-4 threads and by reactions, in real time and fast mode, with injected delays; one evaluation = one run; every call is matched with the occurrence of its value"
    return chk.finish()

def ends(chk, p, s, o):
    """Startup reactions once at the start tag, shutdown reactions once at the final tag, nothing after it."""
    end = (o.Z[1], o.Z[2])
    for x in p.rxs:
        if x.mode >= 0 or not x.special: continue
        l = sorted((f[4], f[5]) for f in o.E if f[2] == x.id)
        if x.special & 1:
            chk.count("startups")
            if l[:1] != [(0, 0)]: chk.violation("end:startup", "startup reaction %d executed first at %s [%s]" % (x.id, l[:1], o.v), o.replay)
        if x.special & 2:
            chk.count("shutdowns")
            if l[-1:] != [end]: chk.violation("end:shutdown", "shutdown reaction %d executed last at %s, final tag %s [%s]" % (x.id, l[-1:], end, o.v), o.replay)
    if p.timeout is not None and end > (p.timeout, 0):
        chk.violation("end:past-timeout", "final tag %s, timeout %d [%s]" % (end, p.timeout, o.v), o.replay)

def L09(chk):
    sweep(chk, tier(chk, 120, 4000), dict(p_notimeout=0.4, p_shutdown=0.9, p_stop=0.0), ALL4, mon=ends, delays=(100, 60, 0.3))
    sweep(chk, tier(chk, 60, 1500), dict(p_notimeout=0.0, p_shutdown=0.9, p_stop=0.0, timeout=(0, 3), min_execs=1), ALL4, mon=ends, base=1)
    sweep(chk, tier(chk, 40, 1000), dict(p_timer=0.1, p_action=0.4, p_notimeout=0.5, p_shutdown=0.9, nreact=(1, 3), min_execs=2), ALL4, mon=ends, base=2)
    def rt(rng): return dict(p_notimeout=0.0, p_shutdown=0.9, tscale=10 ** 6, timeout=(60, 2000), min_execs=2)
    def mon(c, p, s, o): ends(c, p, s, o); not_early(c, p, o)
    sweep(chk, tier(chk, 24, 400), rt, ("as", "anp", "age", "aad"), mon=mon, base=3, fast=False)
    # keepalive in real time without any event: the timeout ends the program
    def idle(i):
        rng = random.Random(chk.seed * 71 + i); p = Prog(); r = p.reactor(); x = p.rx(r, special=1); y = p.rx(r, special=2)
        p.timeout = rng.choice([0, 1, rng.randint(1, 60) * 10 ** 6]); p.keepalive = True; p.finish()
        for f in (True, False): det(chk, p, Sim(p, p.timeout, True).run(), ALL4, fast=f, mon=mon if not f else ends)
    pmap(idle, range(tier(chk, 6, 60)))
    chk.rule = BASE_RULE % "all variants; timeouts from 0 upwards or none, keepalive on and off, fast mode and real time"
    return chk.finish()

def L10(chk):
    sweep(chk, tier(chk, 130, 4000), dict(p_stop=0.35, p_shutdown=0.9), ALL4, mon=ends, delays=(150, 80, 0.5))
    sweep(chk, tier(chk, 50, 1500), dict(WIDE, p_stop=0.6, p_shutdown=0.9, p_zero=0.7, p_notimeout=0.5), THR3, mon=ends, delays=(200, 120, 0.7), base=1)
    pmap(lambda i: async_case(chk, 5000 + i, ("anp", "age", "aad"), kind="stop"), range(tier(chk, 40, 1200)))
    pmap(lambda i: async_case(chk, 6000 + i, ("onp", "oge", "oad"), kind="stop", fast=False), range(tier(chk, 30, 800)))
    pmap(lambda i: idle_case(chk, i, ("onp", "age", "aad"), True), range(tier(chk, 40, 1000)), jobs=24)
    chk.rule = BASE_RULE % "stop requests by one or several reactions at a tag, repeatedly, near the timeout, and by other threads at random times, in fast mode and real time"
    return chk.finish()

def deadlines(chk, p, o, exact):
    """Which of body and handler ran, against the physical clock sampled by the reactions."""
    st = o.Z[6]; es = sorted(o.E, key=lambda f: f[0])
    at = collections.defaultdict(dict); prevmax = {}; cur = None; mx = mxp = -1 << 62
    handled = {}
    for f in es:
        tg = (f[4], f[5])
        if tg != cur: cur = tg; mxp = max(mxp, mx)
        mx = max(mx, f[7]); prevmax[(f[2], tg)] = mxp; at[tg][f[2]] = f
    for f in es:
        x = p.rxs[f[2]]; tg = (f[4], f[5])
        if f[3]: handled[(f[2], tg)] = 1
        if x.deadline < 0:
            if f[3]: chk.violation("deadline:no-deadline", "reaction %d has no deadline, its handler ran [%s]" % (f[2], o.v), o.replay)
            continue
        lim = st + f[4] + x.deadline
        chk.count("handlers" if f[3] else "bodies_in_time")
        low = max([prevmax[(f[2], tg)]] + [at[tg][y][7] for y in p.anc[f[2]] if y in at[tg]])
        if f[3] and x.deadline and f[6] <= lim:
            chk.violation("deadline:handler-in-time", "reaction %d (deadline %d) at %s: the handler ran although physical time was %d when it started [%s]" % (f[2], x.deadline, tg, f[6] - st, o.v), o.replay); return None
        if not f[3] and (x.deadline == 0 or low > lim or (exact and f[6] > lim)):
            chk.violation("deadline:body-late", "reaction %d (deadline %d) at %s: the body ran although physical time was at least %d when it was released [%s]" % (f[2], x.deadline, tg, (f[6] if exact else low) - st, o.v), o.replay); return None
    for k, t, f in o.recs:
        if k != "D": continue
        chk.count("deadline_queries"); x = p.rxs[f[1]]
        if f[2] and f[3] <= x.deadline: chk.violation("deadline:query", "lf_check_deadline said violated in reaction %d (deadline %d) at lag %d [%s]" % (f[1], x.deadline, f[3], o.v), o.replay)
        e = [g for g in o.E if g[2] == f[1] and g[0] < f[0] < g[1]]
        if not f[2] and e and e[0][6] - st - e[0][4] > x.deadline: chk.violation("deadline:query", "lf_check_deadline said met in reaction %d (deadline %d) which started at lag %d [%s]" % (f[1], x.deadline, e[0][6] - st - e[0][4], o.v), o.replay)
    return handled

def dl_case(chk, i, variants, mode):
    rng = random.Random(chk.seed * 5003 + i)
    for _ in range(50):
        p, s0 = prog.generate(rng, p_deadline=0.6, p_advclk=0.5 if mode else 0.0, p_sleep=0.0 if mode else 0.3, p_stop=0.02, tscale=40 if mode else 10 ** 6, timeout=(60, 400) if mode else (100, 2500))
        if p.timeout is None: continue
        for x in p.rxs:
            if x.deadline > 0 and x.deadline < 10 ** 12 and rng.random() < 0.5:
                x.ops.insert(0, Op(prog.CHKDL))
        if not mode:
            for x in p.rxs:
                if rng.random() < 0.2: x.ops.append(Op(prog.SLEEP, 0, 3000, mask=1, match=0))
        if mode: p.clock = (1, rng.choice([10 ** 9, 10 ** 18]))
        p.finish(); break
    for v in variants:
        w = rng.choice([1, 1, 2, 4])
        o = launch(v, p, workers=w, fast=bool(mode))
        if not health(chk, o): continue
        order(chk, p, o)
        h = deadlines(chk, p, o, bool(mode) and o.workers == 1)
        if h is None: continue
        try: s = Sim(p, p.timeout, p.keepalive, handled=h, limit=20000).run()
        except prog.Limit: continue
        against(chk, p, s, o)
        chk.saw(1, (i, hash(frozenset(h)), interleaving(o))); chk.count("reaction_executions", len(o.E))

def L11(chk):
    pmap(lambda i: dl_case(chk, i, ALL4, 1), range(tier(chk, 150, 4000)))
    pmap(lambda i: dl_case(chk, 10000 + i, ("as", "onp", "oge", "oad"), 0), range(tier(chk, 24, 500)))
    chk.rule = "programs with deadlines on half of their reactions; physical time is controlled by the reactions themselves or real, with sleeps; one evaluation = one run; the choice between body and handler is checked against the clock and everything else against the oracle given that choice"
    return chk.finish()

def L12(chk):
    def mono(c, p, o):
        es = sorted([(f[0], f[6]) for f in o.E] + [(f[1], f[7]) for f in o.E]); m = -1 << 62
        starts = [(f[0], f[6], f[7], f[1]) for f in o.E]
        done = sorted((f[1], f[7]) for f in o.E); k = 0
        for s0, p0, p1, s1 in sorted(starts):
            while k < len(done) and done[k][0] < s0: m = max(m, done[k][1]); k += 1
            c.count("clock_readings", 2)
            if p0 < m or p1 < p0: c.violation("clock-backwards", "physical time %d read after %d [%s]" % (min(p0, p1), max(m, p0), o.v), o.replay); return
    def rt(rng): return dict(p_notimeout=0.0, tscale=10 ** 6, timeout=(60, 2500), min_execs=4, p_stop=0.02)
    def mon(c, p, s, o): not_early(c, p, o); mono(c, p, o)
    vs = ("as", "anp", "age", "aad", "onp")
    sweep(chk, tier(chk, 40, 800), rt, vs, mon=mon, fast=False, delays=(100, 60, 0.4))
    def asy(i):
        rng = random.Random(chk.seed * 313 + i); p = async_prog(rng, False, "plain", 60); p.fastrun = False
        for v in ("anp", "age", "aad", "onp"):
            o = launch(v, p, fast=False, workers=rng.choice([1, 2, 4]))
            if not health(chk, o): continue
            not_early(chk, p, o); mono(chk, p, o); chk.saw(1, interleaving(o)); chk.count("reaction_executions", len(o.E))
    pmap(asy, range(tier(chk, 24, 500)))
    # fast mode never waits: hours of logical time pass without real time
    def fastc(i):
        rng = random.Random(chk.seed * 919 + i); p, s = prog.generate(rng, tscale=3600 * 10 ** 9, timeout=(60, 2000))
        for v in ALL4:
            o = launch(v, p, fast=True, workers=rng.choice([1, 2, 4]))
            if o.r.timeout and o.r.idle and o.Z is None:
                chk.violation("fast-waits", "fast mode waits for time to elapse [%s]" % o.v, o.replay); continue
            if not health(chk, o): continue
            against(chk, p, s, o); chk.saw(1, interleaving(o)); chk.count("fast_logical_hours", o.Z[1] // (3600 * 10 ** 9))
    pmap(fastc, range(tier(chk, 20, 400)))
    chk.rule = "real-time runs with timers, actions and asynchronous events where every reaction samples physical time and fast runs over hours of logical time; distinct = program and thread order"
    return chk.finish()

def L13(chk):
    k = dict(p_iter=0.7, p_multi=0.8, p_conn=1.0)
    sweep(chk, tier(chk, 120, 4000), k, ALL4, delays=(60, 40, 0.3))
    sweep(chk, tier(chk, 100, 3000), dict(k, p_wide=0.7, nreact=(2, 5), dense=1.0), ALL4, base=1, delays=(60, 40, 0.3))
    def sparse(i):
        rng = random.Random(chk.seed * 617 + i); p = sparse_prog(rng); s = Sim(p, p.timeout, False, limit=20000).run()
        det(chk, p, s, ALL4 + ("tnp",), workers=rng.choice([1, 2, 4, 8]))
    pmap(sparse, range(tier(chk, 60, 1500)))
    chk.rule = BASE_RULE % "ports and multiports up to 60 channels wide, several writers, repeated sets, sparse and dense patterns, iterators"
    return chk.finish()

def sparse_prog(rng):
    """Writers with many channels into multiports that keep a sparse record, read through the iterator."""
    p = Prog(); outs = []
    for k in range(rng.randint(1, 5)):
        r = p.reactor(); w = rng.choice([1, rng.randint(2, 20)]); o = p.out(r, w, 0, 0); outs += [(o, c) for c in range(w)]
        t = p.timer(r, rng.choice([0, 0, rng.randint(1, 5)]), rng.randint(1, 5))
        for q in range(rng.choice([1, 1, 2])):
            x = p.rx(r); x.src = [(2, t, 3)]; x.eff = [o]
            for c in range(w):
                for _ in range(rng.choice([1, 1, 2])):
                    m = rng.choice([1, 3, 7, 15]); x.ops.append(Op(prog.SETI, o, c, mask=m, match=rng.randrange(m + 1)))
            rng.shuffle(x.ops)
    r = p.reactor(); rng.shuffle(outs)
    while len(outs) < 10:   # pad with a never written output
        o = p.out(r, 1, 0, 0) if False else None
        rr = p.reactor(); oo = p.out(rr, 10, 0, 0); outs += [(oo, c) for c in range(10)]
    i = p.inp(r, len(outs), 0, 1)
    for c, (o, oc) in enumerate(outs): p.conn(i, c, o, oc)
    for q in range(rng.choice([1, 2])):
        x = p.rx(r); x.src = [(0, i, 7)]
    p.timeout = rng.randint(20, 60)
    return p.finish()

def L14(chk):
    mon = lambda c, p, s, o: [c.count("payloads_with_destructor", int(m.group(1))) for m in re.finditer(r"^PAYLOADS (\d+) (\d+)", o.r.out, re.M)]
    k = dict(p_arr=0.9, p_custom=0.6, p_action=0.9, p_conn=1.0)
    sweep(chk, tier(chk, 140, 4000), k, ALL4, mon=mon, delays=(100, 60, 0.4), env=LEAK)
    sweep(chk, tier(chk, 60, 1500), dict(k, p_after=0.7, p_zero=0.6, p_minsp=0.3, p_stop=0.15, maxrx=5), ALL4, mon=mon, base=1, env=LEAK)
    sweep(chk, tier(chk, 40, 1000), dict(k, nreact=(5, 10)), THR3, mon=mon, delays=(250, 120, 0.9), base=2, env=LEAK)
    sweep(chk, tier(chk, 40, 1000), {}, ("as_m", "aad_m"), mon=mon, gen=prog.gen_modal, base=3, env=LEAK)
    pmap(lambda i: async_case(chk, 7000 + i, ("anp", "aad"), env=LEAK), range(tier(chk, 12, 200)))
    pmap(lambda i: async_case(chk, 7500 + i, ("anp", "age"), kind="stop", env=LEAK), range(tier(chk, 12, 200)))
    chk.rule = BASE_RULE % "array payloads with and without custom destructor and copy constructor, forwarded, copied writable, delayed, scheduled, replaced, dropped at stop; payload contents compared at every reader; AddressSanitizer, LeakSanitizer and a registry of payloads at destruction"
    return chk.finish()

def L17(chk):
    T3 = ("tnp", "tge", "tad")
    sweep(chk, tier(chk, 60, 2000), dict(p_stop=0.1), T3, delays=(100, 60, 0.5))
    sweep(chk, tier(chk, 30, 1000), dict(WIDE, p_arr=0.8, p_custom=0.0), T3, delays=(200, 60, 0.7), base=1)
    sweep(chk, tier(chk, 24, 800), dict(nreact=(3, 6), p_wide=0.4, p_iter=0.6, dense=1.0), T3, base=2, delays=(200, 60, 0.7))
    sweep(chk, tier(chk, 24, 800), {}, ("tnp_m", "tad_m"), gen=prog.gen_modal, base=3)
    def sparse(i):
        rng = random.Random(chk.seed * 619 + i); p = sparse_prog(rng); p.delay = (200, 60, i)
        det(chk, p, Sim(p, p.timeout, False, limit=20000).run(), T3, workers=4)
    pmap(sparse, range(tier(chk, 16, 400)))
    pmap(lambda i: async_case(chk, 8000 + i, T3, n=30), range(tier(chk, 16, 400)))
    pmap(lambda i: async_case(chk, 8500 + i, T3, kind="stop", n=30), range(tier(chk, 16, 400)))
    pmap(lambda i: dl_case(chk, 20000 + i, T3, 1), range(tier(chk, 16, 400)))
    sweep(chk, tier(chk, 60, 2000), dict(p_arr=0.6, p_stop=0.1, p_minsp=0.3, p_huge=0.05, p_negextra=0.1), ALL4, base=4, delays=(100, 60, 0.3))
    chk.rule = BASE_RULE % "ThreadSanitizer builds of the three schedulers and AddressSanitizer/UBSan builds of all variants; deterministic, asynchronous, stopping, modal and deadline programs"
    return chk.finish()

def L18(chk):
    O3 = ("onp", "oge", "oad")
    sweep(chk, tier(chk, 120, 4000), dict(p_stop=0.1), O3 + ("os",), delays=(300, 200, 0.6))
    sweep(chk, tier(chk, 60, 2000), dict(WIDE, p_zero=0.7), O3, workers=16, delays=(100, 300, 0.6), base=1)
    sweep(chk, tier(chk, 40, 1500), dict(nreact=(8, 20), maxrx=6, limit=4000), O3, workers=2, delays=(300, 30, 0.6), base=2)
    pmap(lambda i: async_case(chk, 9000 + i, O3, kind="stop", n=80), range(tier(chk, 40, 1000)))
    # an idle program (keepalive, no timeout) is woken by asynchronous events and by a stop request
    def wake(i):
        rng = random.Random(chk.seed * 8887 + i); p = Prog(); f = i % 2 == 0; p.fastrun = f
        r = p.reactor(); a = p.act(r, 1, rng.choice([0, 0, rng.randint(1, 500) * 1000]), 0, 0, 1); x = p.rx(r); x.src = [(1, a, 3)]; y = p.rx(r, special=1); y.ops = [Op(prog.ASYNC)]; z = p.rx(r, special=2)
        x.ops = [Op(prog.COUNTSTOP, 25)]
        p.asyncs = [(a, 40, rng.randrange(2), rng.choice([0, 200, 1500]), 0, rng.choice([0, 5000]))]
        p.keepalive = True; p.delay = rng.choice([(0, 0, 0), (300, 200, i)]); p.finish()
        for v in O3:
            o = launch(v, p, fast=f, workers=rng.choice([1, 2, 4, 8]))
            if not health(chk, o): continue
            async_judge(chk, p, o)
            n = sum(1 for g in o.E if g[2] == x.id); chk.count("wakeups", n); chk.saw(1, interleaving(o))
            if n < 25: chk.violation("wake:ended-early", "stopped after %d of 25 events [%s]" % (n, o.v), o.replay)
    pmap(wake, range(tier(chk, 30, 600)))
    chk.rule = BASE_RULE % "optimised builds of all schedulers with 1-16 workers under injected delays; a run must end with its complete trace; a run that exceeds its time is inspected: all threads asleep is a hang, otherwise it is repeated with three times the time"
    return chk.finish()

UNITS = {"sec": 10 ** 9, "msec": 10 ** 6, "usec": 10 ** 3, "nsec": 1, "min": 60 * 10 ** 9, "hour": 3600 * 10 ** 9, "day": 86400 * 10 ** 9, "week": 7 * 86400 * 10 ** 9}
ALIAS = {"sec": ["sec", "secs", "second", "seconds"], "msec": ["msec", "msecs"], "usec": ["usec", "usecs"], "nsec": ["nsec", "nsecs"], "min": ["min", "mins", "minute", "minutes"],
         "hour": ["hour", "hours"], "day": ["day", "days"], "week": ["week", "weeks"]}
def L19(chk):
    def prg(rng, per):
        p = Prog(); r = p.reactor(); t = p.timer(r, 0, per); x = p.rx(r); x.src = [(2, t, 3)]; z = p.rx(r, special=2); return p
    def good(i):
        rng = random.Random(chk.seed * 177 + i)
        u = rng.choice(list(UNITS)); n = rng.choice([0, 1, 2, rng.randint(1, 50), rng.randint(1, 1000)]); to = n * UNITS[u]
        per = max(1, to // rng.randint(2, 30) + rng.randint(0, 3)); p = prg(rng, per)
        groups = [[rng.choice(["-o", "--timeout", "-timeout"]), str(n), rng.choice(ALIAS[u])], [rng.choice(["-f", "--fast"]), "true"]]
        k = rng.choice([None, True, False]); w = rng.choice([None, 1, 2, 5, 0, -3])
        if k is not None: groups.append([rng.choice(["-k", "--keepalive"]), "true" if k else "false"])
        if w is not None: groups.append([rng.choice(["-w", "--workers"]), str(w)])
        if rng.random() < 0.2: groups.append(["--ros-args"])
        if rng.random() < 0.2: groups.insert(0, ["-o", "7", "hours"])   # the last one counts
        fst = groups[0] == ["-o", "7", "hours"]
        rest = groups[1:] if fst else groups; rng.shuffle(rest); args = sum(([groups[0]] if fst else []) + rest, [])
        for _ in range(3): pass
        p.timeout = to; p.keepalive = bool(k); p.finish()
        s = Sim(p, to, bool(k), limit=10 ** 6).run()
        for v in ("as", "anp", "aad"):
            q = p.text(); p2to, p2k = p.timeout, p.keepalive
            o = launch_args(v, q, args)
            if not health(chk, o): continue
            against(chk, p, s, o); chk.saw(1, tuple(args)); chk.count("accepted")
            if v != "as":
                m = re.search(r"WORKERS (\d+)", o.r.out); want = 4 if w is None else max(w, 1)
                if m and int(m.group(1)) != want: chk.violation("cli:workers", "arguments %s: %s workers, expected %d [%s]" % (args, m.group(1), want, v), o.replay)
    def bad(i):
        rng = random.Random(chk.seed * 277 + i)
        p = prg(rng, 10 ** 6); p.timeout = 10 ** 7; p.finish()
        args = rng.choice([["-o"], ["-o", "5"], ["-o", "x", "sec"], ["-o", "5", "parsecs"], ["-o", "5", ""], ["--timeout", "abc", "nsec"], ["-f"], ["--fast"], ["-k"], ["-w"], ["--workers"],
                           ["-x"], ["--nonsense", "1"], ["foo"], ["-h"], ["--help"], ["-o", "", "sec"]])
        pre = rng.choice([[], ["-f", "true"], ["-w", "2"], ["-f", "true", "-o", "10", "msec"]])
        for v in ("as", "anp"):
            o = launch_args(v, p.text(), pre + args, timeout=20)
            chk.count("rejected"); chk.saw(1, (tuple(pre + args), v)); chk.sanitizer(o.r.err, o.replay)
            if o.r.timeout or o.E: chk.violation("cli:malformed-accepted", "arguments %s: the program ran %d reactions [%s]" % (pre + args, len(o.E), v), o.replay)
            elif o.r.rc == 0: chk.violation("cli:malformed-status", "arguments %s: exit status 0 [%s]" % (pre + args, v), o.replay)
            elif o.r.rc < 0: chk.violation("cli:crash", "arguments %s: killed by signal %d [%s]" % (pre + args, -o.r.rc, v), o.replay)
    def huge(i):
        rng = random.Random(chk.seed * 377 + i); p = prg(rng, 10 ** 6); p.timeout = None
        p.rxs[0].ops = [Op(prog.COUNTSTOP, 12)]; p.finish()
        n, u = rng.choice([(FOREVER, "weeks"), (10 ** 10, "secs"), (FOREVER, "nsec"), (FOREVER // 10 ** 9 + 1, "sec"), (200000, "weeks"), (FOREVER // 1000 + 5, "usec")])
        args = ["-o", str(n), u, "-f", "true"]; s = Sim(p, None, False, limit=10 ** 6).run()
        for v in ("as", "anp", "age", "aad"):
            o = launch_args(v, p.text(), args)
            if not health(chk, o): continue
            against(chk, p, s, o); chk.saw(1, tuple(args)); chk.count("huge_timeouts")
    def real(i):
        rng = random.Random(chk.seed * 477 + i); p = prg(rng, 5 * 10 ** 6); ms = rng.randint(10, 60); p.timeout = ms * 10 ** 6; p.finish()
        s = Sim(p, p.timeout, False, limit=10 ** 6).run()
        for v in ("as", "anp"):
            for args in (["-o", str(ms), "msec"], ["-f", "false", "-o", str(ms), "msecs"], ["-f", "true", "-f", "false", "-o", str(ms * 1000), "usec"]):
                o = launch_args(v, p.text(), args)
                if health(chk, o): against(chk, p, s, o); not_early(chk, p, o); chk.saw(1, tuple(args)); chk.count("real_time_runs")
    for v in ALL4: exe(v)
    pmap(good, range(tier(chk, 120, 3000))); pmap(bad, range(tier(chk, 60, 600))); pmap(huge, range(tier(chk, 12, 60))); pmap(real, range(tier(chk, 4, 60)))
    chk.rule = "argument vectors over all options, spellings, units, orders and repetitions, well-formed and malformed, given to a running program; one evaluation = one run"
    return chk.finish()

def launch_args(v, text, args, timeout=40):
    class P: pass
    q = P(); q.timeout = None; q.keepalive = False
    return launch(v, q, text=text, rawargs=args, timeout=timeout)

CHECKS = {k: v for k, v in globals().items() if re.fullmatch(r"L\d\d", k)}
