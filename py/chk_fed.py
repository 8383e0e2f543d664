"""Checks F01-F08: complete federations (real RTI, real federates over loopback) against the semantics of the undivided program."""
import random, re, struct, common
from common import *
import prog, rti, fed, chk_rt
from prog import Sim, FOREVER
from rti import NEVER, NET, LTC, TAG, PTAG, MSG, ABSENT, STOPREQ, STOPREP, STOPGR, RESIGN, FAILED, TIMESTAMP, NEIGH, FED_IDS
from chk_rt import tier

SCH = ["np", "ge", "ad"]
class Sink:
    """Collects what a monitor finds; passed on only by the check that owns the property."""
    def __init__(s): s.v = []

def variants(rng, kinds="aao", mode="c", n=4, mixed=0.3):
    if rng.random() < mixed: return [rng.choice(kinds) + rng.choice(SCH) + mode for _ in range(n)]
    v = rng.choice(kinds) + rng.choice(SCH) + mode
    return [v]

def holder(rng):
    """A network that delays messages, each connection and kind in its own way."""
    slow = {(f, up): rng.choice([0, 0, 0.001, 0.004]) for f in range(-1, 8) for up in (True, False)}
    kinds = {k: rng.choice([0, 0, 0, 0.003]) for k in (NET, LTC, TAG, PTAG, MSG, ABSENT, STOPREQ, STOPREP, STOPGR)}
    def hold(f, up, m, r):
        d = slow[(f, up)] + kinds.get(m[0], 0)
        return r.random() * d * 2 if d and r.random() < 0.5 else 0
    return hold

def netdelay(rng):
    return rng.choice([None, None, (100, 300, 0), (50, 1500, 100), (300, 100, 400), (20, 4000, 50)])

def sig(g, res):
    return hash((tuple(tuple(sorted((f[0], t, f[2]) for k, t, f in o.recs if k == "E")[i][2] for i in range(min(40, len(o.E)))) for o in res.outs), g.timeout, tuple(o.v for o in res.outs), len(res.px.log) if res.px else 0))

def wiresig(res):
    ids = {rti.NAMES.get(k, k): k for k in ()}
    return hash(tuple((f, u, m[0]) for f, u, m in res.px.log))

class Stop(Exception): pass
def cases(chk, n, one, threads=None):
    """Run cases until two of them have failed (a hang costs its whole time limit)."""
    bad = [0]
    def f(i):
        if bad[0] >= 2: return
        if one(i) is False: bad[0] += 1
    pmap(f, range(n))

def run(chk, i, base, zdc=None, kinds="aao", knobs=None, proxy=0.0, rdelay=0.3, mon=None, nf=None, fast=True):
    rng = random.Random((chk.seed * 1000003 + i) * 37 + base)
    g, s, fs = fed.gen(rng, nf=nf, zdc=zdc, **(knobs or {}))
    px = rng.random() < proxy; nd = netdelay(rng)
    res = fed.launch(fs, g.timeout, variants(rng, kinds, n=len(fs)), rng, netdelay=nd, proxy=px, hold=holder(rng) if px else None, rdelay=rng.choice([200, 800]) if rng.random() < rdelay else 0, kind=rng.choice(["asan", "opt"]), fast=fast)
    ok = fed.judge(chk, g, s, fs, res)
    chk.saw(1, sig(g, res), dict(federates=len(fs), reactions=len(g.rxs), timeout=g.timeout, zero_delay_cycle=any(F.inz for F in fs), executions=sum(len(o.E) for o in res.outs), variants=[o.v for o in res.outs]) if i < 4 else None)
    chk.count("reactions", sum(len(o.E) for o in res.outs)); chk.count("messages", sum(1 for o in res.outs for f in o.N if f[1] == prog.SENDFED)); chk.count("absent_notifications", sum(1 for o in res.outs for f in o.N if f[1] == prog.SENDABS and f[5] != -99))
    chk.count("federates", len(fs))
    if mon and (ok or res.px): mon(chk, g, s, fs, res)
    return ok

RULE = "randomly generated reactor programs divided into 2-4 federates at random (delayed and undelayed connections%s), each run as a real federation: RTI process, federate processes, loopback sockets; every federate's executions, values, final states and last tag are compared with the discrete-event semantics of the undivided program; schedules vary by scheduler, workers, build, delays before socket calls, short reads and writes, delayed RTI and delayed individual messages; one evaluation = one federation; distinct = (program, order of reactions in each federate)"

def F01(chk):
    cases(chk, tier(chk, 260, 6000), lambda i: run(chk, i, 1, zdc=False, proxy=0.25))
    cases(chk, tier(chk, 70, 1500), lambda i: run(chk, i, 2, zdc=False, kinds="t", rdelay=0))
    cases(chk, tier(chk, 60, 1500), lambda i: run(chk, i, 3, zdc=False, proxy=0.25, knobs=dict(nreact=(6, 14), p_after=0.5, p_zero=0.6), nf=4))
    chk.rule = RULE % ", no zero-delay cycles between federates"
    return chk.finish()

def F03(chk):
    cases(chk, tier(chk, 280, 6000), lambda i: run(chk, i, 11, zdc=True, proxy=0.25))
    cases(chk, tier(chk, 90, 1500), lambda i: run(chk, i, 12, zdc=True, kinds="t", rdelay=0))
    cases(chk, tier(chk, 60, 1500), lambda i: run(chk, i, 13, zdc=True, proxy=0.25, knobs=dict(nreact=(6, 14), p_after=0.15), nf=4))
    chk.rule = RULE % "; some federates form cycles without delay"
    return chk.finish()

# ---------------------------------------------------------------- the wire
def wire(chk, g, s, fs, res, stop=None):
    """Check what each federate tells the RTI against what it was told and what it does."""
    log = res.px.log; rep = res.replay
    st = next((m[1] for f, u, m in log if m[0] == TIMESTAMP and not u), None)
    if st is None: return
    for f, u, b in res.px.bad:
        if u: chk.violation("garbage", "federate %d sends bytes that are no message: %s" % (f, b.hex()), rep)
    def el(t): return (t[0] - st, t[1]) if NEVER < t[0] < FOREVER else t
    vs = ",".join(o.v for o in res.outs)
    for F in fs:
        me = F.id; lastL = (NEVER, 0); lastN = None; grant = (NEVER, 0); nets = []; got = []; sent = {}; resigned = False; sg = None; nL = 0; dl = {}
        ports = {(t, p): d for (k, t, p, d, _) in F.snd}
        def bad(key, msg, j): chk.violation(key, "federate %d: %s [%s]\n%s" % (me, msg, vs, res.px.text(st, max(0, j - 30), j + 1)), rep)
        for j, (f, u, m) in enumerate(log):
            if f != me: continue
            k = m[0]
            if not u:
                if k in (TAG, PTAG): grant = max(grant, el(m[1]))
                elif k == MSG: got.append((el(m[3]), j)); chk.count("messages_delivered")
                elif k == STOPGR: sg = el(m[1])
                elif k == TIMESTAMP and m[1] != st: chk.violation("start-time", "the RTI gives different start times", rep)
                continue
            chk.count("upward_messages")
            if k == "EOF": continue
            if resigned: bad("after-resign", "sends %s after it resigned" % rti.NAMES.get(k, k), j); return
            if k in (RESIGN, FAILED):
                resigned = True
                if k == FAILED: bad("failed", "reports failure after a normal end", j)
                continue
            tau = None; what = rti.NAMES.get(k, k)
            if k == LTC:
                t = tau = el(m[1]); nL += 1
                if t <= lastL: bad("ltc-order", "LTC %s after LTC %s" % (t, lastL), j); return
                lastLold, lastL = lastL, t
            elif k == NET:
                t = el(m[1]); chk.count("nets")
                if t <= lastL: bad("net-past", "NET %s after LTC %s" % (t, lastL), j); return
                nets.append((t, j)); lastN = t; continue
            elif k in (MSG, ABSENT):
                T = el(m[3]); d = ports.get((m[2], m[1]))
                if d is None: bad("unknown-port", "%s to port %d of federate %d, to which it has no connection" % (what, m[1], m[2]), j); return
                if T <= lastL: bad("message-past", "%s with tag %s after LTC %s" % (what, T, lastL), j); return
                tau = T if d == NEVER else (T[0], T[1] - 1) if d == 0 else (T[0] - d, 0)
                if k == MSG or True:
                    o = sent.get((m[2], m[1], T))
                    if o == MSG: bad("message-twice", "%s for tag %s on port %d after a message with that tag" % (what, T, m[1]), j); return
                    if o == ABSENT and k == MSG: bad("message-after-absent", "a message for tag %s on port %d after it was reported absent" % (T, m[1]), j); return
                    sent[(m[2], m[1], T)] = k
            else: continue
            if F.up and tau > grant: bad("ungranted", "%s of tag %s while granted only %s" % (what, tau, grant), j); return
            # Honesty: acting at a tag below the announced next event needs an input that arrived meanwhile.
            if nets and k in (MSG, LTC) and (ports.get((m[2], m[1])) == NEVER if k == MSG else True):
                low = lastLold if k == LTC else lastL
                if tau < nets[-1][0] and not any(low < M <= tau for M, _ in got) and not (sg is not None and sg <= tau) and not (tau == (g.timeout, 0)):
                    bad("dishonest-net", "%s of tag %s although its next event was announced as %s and nothing arrived" % (what, tau, nets[-1][0]), j); return
        if res.hungfeds: continue
        o = res.outs[me]
        if o.Z and not resigned and o.rc == 0: chk.violation("no-resign", "federate %d ended without resigning [%s]" % (me, vs), rep)
        ex = {(f[4], f[5]) for f in o.E if f[2] < fed.PSEUDO}
        if F.up:
            late = [t for t in ex if t > grant]
            if late and not (stop and min(late) >= stop): chk.violation("executed-ungranted", "federate %d executed %s but was granted only %s [%s]" % (me, min(late), grant, vs), rep)
        chk.count("ltcs", nL); chk.count("grants", sum(1 for f, u, m in log if f == me and not u and m[0] in (TAG, PTAG)))
        if o.Z and o.Z[6] != st: chk.violation("start-time", "federate %d starts at %d, the RTI said %d [%s]" % (me, o.Z[6], st, vs), rep)

def wmon(chk, g, s, fs, res):
    wire(chk, g, s, fs, res); chk.distinct_extra = None

def F02(chk):
    cases(chk, tier(chk, 170, 4000), lambda i: run(chk, i, 21, zdc=False, proxy=1.0, mon=wmon))
    cases(chk, tier(chk, 130, 3000), lambda i: run(chk, i, 22, zdc=True, proxy=1.0, mon=wmon))
    chk.rule = RULE % "" + "; a proxy records every message in the order exchanged; each federate's NET, LTC, tagged and absent messages are checked against its grants, its inputs, its connections and what it executed"
    return chk.finish()

# ---------------------------------------------------------------- stopping
def mute(g):
    """Shutdown reactions that produce no outputs."""
    for x in g.rxs:
        if x.special & 2: x.ops = [o for o in x.ops if o.code >= prog.SCH]; x.hops = [o for o in x.hops if o.code >= prog.SCH]

def stop_case(chk, i, base, zdc, kinds="aao", px=0.4, talk=False):
    rng = random.Random((chk.seed * 1000003 + i) * 41 + base)
    while 1:
        g, s, fs = fed.gen(rng, zdc=zdc, p_stop=rng.choice([0.05, 0.15]), p_minsp=0, tweak=None if talk else mute)
        s = Sim(g, g.timeout, True, limit=8000); s.ignore_stop = True
        try: s.run()
        except prog.Limit: continue
        if g.sim.stop_req and not fed.collides(g, s): break
    nd = netdelay(rng); pr = rng.random() < px
    res = fed.launch(fs, g.timeout, variants(rng, kinds, n=len(fs)), rng, netdelay=nd, proxy=True, hold=holder(rng) if pr else None, rdelay=rng.choice([0, 0, 300]), kind=rng.choice(["asan", "opt"]))
    ok = judge_stop(chk, g, fs, res, talk)
    chk.saw(1, sig(g, res), dict(federates=len(fs), timeout=g.timeout, requests=[len([1 for k, t, f in o.recs if k == "Q"]) for o in res.outs]) if i < 4 else None)
    return ok

def judge_stop(chk, g, fs, res, talk=False):
    """Federates that take part in the agreement end at the agreed tag; one that reached the timeout and left before may end there."""
    vs = ",".join(o.v for o in res.outs); tmo = (g.timeout, 0); log = res.px.log
    if res.hungfeds or any(o.Z is None for o in res.outs): return fed.judge(chk, g, g.sim, fs, res)
    st = next((m[1] for f, u, m in log if m[0] == TIMESTAMP and not u), 0)
    def el(t): return (t[0] - st, t[1])
    gr = {el(m[1]) for f, u, m in log if m[0] == STOPGR}
    part, left, log = set(), set(), []
    for e in res.px.log:       # replies of federates that have already left do not count
        f, u, m = e
        if u and m[0] == RESIGN: left.add(f)
        elif u and f in left: continue
        if u and m[0] in (STOPREQ, STOPREP): part.add(f)
        log.append(e)
    req = [el(m[1]) for f, u, m in log if u and m[0] == STOPREQ]; reps = [el(m[1]) for f, u, m in log if u and m[0] == STOPREP]
    chk.count("stop_requests", len(req)); chk.count("stop_replies", len(reps)); chk.count("stop_grants", len([1 for f, u, m in log if m[0] == STOPGR]))
    if len(gr) > 1: chk.violation("grants-differ", "stop tags %s were granted [%s]" % (sorted(gr), vs), res.replay); return False
    agreed = min(gr) if gr else None
    end = min(agreed, tmo) if agreed is not None else tmo
    if agreed is not None and req and agreed < max(req + reps): chk.violation("grant-early", "granted %s, requested and replied %s [%s]" % (agreed, req + reps, vs), res.replay); return False
    ends = {o.f: (o.Z[1], o.Z[2]) for o in res.outs}; sims = {}
    def sim(e):
        if e not in sims:
            s = Sim(g, g.timeout, True, limit=8000, stop_ext=e); s.ignore_stop = True; s.shut = {r for r in range(g.nR) if ends.get(g.fedof.get(r)) == e}; s.run(); sims[e] = s
        return sims[e]
    for o in res.outs:
        z = (o.Z[1], o.Z[2]); want = end if o.f in part else None
        if want is None and z not in (end, tmo) or want is not None and z != want:
            chk.violation("stop-tag", "federate %d ended at %s; the agreed stop tag is %s, the timeout %s, %s [%s]\n%s" % (o.f, z, agreed, tmo, "it took part in the agreement" if want else "it took no part", vs, res.px.text(st, max(0, len(log) - 60))), res.replay); return False
        chk.count("federates_stopped_by_agreement", int(z == agreed and z != tmo))
    # a request made at a tag before the end is not forgotten
    for o in res.outs:
        q = [(f[2], f[3]) for k, t, f in o.recs if k == "Q"]
        if q and (o.Z[1], o.Z[2]) > (min(q)[0], min(q)[1] + 1) and o.f not in part:
            chk.violation("request-forgotten", "federate %d requested a stop at %s, told nobody and ended at %s [%s]" % (o.f, min(q), (o.Z[1], o.Z[2]), vs), res.replay); return False
    if not req and gr: chk.violation("stop-unrequested", "a stop was granted that nobody requested [%s]" % vs, res.replay); return False
    if talk and end == agreed and end != tmo:
        # Known finding: messages that shutdown reactions send at the agreed stop tag may not be waited for. Anything else is a violation.
        for o in res.outs:
            if (o.Z[1], o.Z[2]) != end: continue
            want = {x for x in sim(end).execs.get(end, {}) if x in fs[o.f].xm}; got = {f[2] for f in o.E if (f[4], f[5]) == end and f[2] < fed.PSEUDO}
            if got != want or any(tuple(v & prog.M64 for v in (f[8], f[9])) != sim(end).execs[end][f[2]][1:] for f in o.E if (f[4], f[5]) == end and f[2] in want):
                if got <= want and fs[o.f].netin:
                    chk.violation("stop-tag-message-lost", "federate %d did not receive at the agreed stop tag %s what other federates' shutdown reactions sent at that tag [%s]" % (o.f, end, vs), res.replay); return None
    return fed.judge(chk, g, None, fs, res, sims=lambda o: sim((o.Z[1], o.Z[2])))

def F04(chk):
    cases(chk, tier(chk, 180, 4000), lambda i: stop_case(chk, i, 31, False))
    cases(chk, tier(chk, 90, 2000), lambda i: stop_case(chk, i, 32, True))
    cases(chk, tier(chk, 50, 1000), lambda i: stop_case(chk, i, 33, None, "t"))
    cases(chk, tier(chk, 60, 1000), lambda i: stop_case(chk, i, 34, None, talk=True))
    chk.rule = RULE % "" + "; reactions of several federates request stops; the common last tag must be the agreed one and everything before it as the semantics prescribes"
    return chk.finish()

# ---------------------------------------------------------------- segmentation and departures
def chop(rng): return (rng.choice([0, 0, 30]), rng.choice([100, 300]), rng.choice([600, 900, 1000]))

def seg_case(chk, i, base, zdc):
    rng = random.Random((chk.seed * 1000003 + i) * 43 + base)
    g, s, fs = fed.gen(rng, zdc=zdc, p_big=0.5)
    res = fed.launch(fs, g.timeout, variants(rng, "ao", n=len(fs)), rng, netdelay=chop(rng), proxy=rng.random() < 0.3, kind="asan")
    chk.saw(1, sig(g, res), dict(federates=len(fs), executions=sum(len(o.E) for o in res.outs)) if i < 4 else None); chk.count("segmented_federations")
    return fed.judge(chk, g, s, fs, res)

def gone_case(chk, i, base):
    """One federate is killed at a random point of the wire history; the others must end as if nothing happened, except for what depends on it."""
    rng = random.Random((chk.seed * 1000003 + i) * 47 + base)
    while 1:
        g, s, fs = fed.gen(rng, zdc=False, nf=rng.choice([2, 3, 3, 4]), p_big=0.3)
        if any(F.inz for F in fs): continue
        break
    cand = [F.id for F in fs if F.down] or [0]
    v = rng.choice(cand) if rng.random() < 0.8 else rng.randrange(len(fs)); N = rng.choice([1, 2, 3, 5, 8, 13, 20, 30, 45, 70]); st = dict(outs=None, ts=0, n=0, dead=False)
    slow = holder(rng) if rng.random() < 0.4 else None; mine = rng.random() < 0.5
    def hold(f, up, m, r):
        if m[0] == TIMESTAMP and not up: st["ts"] += 1
        elif st["ts"] == len(fs) and (f == v and up or not mine): st["n"] += 1
        if st["n"] == N and not st["dead"]:
            st["dead"] = True
            try: st["outs"][v].p.kill()
            except Exception: pass
        return slow(f, up, m, r) if slow else 0
    def during(outs, R, px): st["outs"] = outs
    nd = [netdelay(rng) or (0, 0, 0) for _ in fs]
    if rng.random() < 0.9: nd[v] = (nd[v][0], nd[v][1], 0)
    res = fed.launch(fs, g.timeout, variants(rng, "aao", n=len(fs)), rng, netdelay=nd, proxy=True, hold=hold, during=during, rdelay=rng.choice([0, 0, 300]), kind="asan")
    chk.saw(1, sig(g, res), dict(federates=len(fs), killed=v, after=N) if i < 4 else None)
    if not st["dead"] or res.outs[v].rc == 0: return fed.judge(chk, g, s, fs, res)
    chk.count("departures"); vs = ",".join(o.v for o in res.outs); ok = True
    if v in res.hungfeds: res.hungfeds.remove(v)
    st0 = next((m[1] for f, u, m in res.px.log if m[0] == TIMESTAMP and not u), 0)
    # everything up to the last tag it completed has been sent; what depends on it is asserted up to there
    L = max([(m[1][0] - st0, m[1][1]) for f, u, m in res.px.log if f == v and u and m[0] == LTC] or [(-1, 0)])
    dep = {v}
    for _ in fs: dep |= {F.id for F in fs if set(F.up) & dep}
    tail = "federate %d was killed after message %d, having completed %s [%s]\n%s" % (v, N, L, vs, res.px.text(st0, max(0, len(res.px.log) - 40)))
    for o in res.outs:
        if o.f != v and chk.sanitizer(o.err, res.replay): ok = False
    if chk.sanitizer(res.err, res.replay): ok = False
    cut = any(f == v and u for f, u, b in res.px.bad)
    if cut and any(o.rc for o in res.outs if o.f != v):
        chk.count("departures_within_a_message")
        L = res.px.log; first = lambda f, u, ks: next((k for k, (f2, u2, m) in enumerate(L) if f2 == f and u2 == u and m[0] in ks), 1 << 60)
        gone = any(first(o.f, False, ("EOF",)) < first(o.f, True, ("EOF", RESIGN, FAILED)) for o in res.outs if o.f != v)     # the RTI has closed connections of its own accord; what becomes of a federate that has lost the RTI is not asserted
        if all(o.rc in (0, 1, -9) and (gone or not o.hung) for o in res.outs): chk.violation("truncated-message-fatal", "federate %d was killed while it was writing a message; the RTI gave up and the other federates exited with %s" % (v, [o.rc for o in res.outs if o.f != v]), res.replay); return None
    if res.hungfeds: chk.violation("departure-hang", "federates %s did not finish; %s\n%s" % (res.hungfeds, tail, fed.tails(res)), res.replay); return False
    for o in res.outs:
        if o.f == v: continue
        if o.rc not in (0, 66, 77, 78) or o.rc == 0 and (not o.complete or o.Z is None): chk.violation("departure-exit", "federate %d exits with %s; %s\n%s" % (o.f, o.rc, tail, fed.tails(res)), res.replay); return False
        if o.rc: continue
        F = fs[o.f]; exp = fed.expected(g, s, F); ex = {}; lim = L if o.f in dep else (g.timeout, 1)
        for f in o.E:
            if f[2] >= fed.PSEUDO: continue
            d = ex.setdefault((f[4], f[5]), {})
            if f[2] in d: chk.violation("departure-twice", "federate %d: reaction %d executed twice at %s; %s" % (o.f, f[2], (f[4], f[5]), tail), res.replay); return False
            d[f[2]] = (f[3], f[8] & prog.M64, f[9] & prog.M64)
        for tg in sorted(set(ex) | {t for t in exp if exp[t]}):
            if tg > lim: break
            if ex.get(tg, {}) != exp.get(tg, {}): chk.violation("departure-trace", "federate %d at %s: executed %s, the semantics prescribes %s; %s" % (o.f, tg, ex.get(tg), exp.get(tg), tail), res.replay); return False
            chk.count("tags_checked_around_departures")
        if (o.Z[1], o.Z[2]) != (g.timeout, 0): chk.violation("departure-end", "federate %d ended at %s, the timeout is %s; %s" % (o.f, (o.Z[1], o.Z[2]), g.timeout, tail), res.replay); return False
        want = {x.id for x in g.rxs if x.special & 2 and x.id in F.xm}; got = [f[2] for f in o.E if f[2] in want and (f[4], f[5]) == (g.timeout, 0)]
        if sorted(got) != sorted(want): chk.violation("departure-shutdown", "federate %d executed shutdown reactions %s of %s; %s" % (o.f, got, sorted(want), tail), res.replay); return False
        chk.count("survivors_ended_normally")
    return ok

def F07(chk):
    cases(chk, tier(chk, 90, 2000), lambda i: seg_case(chk, i, 41, False))
    cases(chk, tier(chk, 50, 1500), lambda i: seg_case(chk, i, 42, True))
    cases(chk, tier(chk, 360, 6000), lambda i: gone_case(chk, i, 43))
    cases(chk, tier(chk, 40, 1000), lambda i: phys_case(chk, i, 75, True, "aato", ("c1", "d1")[i % 2], dies=True))
    chk.rule = RULE % "" + "; (a) every socket read and write is cut into random small pieces, (b) one federate is killed after a random number of messages on the wire and the survivors are compared with the semantics wherever they do not depend on what it had not yet sent, (c) one federate dies after a random number of bytes written to its peers over physical connections"
    return chk.finish()

# ---------------------------------------------------------------- clock synchronisation
def cs_case(chk, i):
    """A real federation whose federates have wrong clocks and synchronise them with the real RTI."""
    rng = random.Random((chk.seed * 1000003 + i) * 53 + 51); mode = rng.choice(["init", "on"]); ms = 10 ** 6
    g, s, fs = fed.gen(rng, zdc=None, nf=rng.choice([2, 2, 3]), tscale=10 * ms, timeout=(240, 480), nreact=(2, 6))
    sh = [rng.choice([0, -rng.randint(200, 400), -rng.randint(200, 400), rng.randint(20, 60)]) * ms for _ in fs]
    for F, d in zip(fs, sh):
        if d: F.lines.append("clock 2 %d" % d)
    a = ["-c", mode] + (["period", str(rng.choice([5, 20]) * ms)] if mode == "on" else [])
    res = fed.launch(fs, g.timeout, variants(rng, "aoot", mode="c3" if mode == "on" else rng.choice(["c2", "c3"]), n=len(fs)), rng, fast=False, rargs=a, kind="asan", wall=30)
    ok = fed.judge(chk, g, s, fs, res)
    chk.saw(1, None, dict(federates=len(fs), mode=mode, clock_errors_ms=[d // ms for d in sh]) if i < 3 else None); chk.count("federations_with_wrong_clocks")
    if not ok: return ok
    for o in res.outs:
        for f in o.E:
            if f[2] < fed.PSEUDO and f[6] < f[4]: chk.violation("early", "federate %d executes reaction %d with tag %d at physical time %d [%s]" % (o.f, f[2], f[4], f[6], o.v), res.replay); return False
        e = o.Z[5] - o.Z[7]; d = sh[o.f]; lo, hi = min(0, d) - 60 * ms, max(0, d) + 60 * ms
        if not lo <= e <= hi: chk.violation("clock-error", "federate %d whose system clock is off by %d ends with physical time off by %d [%s, RTI %s]" % (o.f, d, e, o.v, a), res.replay); return False
        if d < 0 and mode == "init" and not (abs(e) <= 60 * ms or abs(e - d) <= 60 * ms): chk.violation("clock-error", "federate %d whose system clock is off by %d corrects it by %d [%s, RTI %s]" % (o.f, d, e - d, o.v, a), res.replay); return False
        if d < 0: chk.count("clocks_corrected" if abs(e) <= 60 * ms else "clocks_not_corrected_because_of_noise")
    return True

def F08(chk):
    from chk_codec import DEFSF
    from chk_util import harvest
    W = wraps("_lf_clock_gettime", "read", "write", "recvfrom", "__recvfrom_chk", "__read_chk", "_lf_cond_timedwait", "_lf_interruptable_sleep_until_locked"); jobs = []
    n = 400 if chk.quick else 20000
    for nm, flags in (("asan", ASAN), ("tsan", TSAN)):
        for cs, nx, att in ((3, 10, 10), (3, 1, 1), (3, 4, 3), (2, 10, 10), (1, 10, 10)):
            if nm == "tsan" and cs != 3: continue
            exe = build("u_csync_%s_%d_%d" % (nm, cs, nx), runtime_sources(REPO, True, federated=True) + [os.path.join(VERIF, "c", x) for x in ("u_csync.c", "u_fedstub.c")],
                        DEFSF + ["LF_CLOCK_SYNC=%d" % cs, "_LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL=%d" % nx, "_LF_CLOCK_SYNC_ATTENUATION=%d" % att], flags, ld=W)
            for k in range(6 if nm == "asan" else 2): jobs.append([exe, str(chk.seed * 100 + k), str(n), "1" if nm == "tsan" or k % 3 == 2 else "0"])
    def one(cmd): return cmd, common.run(cmd, timeout=600)
    for cmd, r in pmap(one, jobs):
        if harvest(chk, r, dict(cmd=cmd), "csync") == "timeout": chk.violation("csync:hang", "did not finish", dict(cmd=cmd))
    cases(chk, tier(chk, 40, 800), lambda i: cs_case(chk, i))
    chk.rule = "scripted synchronisation exchanges (true offsets up to centuries, jitter around the noise limits, lost and misplaced messages, restarts) with a scripted system clock; the offset seen through the physical clock is compared after each exchange with the one the timestamps prescribe, waits with their translation to the system clock, and concurrent readings with monotonicity; distinct = (phase, outcome, position in the window, sign and noise classes)"
    return chk.finish(ndistinct=chk.extra.pop("distinct", 0))

# ---------------------------------------------------------------- decentralised coordination
def intended(t, d):
    return t if d == rti.NEVER else (t[0], t[1] + 1) if d == 0 else (t[0] + d, 0)

LEAVE = 16 * 10 ** 9
def dec_case(chk, i, base, prompt, zdc=False, kinds="aao", dies=False, leaves=False):
    """A decentralised federation in real time. prompt: safe-to-advance offsets large enough for every message to arrive in time."""
    rng = random.Random((chk.seed * 1000003 + i) * 59 + base); ms = 10 ** 6; ts = rng.choice([8, 20]) * ms
    g, s, fs0 = fed.gen(rng, zdc=zdc, tscale=ts, timeout=(60, 240), nreact=(2, 8), p_minsp=0.0 if prompt else 0.2, p_big=0.2)
    fs = fed.split(g, g.fedof, kind=1); n = len(fs); dep = {F.id: 0 for F in fs}; big = 0
    if prompt:
        for _ in range(n):
            for F in fs: dep[F.id] = max([dep[F.id]] + [dep[u] + 1 for u in F.up if dep[u] < n]) if not any(Q.inz for Q in fs) else bool(F.up)
        big = rng.choice([60, 120]) * ms
    lv = max((F.id for F in fs if F.down), key=lambda u: max(sum(ni[2] == u for ni in Q.netin) for Q in fs if Q.id != u), default=None) if leaves else None
    if leaves and lv is None: return True
    sta = {}; staa = {}; gid = {F.id: {v: k for k, v in F.xm.items()} for F in fs}
    for F in fs:
        sta[F.id] = big * min(dep[F.id], 4) if prompt else rng.choice([0, 0, 1, 2, 5, 20]) * ms
        F.lines += ["sta %d" % sta[F.id]] + ["stp %d" % F.xm[k] for k in F.xm if k < fed.PSEUDO]
        ports = list(range(len(F.netin))); rng.shuffle(ports); off = 0; of = {}
        if lv is not None:      # everything but what comes from the federate that leaves is settled at once
            slow = [p for p in ports if F.netin[p][2] == lv]; ports = [p for p in ports if p not in slow]
            if ports: F.lines.append("staa 0 %d %s" % (len(ports), " ".join(map(str, ports)))); of.update({p: 0 for p in ports})
            if slow: F.lines.append("staa %d %d %s" % (LEAVE, len(slow), " ".join(map(str, slow)))); of.update({p: LEAVE for p in slow})
            ports = []
        while ports:
            k = rng.randint(1, len(ports)); grp, ports = ports[:k], ports[k:]; off += rng.choice([0, 0, 1, 3]) * ms
            F.lines.append("staa %d %d %s" % (off, k, " ".join(map(str, grp)))); of.update({p: off for p in grp})
        staa[F.id] = of
    nd = None if prompt else netdelay(rng); res = None; late = None; dead = None
    if dies:
        cand = [F.id for F in fs if F.down] if lv is None else [lv]
        if not cand: return True
        dead = rng.choice(cand); fs[dead].lines.append("die %d" % rng.choice([0, 1, 3, 9, 20, 21, 22, 25, 29, 30, 45, 60, 100, 200, 300, 500, 900]))
    for attempt in range(3):
        res = fed.launch(fs, g.timeout, variants(rng, kinds, mode="d1", n=n), rng, fast=False, netdelay=nd, kind="opt", wall=30, fargs=("-k", "true")); fed.NDEC = res
        late, ok = judge_dec(chk, g, s, fs, res, sta, staa, gid, prompt, attempt, dead)
        if leaves and ok and not any(o.rc for o in res.outs if o.f != dead) and not res.hungfeds:
            for o in res.outs:
                if o.f == lv or not o.Z: continue
                chk.count("federates_outliving_a_peer"); w = max([f[6] - (o.Z[6] if f[6] > 1 << 59 else 0) - f[4] for f in o.E] or [0])
                if w > LEAVE // 2: late = ("waits-for-departed", "federate %d executed reactions %d ms after their tag: it waited for the inputs from federate %d, which had left before %d ms %s" % (o.f, w // 10 ** 6, lv, g.timeout // 10 ** 6, fed.tails(res)))
        if not ok or not late: break
    chk.saw(1, sig(g, res), dict(federates=n, messages=sum(len(o.N) for o in res.outs), sta=list(sta.values())) if i < 4 else None); chk.count("decentralised_federations")
    if ok and late: chk.violation(late[0], late[1], res.replay); return False
    return ok

def judge_dec(chk, g, s, fs, res, sta, staa, gid, prompt, attempt, dead=None):
    """(suspicion that must repeat before it counts or None, no violation)"""
    everyone = res.outs
    if dead is not None and res.outs[dead].rc == -9 and dead not in res.hungfeds: chk.count("departures_while_sending")
    else: dead = None
    live = [o for o in everyone if o.f != dead]
    vs = ",".join(o.v for o in res.outs); tail = lambda: "[%s, STA %s]\n%s" % (vs, sta, fed.tails(res)); stop = (g.timeout, 0); bad = None
    def V(key, msg): chk.violation(key, msg + " " + tail(), res.replay); return None, False
    ok = True
    for o in live:
        for m in re.finditer(r"^MONITOR (\S+) (.*)$", o.err, re.M): return V("monitor:" + m.group(1), m.group(2))
        if chk.sanitizer(o.err, res.replay): ok = False
    if not ok or chk.sanitizer(res.err, res.replay): return None, False
    if res.hungfeds: return V("hang", "federates %s did not finish" % res.hungfeds)
    for o in live:
        if o.rc not in (0, 66, 77, 78) or o.rc == 0 and (not o.complete or o.Z is None): return V("abnormal-exit:%s" % o.rc, "federate %d exits with %s" % (o.f, o.rc))
    if any(o.rc for o in live): return None, False
    if res.rc: return V("rti-exit", "the RTI exits with %s" % res.rc)
    for o in live:
        if (o.Z[1], o.Z[2]) != stop: return V("final-tag", "federate %d ended at %s, expected %s" % (o.f, (o.Z[1], o.Z[2]), stop))
    # what was sent on each connection, in order, and what arrived
    sent = {}; nabs = {}; sock = {}; start = live[0].Z[6]
    for o in live:
        for r in sorted(o.N, key=lambda r: r[0]):
            kind, tf, port, d, k = fs[o.f].snd[r[2]]; t = intended((r[3], r[4]), d); c = (tf, port)
            if r[1] == prog.SENDFED:
                if t <= stop and r[5] != 0 and tf != dead: return V("send-failed", "federate %d: sending a message for %s to federate %d returned %d" % (o.f, t, tf, r[5])) if r[8] < g.timeout - 10 ** 7 else (None, True)
                if t <= stop: sent.setdefault(c, []).append((t, r[7], r[9], r[8], r[0])); sock.setdefault((o.f, tf), []).append((r[0], c, t, r[7], r[8], r[6]))
            elif r[5] != -99: nabs.setdefault(c, []).append((t, r[8]))
    alldel = True; lates = {}; got = {}; allg = {}; amb = set()
    for o in live:
        F = fs[o.f]; E = {}
        for f in o.E: E.setdefault(f[2], []).append(f)
        for port, ni in enumerate(F.netin):
            c = (o.f, port); x = gid[o.f][ni[5]]; ev = [f for f in E.get(x, []) if f[10] == 1]; ev.sort(key=lambda f: (f[4], f[5]))
            if ni[2] == dead: amb.add((o.f, port)); alldel = False; chk.count("messages_of_the_departed", len(ev)); continue
            S = sent.get(c, [])
            vals = [f[12] for f in ev]; idx = {v[1]: j for j, v in enumerate(S)}
            if len(idx) != len(S): amb.add((o.f, port)); chk.count("ambiguous_connections"); alldel = False; continue
            if len(set(vals)) != len(vals): return V("delivered-twice", "federate %d port %d: a message is delivered twice: %s" % (o.f, port, [(f[4], f[5]) for f in ev]))
            if any(v not in idx for v in vals): return V("invented", "federate %d port %d: received a value that was not sent" % (o.f, port))
            js = [idx[v] for v in vals]
            if js != sorted(js): return V("order", "federate %d port %d: messages are delivered in the order %s" % (o.f, port, js))
            got[c] = {f[12] for f in ev if (f[4], f[5]) < stop}; allg[c] = set(vals)
            for f, j in zip(ev, js):
                t = S[j][0]; u = (f[4], f[5])
                if u < t: return V("early", "federate %d port %d: a message for %s is delivered at %s" % (o.f, port, t, u))
                chk.count("messages_on_time" if u == t else "messages_late")
                lates[(o.f, port, u)] = t
                if u != t: alldel = False
                if prompt and u > t and S[j][3] < t[0] + sta[o.f] - 40 * 10 ** 6: bad = ("late-without-cause", "federate %d port %d: a message for %s sent at %d is delivered at %s %s" % (o.f, port, t, S[j][3], u, tail()))
            if len(js) != len(S): alldel = False
    # a socket delivers in order: whatever precedes a message on it that was delivered before the last tag was delivered too
    for (a, b), L in sock.items():
        if b == dead: continue
        last = max([e[0] for e in L if e[3] in got.get(e[1], ())] or [-1])     # when the last one was begun; others may have been sent concurrently
        for e in L:
            if e[1] not in got or e[3] in allg[e[1]]: continue
            if e[5] < last: return V("lost", "federate %d port %d: a message for %s from federate %d was never delivered although a later one on the same connection was" % (b, e[1][1], e[2], a))
            if e[4] < g.timeout - 100 * 10 ** 6 or prompt and sta[b] > 0 and e[4] < g.timeout + sta[b] - 60 * 10 ** 6: bad = ("lost-at-the-end", "federate %d port %d: a message for %s sent at %d by federate %d was never delivered %s" % (b, e[1][1], e[2], e[4], a, tail()))
    # late messages are flagged, those on time are not; the intended tag and the payload are intact
    for o in live:
        F = fs[o.f]; pin = {}
        for port, ni in enumerate(F.netin): pin[next((i, ic) for (i, ic, oo, oc) in F.lp.conns if F.lp.outs[oo].reactor == F.lp.rxs[ni[5]].reactor)] = port
        by = {}
        for r in (f for k, t, f in o.recs if k == "V"): by.setdefault((r[1], r[3], r[4]), []).append(r)
        ex = set()
        for f in o.E:
            if f[2] >= fed.PSEUDO: continue
            u = (f[4], f[5]); flag = False; why = []
            if (f[2], u) in ex: return V("executed-twice", "federate %d: reaction %d executed twice at %s" % (o.f, f[2], u))
            ex.add((f[2], u))
            trg = set()
            for r in by.get((f[2],) + u, []):
                p = pin.get((r[5], r[6])); it = (r[9], r[10])
                if p is None: continue
                if (o.f, p) in amb: ex.add(None); continue
                t = lates.get((o.f, p, u))
                if t is None: return V("phantom", "federate %d reaction %d at %s: network input %d is present although no message was delivered at this tag" % (o.f, f[2], u, p))
                if it != t: return V("intended-tag", "federate %d reaction %d at %s: a message for %s has the intended tag %s" % (o.f, f[2], u, t, it))
                m = next((m for m in sent[(o.f, p)] if m[1] == r[7]), None)
                if m is None or m[2] != r[8]: return V("payload", "federate %d reaction %d at %s: the payload of a message differs from what was sent" % (o.f, f[2], u))
                chk.count("inputs_checked")
                if r[11] & 1: trg.add(t == u); flag = flag or t != u
            if None in ex: ex.discard(None); continue
            if flag != (f[3] == 2): return V("not-flagged" if flag else "flagged", "federate %d: reaction %d at %s executed its %s although %s of its triggers is late" % (o.f, f[2], u, ("body", "", "STP handler")[f[3]], "one" if flag else "none"))
            chk.count("handled_as_late", int(flag)); chk.count("late_and_on_time_triggers", int(len(trg) == 2))
        # waiting: no tag is begun before the safe-to-advance offset has passed unless the inputs are known
        if sta[o.f] and F.netin and not any(o2.Z[5] < 0 for o2 in live):
            first = {}
            for f in o.E: first[(f[4], f[5])] = min(first.get((f[4], f[5]), 1 << 62), f[6] - start if f[6] > 1 << 59 else f[6])
            for u, p0 in first.items():
                if u <= (0, 0) or p0 >= u[0] + sta[o.f] - 20000: continue   # the runtime does not sleep for less than MIN_SLEEP_DURATION (10 us)
                pred = (u[0], u[1] - 1) if u[1] else (u[0] - 1, 1 << 40)
                for port, ni in enumerate(F.netin):
                    if ni[2] == dead: continue
                    k = [m[3] for m in sent.get((o.f, port), []) if m[0] >= pred] + [a[1] for a in nabs.get((o.f, port), []) if a[0] >= pred] + [res.outs[ni[2]].Z[5]]
                    if min(k) > p0: return V("early-commit", "federate %d begins tag %s at physical time %d although the status of port %d is unknown" % (o.f, u, p0, port))
                chk.count("early_advances_checked")
    if dead is not None:
        for o in live:
            F = fs[o.f]; want = sorted(x.id for x in g.rxs if x.special & 2 and x.id in F.xm); got = sorted(f[2] for f in o.E if f[2] in want and (f[4], f[5]) == stop)
            if got != want: return V("departure-shutdown", "federate %d executed the shutdown reactions %s of %s after federate %d had died" % (o.f, got, want, dead))
            chk.count("survivors_ended_normally")
    if alldel and prompt and bad is None:
        chk.count("federations_equal_to_the_semantics"); return None, fed.judge(chk, g, s, fs, res)
    return bad, True

def F05(chk):
    cases(chk, tier(chk, 60, 1500), lambda i: dec_case(chk, i, 61, True))
    cases(chk, tier(chk, 140, 3000), lambda i: dec_case(chk, i, 62, False))
    cases(chk, tier(chk, 40, 1000), lambda i: dec_case(chk, i, 63, False, zdc=True))
    cases(chk, tier(chk, 40, 1000), lambda i: dec_case(chk, i, 64, False, zdc=None, kinds="t"))
    cases(chk, tier(chk, 60, 1500), lambda i: dec_case(chk, i, 65, i % 3 == 0, zdc=False if i % 3 == 0 else None, kinds="aato", dies=True))
    cases(chk, tier(chk, 40, 800), lambda i: dec_case(chk, i, 66, False, zdc=None, kinds="aato", dies=i % 2 == 0, leaves=True))
    chk.rule = RULE % "" + "; decentralised coordination in real time with offsets from 0 to longer than every delay; every message sent is matched with its delivery, flagging and payload"
    return chk.finish()

# ---------------------------------------------------------------- physical connections
def phys_case(chk, i, base, only, kinds="aao", mode="c1", dies=False):
    """A federation in real time with physical connections (only: no others)."""
    rng = random.Random((chk.seed * 1000003 + i) * 61 + base); ms = 10 ** 6; ts = rng.choice([8, 20]) * ms; dec = mode[0] == "d"
    while True:
        g, s, fs0 = fed.gen(rng, zdc=None, tscale=ts, timeout=(60, 240), nreact=(2, 8), p_minsp=0.0, p_big=0.3)
        cross = fed.crossing(g, g.fedof); ph = set(cross) if only else {k for k in cross if rng.random() < 0.5}
        if ph: break
    fs = fed.split(g, g.fedof, kind=int(dec), physical=ph); n = len(fs)
    for F in fs:
        if dec: F.lines += ["sta 0"] + ["stp %d" % F.xm[k] for k in F.xm if k < fed.PSEUDO]
    bad = None; dead = None
    if dies: dead = rng.choice([F.id for F in fs if F.down] or [0]); fs[dead].lines.append("die %d" % rng.choice([0, 1, 3, 8, 9, 10, 13, 17, 18, 26, 40, 60, 100, 200, 300]))
    for attempt in range(3):
        res = fed.launch(fs, g.timeout, variants(rng, kinds, mode=mode, n=n), rng, fast=False, netdelay=netdelay(rng), kind="opt", wall=30, fargs=("-k", "true") if dec else ()); fed.NDEC = res
        if dies and res.outs[dead].rc == -9 and dead not in res.hungfeds: bad, ok = None, judge_survivors(chk, g, fs, res, dead); break
        bad, ok = judge_phys(chk, g, fs, res, ph)
        if not ok or not bad: break
    chk.saw(1, sig(g, res), dict(federates=n, physical=len(ph), connections=len(cross)) if i < 4 else None)
    if ok and bad: chk.violation(bad[0], bad[1], res.replay); return False
    return ok

def judge_survivors(chk, g, fs, res, dead):
    """The weaker expectations when a federate has died in the middle of sending: the others end normally at the timeout and receive nothing twice."""
    chk.count("departures_while_sending"); stop = (g.timeout, 0); ok = True
    def V(key, msg): chk.violation(key, msg + " after federate %d had died while sending [%s]\n%s" % (dead, ",".join(o.v for o in res.outs), fed.tails(res)), res.replay); return False
    live = [o for o in res.outs if o.f != dead]
    for o in live:
        if chk.sanitizer(o.err, res.replay): ok = False
        for m in re.finditer(r"^MONITOR (\S+) (.*)$", o.err, re.M): return V("monitor:" + m.group(1), m.group(2))
    if not ok or chk.sanitizer(res.err, res.replay): return False
    if res.hungfeds: return V("departure-hang", "federates %s did not finish" % res.hungfeds)
    for o in live:
        if o.rc not in (0, 66, 77, 78) or o.rc == 0 and (not o.complete or o.Z is None): return V("departure-exit", "federate %d exits with %s" % (o.f, o.rc))
        if o.rc: continue
        if (o.Z[1], o.Z[2]) != stop: return V("departure-end", "federate %d ended at %s, the timeout is %s" % (o.f, (o.Z[1], o.Z[2]), stop))
        F = fs[o.f]; want = sorted(x.id for x in g.rxs if x.special & 2 and x.id in F.xm); got = sorted(f[2] for f in o.E if f[2] in want and (f[4], f[5]) == stop)
        if got != want: return V("departure-shutdown", "federate %d executed the shutdown reactions %s of %s" % (o.f, got, want))
        ex = [(f[2], f[4], f[5]) for f in o.E]
        if len(ex) != len(set(ex)): return V("departure-twice", "federate %d executed a reaction twice at one tag" % o.f)
        chk.count("survivors_ended_normally")
    return True

def judge_phys(chk, g, fs, res, ph):
    vs = ",".join(o.v for o in res.outs); tail = lambda: "[%s]\n%s" % (vs, fed.tails(res)); stop = (g.timeout, 0); bad = None
    def V(key, msg): chk.violation(key, msg + " " + tail(), res.replay); return None, False
    if res.hungfeds or any(o.rc or not o.complete or o.Z is None for o in res.outs) or any("Sanitizer" in o.err for o in res.outs): return None, fed.judge(chk, g, g.sim, fs, res)
    g2, src = fed.without(g, ph); ext = {}; s2 = Sim(g2, g.timeout, True, limit=6000); inv = [{v: k for k, v in F.xm.items()} for F in fs]; start = res.outs[0].Z[6]; used = []
    sent = {}
    for o in res.outs:
        for r in sorted(o.N, key=lambda r: r[0]):
            if r[1] != prog.SENDFED: continue
            kind, tf, port, d, k = fs[o.f].snd[r[2]]
            if kind == 2: sent.setdefault((tf, port), []).append(r)
    for o in res.outs:
        F = fs[o.f]; E = {}
        for f in o.E: E.setdefault(f[2], []).append(f)
        for port, ni in enumerate(F.netin):
            if not ni[6]: continue
            L = sent.get((o.f, port), []); ev = sorted((f for f in E.get(inv[o.f][ni[5]], []) if f[10] == 1), key=lambda f: (f[4], f[5])); d = max(ni[1], 0); a, oo, oc = src[ni[4]]
            if len(ev) > len(L): return V("invented", "federate %d port %d: %d messages are delivered, %d were sent" % (o.f, port, len(ev), len(L)))
            for j, f in enumerate(ev):
                r = L[j]; u = (f[4], f[5])
                if f[12] != r[7]: return V("order", "federate %d port %d: message %d delivered at %s has another value than the one that was sent" % (o.f, port, j, u))
                if u[0] < r[8] + d: return V("early", "federate %d port %d: a message sent at physical time %d over a physical connection (delay %d) is delivered at %s" % (o.f, port, r[8], d, u))
                ext.setdefault(u, []).append((a, lambda c=(oo, oc), t=(r[3], r[4]): s2.wlog[c, t])); used.append(((oo, oc), (r[3], r[4])))
            for r in L[len(ev):]:
                if r[8] + d < g.timeout - 80 * 10 ** 6: bad = ("lost", "federate %d port %d: a message sent at physical time %d was never delivered, the timeout is %d %s" % (o.f, port, r[8], g.timeout, tail()))
            chk.count("physical_messages", len(ev)); chk.count("sent_too_late_to_arrive", len(L) - len(ev))
    s2.ext = ext; s2.watch = {c for a, *c in src.values() for c in [tuple(c)]}
    try: s2.run()
    except KeyError: return ("unexplained", "a message on a physical connection was sent at a tag at which nothing was to be sent, or delivered before " + tail()), True
    except prog.Limit: return bad, True
    if fed.collides(g2, s2): chk.count("unspecified_collisions"); return bad, True
    if any(e[0] == "d" for o in res.outs for e in [o.v[3:]]) and any(not n[6] for F in fs for n in F.netin): return bad, True
    return bad, fed.judge(chk, g2, s2, fs, res)

def F06(chk):
    cases(chk, tier(chk, 110, 2500), lambda i: phys_case(chk, i, 71, False))
    cases(chk, tier(chk, 60, 1500), lambda i: phys_case(chk, i, 72, True))
    cases(chk, tier(chk, 60, 1500), lambda i: phys_case(chk, i, 73, True, mode="d1"))
    cases(chk, tier(chk, 30, 800), lambda i: phys_case(chk, i, 74, False, "t"))
    chk.rule = RULE % "" + "; connections between federates are physical at random; deliveries on them are matched with what was sent and become inputs of the reference semantics"
    return chk.finish()

CHECKS = {k: v for k, v in globals().items() if re.fullmatch(r"F\d\d", k)}
