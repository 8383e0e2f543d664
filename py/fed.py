"""Splits a program into federates (the part the compiler plays), runs the federation with the real RTI and collects the logs."""
import copy, random, itertools
from common import *
import prog, rti
from prog import Op, Prog, Sim, FOREVER, M64
import chk_rt
from rti import NEVER

W_FED = chk_rt.W_THR + ["read", "write", "lf_terminate_execution"]
NFED = 6
_lk = threading.Lock(); _exes = {}
def fexe(v):
    """[a|t|o][np|ge|ad] + c(entralised)|d(ecentralised) + optional clock-sync digit, _h (authenticated)"""
    with _lk:
        if v in _exes: return _exes[v]
        flags, cc = chk_rt.SAN[v[0]]; sch = v[1:3]; dec = v[3] == "d"; cs = v[4:5] if v[4:5].isdigit() else "1"; auth = v.endswith("_h")
        d = ["PLATFORM_Linux", "LOG_LEVEL=0", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "WRAPPED", "NUMBER_OF_WORKERS=2", "SCHEDULER=" + chk_rt.SCHED[sch],
             "FEDERATED=1", "FEDERATED_%s=1" % ("DECENTRALIZED" if dec else "CENTRALIZED"), "NUMBER_OF_FEDERATES=%d" % NFED, "FEDERATE_ID=0", "_LF_FEDERATE_NAMES_COMMA_SEPARATED=\"a\"", "LF_CLOCK_SYNC=" + cs, "ADVANCE_MESSAGE_INTERVAL=MSEC(2)"]
        if v[0] == "t": d.append("NOTRACK")
        ld = wraps(*W_FED)
        if auth: d.append("FEDERATED_AUTHENTICATED"); ld += ["-lssl", "-lcrypto"]
        _exes[v] = build("fed_" + v, runtime_sources(REPO, True, federated=True) + [os.path.join(VERIF, "c", "prog.c")], d, flags=flags, cc=cc, ld=ld)
        return _exes[v]

PSEUDO = 50000
class FP: pass

def remap(o, om, im, am):
    c = o.code; n = Op(c, o.a, o.b, o.c, o.d, o.mask, o.match)
    if c in (prog.SETI, prog.SETA, prog.SETT): n.a = om[o.a]
    elif c in (prog.FWD, prog.WCOPY): n.a = om[o.a]; n.c = im[o.c]
    elif c == prog.FWDACT: n.a = om[o.a]; n.c = am[o.c]
    elif c == prog.SETIV:
        n.a = om[o.a]; n.c = im[o.c] if o.d >= 0 else am[o.c]
    elif prog.SCH <= c < prog.STOP:
        n.a = am[o.a]
        if c in (prog.SCHF, prog.SCHIV): n.c = im[o.c]
    return n

def delayers(g):
    """reactor -> (source output, channel, delay, consumers) for the delay reactors of a program"""
    d = {}
    for (i, ic, o, oc) in g.conns:
        r = g.ins[i].reactor
        if r in g.delayr: d[r] = (o, oc, g.delayr[r])
    return d

def split(g, fedof, kind=0, physical=(), alldelay=False):
    """fedof: reactor -> federate. kind: 0 centralised, 1 decentralised. physical: cross connections (indices into g.conns) that are physical.
    Returns the list of federate programs; .lp has the program, .net the network inputs, .xs the global ids of its reactions."""
    nf = max(fedof.values()) + 1
    dl = delayers(g)
    def real(o, oc):
        """follow delay reactors: (output, channel, delay or NEVER, delay reactor or None)"""
        r = g.outs[o].reactor
        if r in dl: return dl[r][0], dl[r][1], dl[r][2], r
        return o, oc, NEVER, None
    cross, gone, keep = [], set(), {}
    for k, (i, ic, o, oc) in enumerate(g.conns):
        r = g.ins[i].reactor
        if r in dl: continue
        so, soc, d, dr = real(o, oc); sf = fedof[g.outs[so].reactor]; tf = fedof[r]
        if sf == tf:
            if dr is not None: keep[dr] = tf
        else:
            cross.append((k, i, ic, so, soc, d, sf, tf))
            if dr is not None: gone.add(dr)
    assert not (gone & set(keep))
    fr = dict(fedof); fr.update(keep)
    fs = []
    for f in range(nf):
        F = FP(); p = Prog(); F.lp = p; p.big = g.big; F.id = f; fs.append(F)
        F.rm, F.om, F.im, F.am, F.tm, F.xm = {}, {}, {}, {}, {}, {}
        for r in range(g.nR):
            if fr.get(r) == f: F.rm[r] = p.reactor()
        for k, o in enumerate(g.outs):
            if o.reactor in F.rm: F.om[k] = p.out(F.rm[o.reactor], o.width, o.type, o.custom)
        for k, o in enumerate(g.ins):
            if o.reactor in F.rm: F.im[k] = p.inp(F.rm[o.reactor], o.width, o.type, o.sparse)
        for k, a in enumerate(g.acts):
            if a.reactor in F.rm: F.am[k] = p.act(F.rm[a.reactor], a.physical, a.mind, a.minsp, a.policy, a.type)
        for k, t in enumerate(g.timers):
            if t.reactor in F.rm: F.tm[k] = p.timer(F.rm[t.reactor], t.off, t.per)
        for x in g.rxs:
            if x.reactor in F.rm:
                y = p.rx(F.rm[x.reactor], deadline=x.deadline); F.xm[x.id] = y.id
                y.special = x.special; y.eff = [F.om[o] for o in x.eff]
                y.src = [(kk, (F.im, F.am, F.tm)[kk][i], fl) for (kk, i, fl) in x.src]
                y.ops = [remap(o, F.om, F.im, F.am) for o in x.ops]; y.hops = [remap(o, F.om, F.im, F.am) for o in x.hops]
        for (i, ic, o, oc) in g.conns:
            if i in F.im and o in F.om: p.conn(F.im[i], ic, F.om[o], oc)
        F.netin, F.snd, F.absent, F.up, F.down, F.inp2p, F.outp2p = [], [], [], {}, set(), set(), set()
        F.text = []; F.send_rx, F.recv_rx = [], []
    # zero-delay cycles between federates
    z = [[sf == tf for tf in range(nf)] for sf in range(nf)]
    for (k, i, ic, so, soc, d, sf, tf) in cross:
        if d == NEVER and k not in physical: z[sf][tf] = True
    for m in range(nf):
        for a in range(nf):
            for b in range(nf): z[a][b] = z[a][b] or (z[a][m] and z[m][b])
    inz = [any(a != b and z[a][b] and z[b][a] for b in range(nf)) for a in range(nf)]
    pseudo = itertools.count(PSEUDO)
    netedges = []
    for (k, i, ic, so, soc, d, sf, tf) in cross:
        S, T = fs[sf], fs[tf]; typ = g.outs[so].type; phys = k in physical
        port = len(T.netin)
        # receiver
        p = T.lp; r = p.reactor(); o = p.out(r, 1, typ, 0); a = p.act(r, 1 if phys else 0, d if phys and d > 0 else 0, 0, 0, 1 if typ == 0 else 2)
        x = p.rx(r); x.src = [(1, a, 3)]; x.eff = [o]; x.ops = [Op(prog.SETIV, o, 0, a, -1)] if typ == 0 else [Op(prog.FWDACT, o, 0, a)]
        p.conn(T.im[i], ic, o, 0); T.xm[next(pseudo)] = x.id
        zdc = d == NEVER and not phys and inz[sf]
        T.netin.append((a, d, sf, int(zdc), k, x.id, phys)); T.recv_rx.append(x.id)
        # sender
        p = S.lp; r = p.reactor(); i2 = p.inp(r, 1, typ, 0); p.conn(i2, 0, S.om[so], soc)
        s = len(S.snd); S.snd.append((2 if phys else kind, tf, port, d, k))
        y = p.rx(r); y.src = [(0, i2, 3)]; y.ops = [Op(prog.SENDFED, i2, 0, s)]; S.xm[next(pseudo)] = y.id
        ab = None
        if not phys and (zdc or kind == 1 or alldelay):
            ab = p.rx(r); ab.src = [(0, i2, 2)]; ab.ops = [Op(prog.SENDABS, i2, 0, s)]; S.xm[next(pseudo)] = ab.id; S.absent.append(ab.id)
        if d == NEVER and not phys: netedges += [((sf, q.id), (tf, x.id)) for q in (y, ab) if q is not None]
        if phys or kind == 1: S.outp2p.add(tf); T.inp2p.add(sf)
        if not phys:
            T.up[sf] = min(T.up.get(sf, FOREVER), d); S.down.add(tf)
    # as in generated code, absent reactions are enqueued by a startup reaction at the first tag
    for F in fs:
        F.init = None
        if F.absent:
            x = F.lp.rx(F.lp.reactor()); x.special = 1; x.ops = [Op(prog.ENQABS)]; F.xm[next(pseudo)] = x.id; F.init = x.id
            netedges += [((F.id, x.id), (F.id, a)) for a in F.absent]
    # levels over the whole federation
    for F in fs: F.lp.finish()
    succ = {}; indeg = {}
    nodes = [(F.id, x.id) for F in fs for x in F.lp.rxs]
    for n in nodes: indeg[n] = 0
    def edge(a, b): succ.setdefault(a, []).append(b); indeg[b] += 1
    for F in fs:
        for x in F.lp.rxs:
            for w in F.lp.preds[x.id]: edge((F.id, w), (F.id, x.id))
    for a, b in netedges: edge(a, b)
    lev = {n: 0 for n in nodes}; todo = [n for n in nodes if not indeg[n]]; cnt = 0
    while todo:
        n = todo.pop(); cnt += 1
        for m in succ.get(n, ()):
            lev[m] = max(lev[m], lev[n] + 1); indeg[m] -= 1
            if not indeg[m]: todo.append(m)
    if cnt != len(nodes): raise ValueError("cycle")
    for F in fs:
        for x in F.lp.rxs: x.level = lev[(F.id, x.id)]
        L = ["fed %d %d %d %d" % (F.id, bool(F.up), bool(F.down), 0 if any(n[6] for n in F.netin) else NEVER)]
        if kind == 0 or F.up or F.down:
            L += ["up %d %d" % (u, d) for u, d in sorted(F.up.items())] + ["down %d" % d for d in sorted(F.down)]
        L += ["netin %d %d %d %d" % n[:4] for n in F.netin] + ["snd %d %d %d %d" % s[:4] for s in F.snd] + ["absent %d" % x for x in F.absent]
        L += ["inp2p %d" % len(F.inp2p)] + ["outp2p %d" % t for t in sorted(F.outp2p)]
        inv = {v: k for k, v in F.xm.items()}
        L += ["gid %d %d" % (x.id, inv[x.id]) for x in F.lp.rxs]
        rinv = {v: k for k, v in F.rm.items()}
        L += ["rgid %d %d" % (r, rinv.get(r, PSEUDO + r)) for r in range(F.lp.nR)]
        F.lines = L; F.inz = inz[F.id]
    return fs

def launch(fs, timeout_tag, variants, rng, workers=None, fast=True, kind="opt", rtikind=None, wall=25, rargs=("-c", "off"), fargs=(), netdelay=None, start_order=None, rdelay=0, env=None, fedid=None, proxy=False, hold=None, during=None):
    """Run one federation. Returns the outputs of the federates (as chk_rt.launch) and the RTI's result."""
    n = len(fs); fedid = fedid or "f%d" % rng.randrange(10 ** 6)
    R = rti.Rti(n, fedid=fedid, kind=kind, args=rargs, delay=rdelay)
    outs = []; px = rti.Proxy(R, hold, random.Random(rng.random())) if proxy or hold else None; port = px.port if px else R.port
    try:
        order = list(range(n)); rng.shuffle(order)
        for f in order:
            F = fs[f]; v = variants[f % len(variants)]; c = next(chk_rt._ctr); pf = "%s/%d.p" % (chk_rt.tmpdir(), c); lf = "%s/%d.log" % (chk_rt.tmpdir(), c)
            text = F.lp.text() + "\n".join(F.lines) + "\n"
            if netdelay: text += "netdelay %d %d %d\n" % tuple(netdelay[f] if isinstance(netdelay, list) else netdelay)
            open(pf, "w").write(text)
            args = ["-f", "true" if fast else "false", "-r", "localhost:%d" % port, "-i", fedid] + (["-o", str(timeout_tag), "nsec"] if timeout_tag is not None else [])
            args += ["-w", str(workers[f] if workers else rng.choice([1, 2, 3]))] + list(fargs)
            e = dict(os.environ); e.update(SAN_ENV); e["PROG_LOG"] = lf; e.update(env or {})
            o = chk_rt.Out(); o.f = f; o.v = v; o.pf, o.lf = pf, lf; o.outf, o.errf = rti.tempfile_(), rti.tempfile_(); o.args = args; o.text = text
            o.p = subprocess.Popen([fexe(v), pf] + args, stdout=o.outf, stderr=o.errf, stdin=subprocess.DEVNULL, env=e, start_new_session=True)
            outs.append(o)
        outs.sort(key=lambda o: o.f)
        hung = False; end = time.time() + wall; last = None; mark = 0
        while any(o.p.poll() is None for o in outs):
            if during: during(outs, R, px)
            time.sleep(0.005 if during else 0.01)
            if time.time() < end: continue
            # out of time: is anything still making progress?
            now = (sum(cpu_of(o.p.pid) for o in outs), tuple(o.p.poll() for o in outs))
            if time.time() > end + 4 * wall: hung = True; break
            if last is None or now[1] != last[1] or now[0] > last[0] + 2: last = now; mark = time.time()
            elif time.time() - mark > 3: hung = True; break
        o0 = FP(); o0.stacks = []
        for o in outs:
            o.hung = o.p.poll() is None
            if o.hung:
                hung = True
        o0.hungfeds = [o.f for o in outs if o.hung]
        o0.rc = R.wait(10 if not hung else 0.2); o0.err = None
        if hung:
            o0.cpu = sum(cpu_of(o.p.pid) for o in outs if o.hung)
        for o in outs:
            if o.hung:
                try: os.killpg(o.p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
            o.p.wait()
    finally:
        for o in outs:
            if o.p.poll() is None:
                try: os.killpg(o.p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                o.p.wait()
        R.kill()
        if px: px.close()
    o0.err = R.err(); o0.out = R.out()
    for o in outs:
        o.errf.seek(0); o.outf.seek(0); o.err = o.errf.read().decode("utf-8", "replace"); o.out = o.outf.read().decode("utf-8", "replace"); o.errf.close(); o.outf.close()
        o.rc = o.p.returncode; o.recs = []; o.complete = False
        if os.path.exists(o.lf):
            for l in open(o.lf):
                if l.startswith("END"): o.complete = True; break
                a = l.split()
                try: f = [int(x) for x in a[2:]]
                except ValueError: break
                o.recs.append((a[0], int(a[1]), f + [0] * (24 - len(f))))
            os.unlink(o.lf)
        os.unlink(o.pf)
        o.E = [f for k, t, f in o.recs if k == "E"]; o.S = [(t, f) for k, t, f in o.recs if k == "S"]; o.N = [f for k, t, f in o.recs if k == "N"]
        z = [f for k, t, f in o.recs if k == "Z"]; o.Z = z[0] if z else None
    o0.outs = outs; o0.px = px
    o0.replay = dict(federates=[dict(variant=o.v, args=o.args, program=o.text) for o in outs], rti=R.cmd)
    return o0

def cpu_of(pid):
    try:
        a = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split(); return int(a[11]) + int(a[12])
    except (OSError, IndexError): return 0

def gen(rng, nf=None, zdc=None, tweak=None, p_big=0.0, **kn):
    """A program, and an assignment of its reactors to federates. zdc: whether federates form a cycle without delay (None: either)."""
    K = dict(nreact=(3, 8), p_stop=0.0, p_notimeout=0.0, p_after=0.35, p_conn=0.9)
    K.update(kn); big = rng.choice([60, 300, 3000, 20000]) if p_big and rng.random() < p_big else 0
    if big: K["p_arr"] = 0.8
    for attempt in range(3000):
        g, s = prog.generate(rng, **K)
        if tweak: tweak(g)
        g.big = big
        g.delayr = {}; find_delayers(g)
        real = [r for r in range(g.nR) if r not in g.delayr]
        n = nf or rng.randint(2, min(4, len(real)))
        if n > len(real): continue
        fedof = {}
        for k, r in enumerate(rng.sample(real, len(real))): fedof[r] = k if k < n else rng.randrange(n)
        try: fs = split(g, fedof)
        except ValueError: continue
        if not any(F.netin for F in fs): continue
        if zdc is not None and zdc != any(F.inz for F in fs): continue
        g.keepalive = True
        try: s = Sim(g, g.timeout, True, limit=4000).run()
        except prog.Limit: continue
        if collides(g, s): continue
        g.fedof = fedof; g.sim = s
        return g, s, fs
    raise RuntimeError("no federated program")

def collides(g, s):
    """Whether two messages over a delayed connection arrive at the same tag (what happens then is not specified)."""
    for r, d in g.delayr.items():
        if d == 0: continue
        y = max(x.id for x in g.rxs if x.reactor == r); seen = set()
        for t, ex in s.execs.items():
            if y in ex:
                if t[0] in seen: return True
                seen.add(t[0])
    return False

def find_delayers(g):
    """A delay reactor has one input, one output, one action, and exactly the two reactions add_after makes."""
    for r in range(g.nR):
        xs = [x for x in g.rxs if x.reactor == r]
        if len(xs) != 2 or any(x.special for x in xs): continue
        a, b = xs
        if len(a.src) == 1 and a.src[0][0] == 1 and len(a.ops) == 1 and a.ops[0].mask == 0 and (a.ops[0].code, a.ops[0].d) in ((prog.SETIV, -1), (prog.FWDACT, 0)) and \
           len(b.src) == 1 and b.src[0][0] == 0 and len(b.ops) == 1 and b.ops[0].code in (prog.SCHIV, prog.SCHF) and b.ops[0].a == a.src[0][1] and b.ops[0].mask == 0 and b.ops[0].b == 0:
            g.delayr[r] = g.acts[a.src[0][1]].mind

def crossing(g, fedof):
    """Indices of the connections between federates."""
    dl = delayers(g); c = []
    for k, (i, ic, o, oc) in enumerate(g.conns):
        r = g.ins[i].reactor; q = g.outs[o].reactor
        if r in dl: continue
        if q in dl: q = g.outs[dl[q][0]].reactor
        if fedof[q] != fedof[r]: c.append(k)
    return c

def without(g, physical):
    """The program with each of the given connections replaced by an event source: (program, {connection: (action, source output, channel)})"""
    h = copy.copy(g); dl = delayers(g); src = {}; h.sim = None; h.rxs = copy.deepcopy(g.rxs)
    for k in ("parent", "wdm", "outs", "ins", "conns", "acts"): setattr(h, k, list(getattr(g, k)))
    for k in sorted(physical):
        i, ic, o, oc = g.conns[k]; typ = g.outs[o].type
        r = h.reactor(); o2 = h.out(r, 1, typ, 0); a = h.act(r, 1, 0, 0, 0, 1 if typ == 0 else 2)
        x = h.rx(r); x.src = [(1, a, 3)]; x.eff = [o2]; x.ops = [Op(prog.SETIV, o2, 0, a, -1)] if typ == 0 else [Op(prog.FWDACT, o2, 0, a)]
        h.conns.append((i, ic, o2, 0)); q = g.outs[o].reactor
        src[k] = (a,) + ((dl[q][0], dl[q][1]) if q in dl else (o, oc))
    h.conns = [c for j, c in enumerate(h.conns) if j not in physical]
    h.finish(); h.keepalive = True
    return h, src

def expected(g, s, F):
    """Executions of federate F's own reactions that the semantics of the whole program prescribes."""
    own = {k for k in F.xm if k < PSEUDO}
    return {t: {x: e for x, e in d.items() if x in own} for t, d in s.execs.items()}

def judge(chk, g, s, fs, res, pre="", sims=None):
    """Compare every federate with the semantics of the whole program."""
    ok = True; vs = ",".join(o.v for o in res.outs)
    for o in res.outs:
        for m in re.finditer(r"^MONITOR (\S+) (.*)$", o.err, re.M): chk.violation("monitor:" + m.group(1), m.group(2) + " [federate %d, %s]" % (o.f, vs), res.replay)
        n = chk.sanitizer(o.err, res.replay)
        if n: ok = False
    if chk.sanitizer(res.err, res.replay): ok = False
    if res.hungfeds:
        chk.violation(pre + "hang", "federates %s did not finish [%s]\n%s" % (res.hungfeds, vs, tails(res)), res.replay); return False
    for o in res.outs:
        if o.rc not in (0, 66, 77, 78) or (o.rc == 0 and (not o.complete or o.Z is None)):
            chk.violation(pre + "abnormal-exit:%s" % o.rc, "federate %d exits with %s [%s]\n%s" % (o.f, o.rc, vs, tails(res)), res.replay); return False
    if not ok: return False
    for o in res.outs:
        F = fs[o.f]; s = sims(o) if sims else s; exp = expected(g, s, F); ex = {}
        for f in o.E:
            if f[2] >= PSEUDO: continue
            d = ex.setdefault((f[4], f[5]), {})
            if f[2] in d: chk.violation(pre + "executed-twice", "federate %d: reaction %d executed twice at %s [%s]" % (o.f, f[2], (f[4], f[5]), vs), res.replay); return False
            d[f[2]] = (f[3], f[8] & M64, f[9] & M64)
        for tg in sorted(set(ex) | {t for t in exp if exp[t]}):
            a, b = ex.get(tg, {}), exp.get(tg, {})
            if a != b:
                x = min(x for x in set(a) | set(b) if a.get(x) != b.get(x)); u, w = a.get(x), b.get(x)
                k = "missing" if u is None else "unexpected" if w is None else "wrong-variant" if u[0] != w[0] else "wrong-presence" if u[1] != w[1] else "wrong-values"
                chk.violation(pre + "oracle:" + k, "federate %d at elapsed tag %s reaction %d: executed %s, the semantics prescribes %s [%s]\n%s" % (o.f, tg, x, u, w, vs, tails(res)), res.replay); return False
        if (o.Z[1], o.Z[2]) != s.final:
            chk.violation(pre + "final-tag", "federate %d ended at %s, expected %s [%s]" % (o.f, (o.Z[1], o.Z[2]), s.final, vs), res.replay); return False
        st = {f[0]: f[1] & M64 for k, t, f in o.recs if k == "F"}
        for r in F.rm:
            if st.get(r) != s.st[r] and r not in g.delayr: chk.violation(pre + "final-state", "federate %d: final state of reactor %d differs [%s]" % (o.f, r, vs), res.replay); return False
    if res.rc != 0: chk.violation(pre + "rti-exit", "the RTI exits with %s after all federates ended normally [%s]\n%s" % (res.rc, vs, res.err[-600:]), res.replay); return False
    return True

def tails(res):
    return "\n".join("federate %d (exit %s): %s" % (o.f, o.rc, (o.out + o.err)[-500:].replace("\n", " | ")) for o in res.outs) + "\nRTI: " + (res.out + res.err)[-400:].replace("\n", " | ")
