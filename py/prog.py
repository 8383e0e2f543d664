"""Programs for c/prog.c: model, generator and the discrete-event oracle."""
import random, heapq

M64 = (1 << 64) - 1
FOREVER = (1 << 63) - 1
def mix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
    return x ^ (x >> 31)
def s64(x):
    return x - (1 << 64) if x >> 63 else x

SETI, SETA, SETT, FWD, WCOPY, FWDACT, SETIV = 1, 2, 3, 4, 5, 6, 7
SCH, SCHI, SCHC, SCHV, SCHT, SCHF, SCHIV, SCHI32, SCHVV = range(10, 19)
STOP, MODE, WDSTART, WDSTOP, ADVCLK, SLEEP, ASYNC, COUNTSTOP, CHKDL, BUSY, SIGSTOP, SENDFED, SENDABS, ENQABS = range(20, 34)

class Op:
    __slots__ = ("code", "mask", "match", "a", "b", "c", "d")
    def __init__(self, code, a=0, b=0, c=0, d=0, mask=0, match=0):
        self.code, self.mask, self.match, self.a, self.b, self.c, self.d = code, mask, match, a, b, c, d
    def text(self):
        return "%d %d %d %d %d %d %d" % (self.code, self.mask, self.match, self.a, self.b, self.c, self.d)

class Out:
    def __init__(s, reactor, width, typ, custom): s.reactor, s.width, s.type, s.custom = reactor, width, typ, custom
class In:
    def __init__(s, reactor, width, typ, sparse, mode=-1): s.reactor, s.width, s.type, s.sparse, s.mode = reactor, width, typ, sparse, mode
class Act:
    def __init__(s, reactor, physical, mind, minsp, policy, typ, mode=-1):
        s.reactor, s.physical, s.mind, s.minsp, s.policy, s.type, s.mode = reactor, physical, mind, minsp, policy, typ, mode
class Timer:
    def __init__(s, reactor, off, per, mode=-1): s.reactor, s.off, s.per, s.mode = reactor, off, per, mode
class Rx:
    def __init__(s, reactor, number, deadline=-1, mode=-1, special=0):
        s.reactor, s.number, s.deadline, s.mode, s.special = reactor, number, deadline, mode, special
        s.src, s.eff, s.ops, s.hops = [], [], [], []   # src: (kind,id,flags)
        s.level, s.inferred, s.lastenab = 0, FOREVER, -1

class Prog:
    def __init__(self):
        self.nR = 0; self.parent = []; self.wdm = []
        self.outs, self.ins, self.conns, self.acts, self.timers, self.rxs, self.modes, self.wds, self.asyncs, self.sr = [], [], [], [], [], [], [], [], [], []
        self.clock = (0, 0); self.delay = (0, 0, 0)
        self.args = []; self.timeout = None; self.keepalive = False; self.extra_lines = []; self.big = 0
    def reactor(self, parent=-1, wd=0):
        self.parent.append(parent); self.wdm.append(wd); self.nR += 1; return self.nR - 1
    def out(self, *a): self.outs.append(Out(*a)); return len(self.outs) - 1
    def inp(self, *a): self.ins.append(In(*a)); return len(self.ins) - 1
    def act(self, *a): self.acts.append(Act(*a)); return len(self.acts) - 1
    def timer(self, *a): self.timers.append(Timer(*a)); return len(self.timers) - 1
    def rx(self, reactor, **k):
        n = sum(1 for x in self.rxs if x.reactor == reactor)
        x = Rx(reactor, n, **k); self.rxs.append(x); x.id = len(self.rxs) - 1; return x
    def conn(self, iid, ic, oid, oc): self.conns.append((iid, ic, oid, oc))

    def finish(self):
        """Order reactions, compute levels, inferred deadlines, dominating reactions."""
        n = len(self.rxs)
        self.inconn = {}
        for (i, ic, o, oc) in self.conns:
            assert (i, ic) not in self.inconn
            self.inconn[(i, ic)] = (o, oc)
        writers = {}
        for x in self.rxs:
            for o in x.eff: writers.setdefault(o, []).append(x.id)
        preds = [set() for _ in range(n)]
        byr = {}
        for x in self.rxs: byr.setdefault(x.reactor, []).append(x)
        for r, l in byr.items():
            l.sort(key=lambda x: x.number)
            for a, b in zip(l, l[1:]): preds[b.id].add(a.id)
        self.conn_preds = [set() for _ in range(n)]
        for x in self.rxs:
            for (k, i, f) in x.src:
                if k == 0:
                    for (ii, ic, o, oc) in self.conns:
                        if ii == i:
                            for w in writers.get(o, []):
                                preds[x.id].add(w); self.conn_preds[x.id].add(w)
        self.preds = preds
        order, state = [], [0] * n
        level = [0] * n
        def visit(u):
            stack = [(u, iter(sorted(preds[u])))]
            state[u] = 1
            while stack:
                v, it = stack[-1]
                for w in it:
                    if state[w] == 1: raise ValueError("cycle")
                    if state[w] == 0:
                        state[w] = 1; stack.append((w, iter(sorted(preds[w])))); break
                else:
                    stack.pop(); state[v] = 2; order.append(v)
                    level[v] = max([level[w] + 1 for w in preds[v]], default=0)
        for u in range(n):
            if state[u] == 0: visit(u)
        self.order = order
        succ = [set() for _ in range(n)]
        for v in range(n):
            for w in preds[v]: succ[w].add(v)
        self.succ = succ
        anc = [None] * n
        for v in order:
            a = set()
            for w in preds[v]: a.add(w); a |= anc[w]
            anc[v] = a
        self.anc = anc
        for v in reversed(order):
            x = self.rxs[v]
            d = x.deadline if x.deadline >= 0 else FOREVER
            for w in succ[v]: d = min(d, self.rxs[w].inferred)
            x.inferred = d
        for x in self.rxs:
            x.level = level[x.id]; x.lastenab = -1
            # the compiler's rule: a single upstream reaction, through a port, for the first reaction of a reactor
            if x.number == 0 and len(preds[x.id]) == 1 and len(self.conn_preds[x.id]) == 1:
                x.lastenab = min(self.conn_preds[x.id])
        self.order_exec = sorted(range(n), key=lambda v: (level[v], v))
        self.trig = {}
        for x in self.rxs:
            for (k, i, f) in x.src:
                if f & 1: self.trig.setdefault((k, i), []).append(x.id)
        self.ndest = {}
        for (i, ic, o, oc) in self.conns: self.ndest.setdefault((o, oc), []).append((i, ic))
        return self

    def text(self):
        L = ["clock %d %d" % self.clock, "delay %d %d %d" % self.delay]
        for r in range(self.nR): L.append("reactor %d %d %d" % (r, self.parent[r], self.wdm[r]))
        for i, (r, init) in enumerate(self.modes): L.append("mode %d %d %d" % (i, r, init))
        for i, o in enumerate(self.outs): L.append("out %d %d %d %d %d" % (i, o.reactor, o.width, o.type, o.custom))
        for i, o in enumerate(self.ins): L.append("in %d %d %d %d %d %d" % (i, o.reactor, o.width, o.type, o.sparse, o.mode))
        for c in self.conns: L.append("conn %d %d %d %d" % c)
        for i, a in enumerate(self.acts): L.append("act %d %d %d %d %d %d %d %d" % (i, a.reactor, a.physical, a.mind, a.minsp, a.policy, a.type, a.mode))
        for i, t in enumerate(self.timers): L.append("timer %d %d %d %d %d" % (i, t.reactor, t.off, t.per, t.mode))
        for i, (r, to, ops) in enumerate(self.wds): L.append("wd %d %d %d %d %s" % (i, r, to, len(ops), " ".join(o.text() for o in ops)))
        for x in self.rxs:
            L.append("reaction %d %d %d %d %d %d %d %d %d  %d %s  %d %s  %d %s  %d %s" % (
                x.id, x.reactor, x.number, x.level, x.inferred, x.deadline, x.lastenab, x.mode, x.special,
                len(x.src), " ".join("%d %d %d" % s for s in x.src), len(x.eff), " ".join(map(str, x.eff)),
                len(x.ops), " ".join(o.text() for o in x.ops), len(x.hops), " ".join(o.text() for o in x.hops)))
        for (r, m) in self.sr: L.append("statereset %d %d" % (r, m))
        for a in self.asyncs: L.append("async %s" % " ".join(map(str, a)))
        if self.big: L.append("big %d" % self.big)
        return "\n".join(L + self.extra_lines) + "\n"

def mkarr(v, big=0):
    n = 2 + v % 6
    if big and (v >> 8) % 4 == 0: n = 2 + (v >> 16) % big
    return [n] + [mix((v + i) & M64) & 0x7fffffff for i in range(1, n)]
def harr(h, a):
    h = mix(h ^ len(a))
    for e in a: h = mix(h ^ e)
    return h

class Limit(Exception): pass

class Sim:
    """Discrete-event semantics. ext: {tag: [(aid, val)]} events on physical actions;
    handled: set of (xid, tag) for which the deadline handler (or other variant) ran: value = kind."""
    def __init__(self, p, timeout=None, keepalive=False, ext=None, handled=None, stop_at=None, limit=4000, stop_ext=None):
        self.p = p; self.limit = limit
        self.timeout, self.keepalive = timeout, keepalive
        self.ext = ext or {}; self.handled = handled or {}
        self.stop_ext = stop_ext; self.ignore_stop = False; self.shut = None; self.watch = (); self.wlog = {}
    def run(self):
        p = self.p
        INF = (FOREVER, FOREVER)
        self.st = [mix(r + 1) for r in range(p.nR)]
        self.cnt = [0] * p.nR
        self.q = {}        # tag -> list of [kind, id, val, hasval]   kind 1 action 2 timer 3 dummy
        self.heap = []
        self.last = {}
        self.stop = (self.timeout, 0) if self.timeout is not None and self.timeout >= 0 else INF
        if self.stop_ext is not None: self.stop = min(self.stop, self.stop_ext)
        self.execs = {}    # (el,m) -> {xid: (kind, pres, obs)}
        self.scheds = {}   # (xid, tag, opindex) -> (ret positive?, tag or None)
        self.tagorder = []
        self.stop_req = []
        self.modal_init()
        for t, l in self.ext.items():
            for (a, v) in l: self.insert(t, [1, a, v, v is not None])
        cur = (0, 0); self.cur = cur
        present = []
        special = [x.id for x in p.rxs if x.special & 1 and x.mode < 0]
        special += self.modal_startup()
        for i, t in enumerate(p.timers):
            if not self.active(t.mode):
                self.susp.append((t.off, [2, i, None, False], t.mode)); continue
            if t.off == 0:
                present.append([2, i, None, False])
                if t.per > 0: self.insert_chk((t.per, 0), [2, i, None, False])
            else: self.insert_chk((t.off, 0), [2, i, None, False])
        if cur >= self.stop: special += self.shutdown_list()
        n = 0
        while True:
            self.cur = cur
            n += self.process(cur, present, special)
            if n > self.limit: raise Limit()
            self.modal_changes()
            if cur >= self.stop: break
            while self.heap and not self.q.get(self.heap[0]): heapq.heappop(self.heap)
            if self.heap: nxt = self.heap[0]
            else:
                nxt = INF
                if not self.keepalive: self.stop = min(self.stop, (cur[0], cur[1] + 1))
            if nxt > self.stop: nxt = self.stop
            if nxt == INF: break      # would wait forever
            cur = nxt
            self.cur = cur
            present, special = [], []
            if cur >= self.stop: special += self.shutdown_list()
            special += self.modal_special()
            evs = self.q.pop(cur, [])
            for e in evs:
                if e[0] == 3: continue
                present.append(e)
                if e[0] == 2:
                    t = p.timers[e[1]]
                    if t.per > 0: self.insert_chk((cur[0] + t.per, 0), [2, e[1], None, False])
            if cur[1] > 3000: raise Limit()
        self.final = cur
        return self
    def insert(self, tag, e):
        l = self.q.get(tag)
        if l is None:
            self.q[tag] = [e]; heapq.heappush(self.heap, tag)
        else:
            if not l: heapq.heappush(self.heap, tag)
            l.append(e)
    def insert_chk(self, tag, e):
        if tag <= self.stop: self.insert(tag, e)
    # ------------------------------------------------------------- modes
    def modal_init(self):
        p = self.p; self.susp = []; self.ntrans = self.nresumed = 0
        self.mreactors = [r for r in range(p.nR) if any(m[0] == r for m in p.modes)]
        self.modal = bool(p.modes)
        self.curmode, self.nextmode = {}, {}
        self.had_startup, self.needs_startup, self.needs_reset = set(), set(), set()
        for i, (r, init) in enumerate(p.modes):
            if init: self.curmode[r] = i
        for r in self.mreactors:
            if self.active(self.curmode[r]): self.needs_startup.add(self.curmode[r])
    def active(self, m):
        while m >= 0:
            r = self.p.modes[m][0]
            if self.curmode[r] != m: return False
            m = self.p.parent[r]
        return True
    def _clear_flags(self):
        for r in self.mreactors:
            m = self.curmode[r]
            if self.active(m):
                if m in self.needs_startup: self.needs_startup.discard(m); self.had_startup.add(m)
                self.needs_reset.discard(m)
    def modal_startup(self):
        if not self.modal: return []
        l = [x.id for x in self.p.rxs if x.special & 1 and x.mode >= 0 and self.active(x.mode) and x.mode in self.needs_startup]
        self._clear_flags(); return l
    def modal_special(self):
        if not self.modal: return []
        l = [x.id for x in self.p.rxs if x.special & 1 and x.mode >= 0 and self.active(x.mode) and x.mode in self.needs_startup]
        l += [x.id for x in self.p.rxs if x.special & 4 and x.mode >= 0 and self.active(x.mode) and x.mode in self.needs_reset]
        self._clear_flags(); return l
    def shutdown_list(self):
        self.at_shutdown = True
        l = [x.id for x in self.p.rxs if x.special & 2 and x.mode < 0 and (self.shut is None or x.reactor in self.shut)]
        l2 = [x.id for x in self.p.rxs if x.special & 2 and x.mode >= 0 and x.mode in self.had_startup]
        self.bypass = set(l2)
        return l + l2
    def modal_changes(self):
        """Transitions take effect after the tag. Suspended events keep their remaining local time."""
        if not self.modal: return
        p = self.p; entered = {}; now = self.cur[0]
        was = [self.active(m) for m in range(len(p.modes))]
        for r in self.mreactors:
            pm = p.parent[r]
            if pm >= 0 and entered.get(p.modes[pm][0]) == (pm, 1):
                self.nextmode[r] = ([i for i, m in enumerate(p.modes) if m[0] == r and m[1]][0], 1)
            if r in self.nextmode: entered[r] = self.nextmode[r]
        self.nextmode = {}
        if not entered: return
        self.ntrans += 1
        for r, (nm, ch) in entered.items():
            self.curmode[r] = nm
            if nm not in self.had_startup: self.needs_startup.add(nm)
            if ch == 1:
                self.needs_reset.add(nm)
                for (rr, m) in p.sr:
                    if m == nm: self.st[rr] = mix(rr + 1)
                self.susp = [s for s in self.susp if s[2] != nm]
                for i, t in enumerate(p.timers):
                    if t.mode == nm: self.susp.append((t.off, [2, i, None, False], nm))
            else: self.needs_reset.discard(nm)
        act = [self.active(m) for m in range(len(p.modes))]
        for m in range(len(p.modes)):
            if act[m] and not was[m] and m not in self.had_startup: self.needs_startup.add(m)
        for tag in sorted(self.q):
            keep = []
            for e in self.q[tag]:
                mode = p.acts[e[1]].mode if e[0] == 1 else p.timers[e[1]].mode if e[0] == 2 else -1
                if mode >= 0 and not act[mode]: self.susp.append((tag[0] - now, e, mode))
                else: keep.append(e)
            self.q[tag] = keep
            if not keep: del self.q[tag]
        left = []
        for (rem, e, mode) in self.susp:
            if not act[mode]: left.append((rem, e, mode)); continue
            self.nresumed += 1
            tag = (now + rem, 0) if rem > 0 else (now, self.cur[1] + 1)
            while any(x[0] == e[0] and x[1] == e[1] for x in self.q.get(tag, [])): tag = (tag[0], tag[1] + 1)
            self.insert_chk(tag, e)
        self.susp = left
        if any(self.active(self.curmode[r]) and (self.curmode[r] in self.needs_startup or self.curmode[r] in self.needs_reset) for r in self.mreactors):
            self.insert((self.cur[0], self.cur[1] + 1), [3, 0, None, False])
    # ---------------------------------------------------------- one tag
    def process(self, cur, present, special):
        p = self.p
        ready = set(special)
        acts, tims = {}, set()
        for e in present:
            if e[0] == 1: acts[e[1]] = (e[3], e[2]() if callable(e[2]) else e[2]); key = (1, e[1])
            else: tims.add(e[1]); key = (2, e[1])
            for x in p.trig.get(key, []): ready.add(x)
        ports = {}
        ex = {}
        heap = [(p.rxs[x].level, x) for x in ready]; heapq.heapify(heap)
        done = set()
        while heap:
            lv, xid = heapq.heappop(heap)
            if xid in done: continue
            done.add(xid)
            x = p.rxs[xid]
            if x.mode >= 0 and not self.active(x.mode) and not (xid in getattr(self, "bypass", ())): continue
            kind = 0
            if x.deadline == 0: kind = 1
            elif (xid, cur) in self.handled: kind = self.handled[(xid, cur)]
            h = self.st[x.reactor]
            h = mix(h ^ ((xid + 1) * 0x9E3779B1)); h = mix(h ^ cur[0]); h = mix(h ^ cur[1]); h = mix(h ^ kind)
            pres = 1
            for i, (k, sid, f) in enumerate(x.src):
                if k == 0 and f & 2:
                    for c in range(p.ins[sid].width):
                        oc = p.inconn.get((sid, c))
                        if oc is None or oc not in ports: continue
                        val = ports[oc]
                        h = mix(h ^ (i * 1000 + c + 1)); pres = mix(pres ^ (i * 1000 + c + 1))
                        h = mix(h ^ val) if p.ins[sid].type == 0 else harr(h, val)
                elif k == 1 and f & 3:
                    if sid not in acts: continue
                    h = mix(h ^ (i * 1000 + 500)); pres = mix(pres ^ (i * 1000 + 500))
                    has, val = acts[sid]
                    if has:
                        if p.acts[sid].type == 2: h = harr(h, val)
                        else: h = mix(h ^ (val & M64))
                    else: h = mix(h ^ 77)
            self.st[x.reactor] = h
            ex[xid] = (kind, pres, h)
            wrote = set()
            for i, o in enumerate(x.hops if kind else x.ops):
                g = mix(h ^ (((i + 1) * 0x2545F4914F6CDD1D) & M64))
                if (g & o.mask) != o.match: continue
                v = mix(g); c = o.code
                if c == SETI: ports[(o.a, o.b)] = v; wrote.add((o.a, o.b))
                elif c in (SETA, SETT): ports[(o.a, o.b)] = mkarr(v, p.big); wrote.add((o.a, o.b))
                elif c in (FWD, WCOPY):
                    oc = p.inconn.get((o.c, o.d))
                    if oc in ports:
                        val = list(ports[oc])
                        if c == WCOPY: val = [val[0]] + [(e + 1 + (v & 7)) & 0x7fffffff for e in val[1:]]
                        ports[(o.a, o.b)] = val; wrote.add((o.a, o.b))
                elif c == FWDACT:
                    if o.c in acts and acts[o.c][0]: ports[(o.a, o.b)] = acts[o.c][1]; wrote.add((o.a, o.b))
                elif c == SETIV:
                    if o.d >= 0:
                        oc = p.inconn.get((o.c, o.d))
                        if oc in ports: ports[(o.a, o.b)] = ports[oc]; wrote.add((o.a, o.b))
                    elif o.c in acts and acts[o.c][0]: ports[(o.a, o.b)] = acts[o.c][1] & M64; wrote.add((o.a, o.b))
                elif SCH <= c < STOP:
                    has, val = True, None
                    if c == SCH: has = False
                    elif c in (SCHI, SCHVV): val = v
                    elif c == SCHI32: val = v & 0x7fffffff
                    elif c in (SCHC, SCHV, SCHT): val = mkarr(v, p.big)
                    else:
                        oc = p.inconn.get((o.c, o.d))
                        if oc not in ports: continue
                        val = ports[oc]
                    self.scheds[(xid, cur, i)] = self.schedule(o.a, o.b, has, val)
                elif c == STOP:
                    self.stop_req.append(cur)
                    if not self.ignore_stop: self.stop = min(self.stop, (cur[0], cur[1] + 1))
                elif c == COUNTSTOP:
                    self.cnt[x.reactor] += 1
                    if self.cnt[x.reactor] == o.a:
                        self.stop = min(self.stop, (cur[0], cur[1] + 1)); self.stop_req.append(cur)
                elif c == MODE: self.nextmode[x.reactor] = (o.a, o.b)
            for oc in wrote:
                for (iid, ic) in p.ndest.get(oc, []):
                    for y in p.trig.get((0, iid), []):
                        if y not in done: heapq.heappush(heap, (p.rxs[y].level, y))
        for oc in self.watch:
            if oc in ports: self.wlog[oc, cur] = ports[oc]
        self.execs[cur] = ex
        self.tagorder.append(cur)
        return len(ex) + 1
    def schedule(self, a, extra, has, val):
        p = self.p; ac = p.acts[a]; cur = self.cur
        if ac.physical: return ("phys", None)
        d = ac.mind + max(extra, 0)
        if d > 0: tag = (min(cur[0] + d, FOREVER), 0)
        else: tag = (cur[0], cur[1] + 1)
        def find(tg):
            for e in self.q.get(tg, ()):
                if e[0] == 1 and e[1] == a: return e
        if ac.minsp <= 0:
            piled = False
            while find(tag): tag = (tag[0], tag[1] + 1); piled = True
            if tag > self.stop: return (0, None)
            self.insert(tag, [1, a, val, has]); self.last[a] = tag
            return (2 if piled else 1, tag)
        if a in self.last and self.last[a][0] + ac.minsp > tag[0]:
            if ac.policy == 1: return (0, None)
            if ac.policy == 2:
                e = find(self.last[a])
                if e: e[2], e[3] = val, has; return (0, self.last[a])
            tag = (self.last[a][0] + ac.minsp, 0)
        if tag > self.stop: return (0, None)
        self.last[a] = tag
        self.insert(tag, [1, a, val, has])
        return (1, tag)

# ------------------------------------------------------------------ generator
DEFAULT = dict(nreact=(2, 7), maxrx=4, p_timer=0.6, p_action=0.7, p_conn=0.7, p_multi=0.3, p_wide=0.0, p_arr=0.3, p_custom=0.3,
               p_minsp=0.15, p_zero=0.3, p_stop=0.05, p_deadline=0.0, p_after=0.25, p_shutdown=0.4, timeout=(60, 400), tscale=40,
               p_notimeout=0.15, p_negextra=0.05, dense=0.5, p_advclk=0.0, p_sleep=0.0, p_iter=0.0, p_huge=0.0, ntimers=[1, 1, 2], only_timer=0.0)

def add_after(p, oid, oc, delay, typ, custom):
    """Delay reactor as the compiler generates it; returns (oid, chan) of the delayed output."""
    r = p.reactor()
    i = p.inp(r, 1, typ, 0); o = p.out(r, 1, typ, 0); a = p.act(r, 0, delay, 0, 0, 1 if typ == 0 else 2)
    p.conn(i, 0, oid, oc)
    x = p.rx(r); x.src = [(1, a, 3)]; x.eff = [o]
    x.ops = [Op(SETIV, o, 0, a, -1)] if typ == 0 else [Op(FWDACT, o, 0, a)]
    y = p.rx(r); y.src = [(0, i, 3)]
    y.ops = [Op(SCHIV, a, 0, i, 0)] if typ == 0 else [Op(SCHF, a, 0, i, 0)]
    return o, 0

def generate(rng, **kn):
    K = dict(DEFAULT); K.update(kn)
    for attempt in range(60):
        p = gen1(rng, K)
        try:
            s = Sim(p, p.timeout, p.keepalive, limit=K.get("limit", 1500)).run()
        except Limit:
            continue
        n = sum(len(v) for v in s.execs.values())
        if n >= K.get("min_execs", 6): return p, s
    raise RuntimeError("generator found no program")

def guard(rng, lo=0):
    m = rng.choice([0, 1, 1, 3, 3, 7] if lo == 0 else [3, 7, 7] if lo == 2 else [1, 3, 3, 7])
    return dict(mask=m, match=rng.randrange(m + 1))

def gen1(rng, K):
    p = Prog()
    n = rng.randint(*K["nreact"])
    P = lambda k: rng.random() < K[k]
    ts = K["tscale"]
    avail = []     # (oid, type, width)
    feedback = []
    reacts = []
    for k in range(n):
        r = p.reactor(); reacts.append(r)
        nin = rng.choice([0, 1, 1, 2, 3]) if k else 0
        nout = rng.choice([0, 1, 1, 2, 2])
        ins, outs, acts, tims = [], [], [], []
        for _ in range(nin):
            if not avail: break
            typ = rng.choice([t for (_, t, _) in avail])
            w = 1
            if P("p_wide"): w = rng.randint(8, 40)
            elif P("p_multi"): w = rng.randint(2, 5)
            i = p.inp(r, w, typ, 0)
            chans = [(o, c) for (o, t, ww) in avail if t == typ for c in range(ww)]
            for c in range(w):
                if rng.random() < 0.92:
                    o, oc = rng.choice(chans)
                    if P("p_after"): o, oc = add_after(p, o, oc, rng.choice([0, 0, rng.randint(1, ts)]), typ, 0)
                    p.conn(i, c, o, oc)
            ins.append(i)
        for _ in range(nout):
            typ = 1 if P("p_arr") else 0
            w = 1
            if P("p_wide"): w = rng.randint(8, 40)
            elif P("p_multi"): w = rng.randint(2, 5)
            outs.append(p.out(r, w, typ, 1 if typ and P("p_custom") else 0))
        if P("p_timer") or (k == 0 and rng.random() < 0.8):
            for _ in range(rng.choice(K["ntimers"])):
                tims.append(p.timer(r, rng.choice([0, 0, rng.randint(1, ts)]), rng.choice([0, rng.randint(1, ts), rng.randint(1, ts), rng.randint(3, 3 * ts)])))
        if P("p_action"):
            for _ in range(rng.choice([1, 1, 2, 3])):
                typ = rng.choice([0, 1, 1, 2, 3]) if K["p_arr"] > 0 else rng.choice([0, 1, 3])
                mind = 0 if P("p_zero") else rng.randint(1, ts)
                minsp, pol = 0, 0
                if P("p_minsp"): minsp, pol = rng.randint(1, ts), rng.randrange(3)
                acts.append(p.act(r, 0, mind, minsp, pol, typ))
        # feedback input, to be connected later through a delay
        if rng.random() < 0.25 and k:
            typ = 0; i = p.inp(r, 1, typ, 0); ins.append(i); feedback.append((i, k))
        nrx = rng.randint(1, K["maxrx"])
        pool = [(0, i) for i in ins] + [(1, a) for a in acts] + [(2, t) for t in tims]
        readers = {}
        for q in range(nrx):
            x = p.rx(r)
            special = 0
            if rng.random() < 0.3 or (q == 0 and not tims and not ins): special |= 1
            if q == nrx - 1 and P("p_shutdown"): special |= 2
            x.special = special
            src = []
            for (kk, i) in pool:
                z = rng.random()
                if z < 0.45: src.append((kk, i, 3))
                elif z < 0.55 and kk != 2: src.append((kk, i, 2))
            if not any(f & 1 for (_, _, f) in src) and not special and pool:
                kk, i = rng.choice(pool); src = [s for s in src if s[:2] != (kk, i)] + [(kk, i, 3)]
            if tims and P("only_timer"): src = [(2, rng.choice(tims), 3)]
            rng.shuffle(src)
            if P("p_iter"): src = [(kk, i, f | 4) if kk == 0 and p.ins[i].width > 1 else (kk, i, f) for (kk, i, f) in src]
            x.src = src
            for (kk, i, f) in src: readers.setdefault((kk, i), []).append(x)
            x.eff = [o for o in outs if rng.random() < 0.6]
            for o in x.eff:
                oo = p.outs[o]
                for c in range(oo.width):
                    if oo.width > 6 and rng.random() > K["dense"] * 0.3: continue
                    for _ in range(rng.choice([1, 1, 1, 2])):
                        gd = guard(rng, 0 if oo.width <= 6 else 1)
                        if oo.type == 0:
                            cand = [i for (kk, i, f) in src if kk == 0 and p.ins[i].type == 0]
                            if cand and rng.random() < 0.2:
                                i = rng.choice(cand); x.ops.append(Op(SETIV, o, c, i, rng.randrange(p.ins[i].width), **gd))
                            else: x.ops.append(Op(SETI, o, c, **gd))
                        else:
                            cand = [i for (kk, i, f) in src if kk == 0 and p.ins[i].type == 1]
                            acand = [i for (kk, i, f) in src if kk == 1 and p.acts[i].type == 2]
                            z = rng.random()
                            if cand and z < 0.3:
                                i = rng.choice(cand); x.ops.append(Op(FWD, o, c, i, rng.randrange(p.ins[i].width), **gd))
                            elif cand and z < 0.55:
                                i = rng.choice(cand); x.ops.append(Op(WCOPY, o, c, i, rng.randrange(p.ins[i].width), **gd))
                            elif acand and z < 0.7: x.ops.append(Op(FWDACT, o, c, rng.choice(acand), **gd))
                            else: x.ops.append(Op(rng.choice([SETA, SETA, SETT]), o, c, **gd))
            for a in acts:
                if rng.random() < 0.55:
                    ac = p.acts[a]
                    for _ in range(rng.choice([1, 1, 1, 2, 3])):
                        extra = rng.choice([0, 0, rng.randint(1, ts)])
                        if P("p_negextra"): extra = -rng.randint(1, 100)
                        elif P("p_huge"): extra = rng.choice([FOREVER, FOREVER - rng.randint(0, 100), FOREVER - 2 * 10 ** 18, FOREVER // 2, 2 * 10 ** 18])
                        gd = guard(rng, 2 if ac.mind + max(extra, 0) == 0 else 1)
                        cand = [i for (kk, i, f) in src if kk == 0 and p.ins[i].type == 1]
                        if ac.type == 1: c = rng.choice([SCHI, SCHVV, SCHI, SCH])
                        elif ac.type == 3: c = SCHI32
                        elif ac.type == 2: c = rng.choice([SCHC, SCHV, SCHT] + ([SCHF, SCHF] if cand else []))
                        else: c = SCH
                        o = Op(c, a, extra, **gd)
                        if c == SCHF:
                            o.c = rng.choice(cand); o.d = rng.randrange(p.ins[o.c].width)
                        x.ops.append(o)
            if K["p_stop"] and rng.random() < K["p_stop"]: x.ops.append(Op(STOP, mask=31, match=rng.randrange(32)))
            if K["p_sleep"] and rng.random() < K["p_sleep"]: x.ops.append(Op(SLEEP, 0, 40, mask=3, match=0))
            if K["p_deadline"] and rng.random() < K["p_deadline"]:
                x.deadline = rng.choice([0, rng.randint(1, ts), rng.randint(1, 4 * ts), 10 ** 12])
                x.hops = [Op(o.code, o.a, o.b, o.c, o.d, o.mask, o.match) for o in x.ops if rng.random() < 0.7]
            if K["p_advclk"] and rng.random() < K["p_advclk"]:
                o = Op(ADVCLK, 0, ts, mask=3, match=rng.randrange(4)); x.ops.append(o); x.hops.append(o)
            rng.shuffle(x.ops)
        # a reader that takes writable copies must be the only reader of that input
        for (kk, i), l in readers.items():
            if kk == 0 and len(l) > 1:
                for x in l:
                    for o in x.ops + x.hops:
                        if o.code == WCOPY and o.c == i: o.code = FWD
                        # (FWD shares, which is always allowed)
        # and must not be both copied and read through the same channel twice
        for x in p.rxs:
            seen = set()
            for o in x.ops:
                if o.code in (FWD, WCOPY, SCHF):
                    if (o.c, o.d) in seen and o.code == WCOPY: o.code = FWD
                    seen.add((o.c, o.d))
        for o in outs: avail.append((o, p.outs[o].type, p.outs[o].width))
    for (i, k) in feedback:
        cand = [(o, c) for (o, t, w) in avail if t == p.ins[i].type for c in range(w)]
        if cand:
            o, c = rng.choice(cand)
            o, c = add_after(p, o, c, rng.choice([rng.randint(1, ts), rng.randint(1, ts), 0]), p.ins[i].type, 0)
            p.conn(i, 0, o, c)
    fix_wcopy(p)
    sc = lambda: rng.randint(*K["timeout"]) if ts < 1000 else rng.randint(*K["timeout"]) * ts // 40
    p.timeout = None if P("p_notimeout") and not K["p_huge"] else rng.choice([sc(), sc(), 0 if rng.random() < 0.1 else rng.randint(1, ts)])
    p.keepalive = p.timeout is not None and rng.random() < 0.3
    # mark sparse inputs: every channel connected, each source channel with one destination
    dest = {}
    for (i, ic, o, oc) in p.conns: dest.setdefault((o, oc), []).append((i, ic))
    for i, inn in enumerate(p.ins):
        if inn.width >= 10:
            cs = [(o, oc) for (ii, ic, o, oc) in p.conns if ii == i]
            if len(cs) == inn.width and all(len(dest[c]) == 1 for c in cs): inn.sparse = 1
    return p.finish()

def fix_wcopy(p):
    """An in-place 'writable copy' is only observable by its own reaction if nothing else in it sees the
    channel afterwards: a writable copy may be the original when the reader is the sole user, so a reaction
    must not take it and also forward the original, and a channel read twice by one reaction counts twice."""
    for x in p.rxs:
        use = {}
        for o in x.ops:
            if o.code in (FWD, WCOPY, SCHF): use.setdefault(p_src(p, o), []).append(o)
        for k, l in use.items():
            if len(l) > 1:
                for o in l:
                    if o.code == WCOPY: o.code = FWD
def p_src(p, o):
    for (i, ic, oo, oc) in p.conns:
        if (i, ic) == (o.c, o.d): return (oo, oc)
    return ("none", o.c, o.d)

# ------------------------------------------------------------- modal programs
def gen_modal(rng, **kn):
    for attempt in range(200):
        p = gen_modal1(rng, kn)
        try: s = Sim(p, p.timeout, p.keepalive, limit=kn.get("limit", 1500)).run()
        except Limit: continue
        if s.ntrans >= kn.get("min_trans", 2) and sum(len(v) for v in s.execs.values()) >= 8: return p, s
    raise RuntimeError("generator found no modal program")

def gen_modal1(rng, K):
    p = Prog(); ts = K.get("tscale", 30)
    modes_of = {}; allr = []
    src_out = None
    # an outer source that drives transitions
    r0 = p.reactor(); src_out = p.out(r0, 1, 0, 0); t = p.timer(r0, rng.randint(0, 5), rng.randint(3, ts))
    x = p.rx(r0); x.src = [(2, t, 3)]; x.eff = [src_out]; x.ops.append(Op(SETI, src_out, 0, **guard(rng)))
    outs = [src_out]
    def content(r, mode, modal, drive):
        """Timers, actions and reactions of reactor r that live in `mode` (-1: outside of modes)."""
        acts, tims = [], []
        for _ in range(rng.choice([0, 1, 1, 2])): tims.append(p.timer(r, rng.choice([0, 0, rng.randint(1, ts)]), rng.choice([0, rng.randint(1, ts), rng.randint(2, 2 * ts)]), mode))
        for _ in range(rng.choice([0, 1, 1, 2])):
            acts.append(p.act(r, 0, rng.choice([0, rng.randint(1, ts), rng.randint(1, 2 * ts)]), 0, 0, rng.choice([0, 1, 1, 2, 3]), mode))
        ins = [i for i in range(len(p.ins)) if p.ins[i].reactor == r]
        ros = [o for o in range(len(p.outs)) if p.outs[o].reactor == r]
        for q in range(rng.choice([1, 2, 2, 3])):
            x = p.rx(r, mode=mode); sp = 0
            if rng.random() < 0.3: sp |= 1
            if rng.random() < 0.25: sp |= 2
            if mode >= 0 and rng.random() < 0.3: sp |= 4
            x.special = sp
            for (k, l) in ((0, ins), (1, acts), (2, tims)):
                for i in l:
                    z = rng.random()
                    if z < 0.5: x.src.append((k, i, 3))
                    elif z < 0.6 and k != 2: x.src.append((k, i, 2))
            if not sp and not any(f & 1 for (_, _, f) in x.src):
                l = [(0, i) for i in ins] + [(1, i) for i in acts] + [(2, i) for i in tims]
                if not l: x.special = 1
                else:
                    k, i = rng.choice(l); x.src = [z for z in x.src if z[:2] != (k, i)] + [(k, i, 3)]
            for o in ros:
                if rng.random() < 0.5: x.eff.append(o); x.ops.append(Op(SETI if p.outs[o].type == 0 else SETA, o, 0, **guard(rng)))
            for a in acts:
                if rng.random() < 0.6:
                    ac = p.acts[a]
                    for _ in range(rng.choice([1, 1, 2, 3])):
                        c = {0: SCH, 1: SCHI, 2: SCHC, 3: SCHI32}[ac.type]
                        extra = rng.choice([0, 0, rng.randint(1, ts)])
                        x.ops.append(Op(c, a, extra, **guard(rng, 2 if ac.mind + extra == 0 else 1)))
            if mode >= 0 and modal:
                for m in modal:
                    if m != mode and rng.random() < 0.6: x.ops.append(Op(MODE, m, rng.choice([1, 2]), **guard(rng, 1)))
            rng.shuffle(x.ops)
    def modal(depth, parent):
        r = p.reactor(parent)
        if rng.random() < 0.8:
            i = p.inp(r, 1, 0, 0); p.conn(i, 0, rng.choice(outs), 0)
        no = []
        if rng.random() < 0.6: no.append(p.out(r, 1, 0, 0))
        ms = []
        nm = rng.choice([2, 2, 3])
        for k in range(nm): p.modes.append((r, 1 if k == 0 else 0)); ms.append(len(p.modes) - 1)
        if rng.random() < 0.5: content(r, -1 if parent < 0 else parent, None, None)
        kids = []
        for m in ms:
            content(r, m, ms, None)
            if rng.random() < 0.5: p.sr.append((r, m))
            if depth < K.get("depth", 2) and rng.random() < 0.6: kids.append(m)
        outs.extend(no)
        for m in kids:
            if rng.random() < 0.65: modal(depth + 1, m)
            else: # plain reactor inside the mode
                c = p.reactor(m)
                i = p.inp(c, 1, 0, 0); p.conn(i, 0, rng.choice(outs), 0)
                content(c, m, None, None)
                if rng.random() < 0.5: p.sr.append((c, m))
    for _ in range(rng.choice([1, 1, 2])): modal(0, -1)
    # a sink
    r = p.reactor()
    for o in outs[1:3]:
        i = p.inp(r, 1, 0, 0); p.conn(i, 0, o, 0)
    x = p.rx(r); x.src = [(0, i, 3) for i in range(len(p.ins)) if p.ins[i].reactor == r] ; x.special = 2
    p.timeout = rng.randint(3 * ts, 12 * ts); p.keepalive = rng.random() < 0.3
    # reactions of a reactor are numbered in the order of their creation
    return p.finish()
