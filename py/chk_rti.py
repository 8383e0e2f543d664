"""R checks: the real RTI process, driven by simulated federates over sockets; an independent model judges everything it sends."""
import hashlib, hmac, heapq, traceback
from rti import *

START_DELAY = 10**9
class V(Exception): pass

class Hon:
    """An honest federate: an event queue, grants, and what it tells the RTI."""
    def __init__(s, W, i):
        s.W = W; s.i = i; s.rng = random.Random(W.rng.random()); s.q = set(); s.comp = NT; s.tag = NT; s.ptag = NT; s.net = None; s.cur = None; s.known = {}; s.todo = []; s.done = False; s.gone = False
        s.sentlog = collections.defaultdict(list); s.gotlog = collections.defaultdict(list); s.nmsg = 0; s.stop = None; s.granted = []; s.prov = False; s.asked = False; s.named = None; s.early = False; s.unsound = False
        s.dummy = set(); s.inbox = collections.deque(); s.rtag = s.rptag = NT; s.q.add((W.start, 0))
        for _ in range(s.rng.choice([0, 0, 1, 2, 4])): s.q.add((W.start + s.rng.choice([0, 0, 1, 2, 3, 5, 8, 10, 20]), s.rng.choice([0, 0, 0, 1, 2, 3])))
    def head(s): return min(list(s.q) + [s.T()])
    def T(s): return min(s.stop or FT, s.W.T)
    def now(s): return s.cur if s.cur is not None else max(s.comp, (s.W.start, 0))
    def allowed(s, h):
        if s.named and not s.stop and h >= s.named: return False
        if not s.W.topo.up[s.i]: return s.net == h or s.tag >= h
        return s.tag >= h or s.ptag >= h
    def actions(s):
        if s.gone: return []
        if s.inbox and s.rng.random() >= s.W.deaf: s.hear(s.rng.random() < 0.3)
        r = [("reply",)] if s.asked and not s.named else []
        if s.done: return r + [("resign",)]
        if s.cur is not None:
            r += [("out", k) for k, o in enumerate(s.todo) if all(s.isknown(x) for x in o[2])]
            if not s.todo and all(s.isknown(x) for x in s.blockers()): r.append(("ltc",))
            return r
        h = s.head()
        if s.allowed(h): r.append(("exec", h))
        elif s.comp < s.ptag < h: s.q.add(s.ptag); s.dummy.add(s.ptag); return s.actions()
        if s.net != h and s.tag < h: return [("net", h)] + (r if not s.W.topo.up[s.i] or s.net is not None else [])
        return r
    def blockers(s): return s.W.block[s.i] if s.cur == s.ptag and s.tag < s.cur else []
    def isknown(s, src): return s.tag >= s.cur or s.known.get(src, NT) >= s.cur or (s.ptag > s.cur) or s.left(src)
    def left(s, src):
        """The source has left, the RTI has noticed, and everything it sent has been heard."""
        W = s.W; o = W.H[src]
        if not o.gone or W.model.conn[src] or s.inbox: return False
        return W.mode == "seq" or len(s.gotlog[src]) >= len(o.sentlog[s.i]) or (o.unsound and time.time() - W.stamp > 3)
    def do(s, a):
        W, f, rng = s.W, s.W.F[s.i], s.rng
        if a[0] == "resign": W.ev("RESIGN", s.i); resign(W, s.i)
        elif a[0] == "stop": s.named = succ(s.now()); f.tagmsg(STOPREQ, s.named); W.counts["stop requests"] += 1; W.ev("STOPREQ", s.i, s.named)
        elif a[0] == "reply":
            if rng.random() < 0.25: s.named = succ(s.now()); f.tagmsg(STOPREQ, s.named); W.counts["crossing stop requests"] += 1; W.ev("STOPREQ", s.i, s.named)
            else: s.named = max(succ(s.now()), s.asked); f.tagmsg(STOPREP, s.named); W.counts["stop replies"] += 1; W.ev("STOPREP", s.i, s.named)
        elif a[0] == "advertise": p = rng.choice([15045, 1, 255, 256, 32767, 32768, 65535, rng.randrange(65536)]); W.advertised[s.i] = p; f.raw(struct.pack("<Bi", ADAD, p)); W.ev("ADV", s.i, p); W.counts["advertisements"] += 1
        elif a[0] == "depart": W.ev("DEPART", s.i, a[1]); depart(W, s.i, a[1])
        elif a[0] == "net": s.net = a[1]; f.tagmsg(NET, a[1]); W.ev("NET", s.i, a[1])
        elif a[0] == "exec":
            s.cur = a[1]; s.prov = s.tag < s.cur and bool(W.topo.up[s.i]); s.evt = s.cur in s.q and s.cur not in s.dummy; s.q.discard(s.cur); s.todo = []
            for b, d in W.topo.down[s.i]:
                z = (s.i, b) in W.zedge
                if b == s.i and d == NEVER: continue
                s.todo.append((b, d, W.deps.get((s.i, b), []) if z and s.prov else [], z))
            rng.shuffle(s.todo)
        elif a[0] == "out":
            b, d, deps, z = s.todo.pop(a[1]); t = delay(s.cur, d); sent = False
            if s.evt and t <= s.T() and W.budget > 0 and rng.random() < W.pmsg:
                for _ in range(rng.choice([1, 1, 1, 2]) if not z or W.mode == "seq" else 1):
                    W.budget -= 1; sent = True
                    n = rng.choice([0, 1, 8, 8, 100, 231, 232, 233, 234, 235, 236, 237, 256, 257, 487, 488, 489, 512, 744, 1000]) if rng.random() < 0.97 else rng.choice([5000, 65536, 100000])
                    p = s.i * 1000 + rng.randrange(900); pl = rng.randbytes(n); (W.mode == 'seq' and s.W.H[b].gone) or s.sentlog[b].append((MSG, p, t, pl)); f.msg(p, b, t, pl); W.ev("MSG", s.i, t, b, n)
                    W.after(s.i)
            if z and (not sent or rng.random() < 0.1) or (not sent and rng.random() < 0.05):
                at = strict(s.cur, d) if d != NEVER else s.cur
                p = s.i * 1000 + rng.randrange(900); (W.mode == 'seq' and s.W.H[b].gone) or s.sentlog[b].append((ABSENT, p, at)); f.absent(p, b, at); W.ev("ABS", s.i, at, b)
        elif a[0] == "ltc":
            g = s.cur; s.comp = g; s.cur = None; s.net = None; f.tagmsg(LTC, g); W.ev("LTC", s.i, g)
            if g >= s.T(): s.done = True
            elif s.evt and W.localbudget > 0:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    W.localbudget -= 1; d = rng.choice([0, 0, 1, 2, 3, 5, 7, 10, 25]); t = delay(g, d) if d or rng.random() < 0.4 else (g[0], g[1] + rng.choice([2, 2, 3, 5]))
                    if t <= s.T(): s.q.add(t); s.dummy.discard(t)
    def receive(s, m):
        W = s.W
        if m[0] in (TAG, PTAG):
            g = m[1]; s.granted.append(m); W.got(s.i, m)
            if m[0] == TAG:
                if not g > s.rtag: W.bad("R03", "tag", "federate %d was granted TAG %s after TAG %s" % (s.i, W.tt(g), W.tt(s.rtag)))
                if g < s.rptag: W.bad("R03", "tagprov", "federate %d was granted TAG %s after the provisional grant %s" % (s.i, W.tt(g), W.tt(s.rptag)))
                s.rtag = max(s.rtag, g)
            else:
                if not (g > s.rtag and g > s.rptag): W.bad("R03", "ptag", "federate %d was provisionally granted %s after TAG %s and PTAG %s" % (s.i, W.tt(g), W.tt(s.rtag), W.tt(s.rptag)))
                s.rptag = max(s.rptag, g)
        elif m[0] in (MSG, ABSENT):
            src = m[1] // 1000; t = m[3]
            if m[2] != s.i: W.bad("R04", "wrongdest", "a message for federate %d was delivered to federate %d" % (m[2], s.i))
            rec = (MSG, m[1], t, m[4]) if m[0] == MSG else (ABSENT, m[1], t); s.gotlog[src].append(rec); s.nmsg += 1
            if m[0] == MSG:
                if t <= s.rtag: W.bad("R01", "late", "federate %d received a message with tag %s after it had been granted TAG %s" % (s.i, W.tt(t), W.tt(s.rtag)))
                elif t < s.rptag: W.bad("R01", "lateprov", "federate %d received a message with tag %s after it had been granted PTAG %s" % (s.i, W.tt(t), W.tt(s.rptag)))
                elif t == s.rptag and (src, s.i) not in W.zedge: W.bad("R01", "latestrict", "federate %d received from federate %d, which is on no cycle without delay or connected with a delay, a message with tag %s after PTAG %s" % (s.i, src, W.tt(t), W.tt(s.rptag)))
            W.gotmsg(s.i, m)
        elif m[0] in (STOPREQ, STOPGR): W.stopmsg(s.i, m)
        else: W.bad("*", "unexpected", "federate %d received the unexpected message %s" % (s.i, m)); return
        s.inbox.append(m)
        if not W.deaf: s.hear()
        else: W.counts["messages acted upon late"] += 1
    def hear(s, one=False):
        """Take note of what has been received, in order: until then the federate acts as if it were still under way."""
        while s.inbox:
            m = s.inbox.popleft()
            if m[0] == TAG: s.tag = max(s.tag, m[1])
            elif m[0] == PTAG:
                s.ptag = max(s.ptag, m[1]); now = s.cur if s.cur is not None else s.comp
                if m[1] > now and m[1] not in s.q: s.q.add(m[1]); s.dummy.add(m[1])     # it will be visited, also if a later grant follows at once
            elif m[0] == STOPREQ: s.asked = m[1]
            elif m[0] == STOPGR: s.stop = m[1]
            else:
                src = m[1] // 1000; t = m[3]
                if m[0] == MSG:
                    if t > s.comp and t != s.cur: s.q.add(t); s.dummy.discard(t)
                    elif t == s.cur: s.evt = True
                if t > s.known.get(src, NT): s.known[src] = t
            if one: break

class World:
    """One federation run."""
    def __init__(s, chk, seed, mode, n=None, kind="asan", early=0, stops=0, args=(), split=None, delay=0, start_only=False, padv=0.0):
        s.padv = padv
        s.start_only = start_only; s.delay = delay; s.lazystart = mode == "con"; s.chk = chk; s.seed = seed; s.rng = random.Random(seed); s.mode = mode; s.topo = Topo(s.rng, n); s.viol = {}; s.log = collections.deque(maxlen=400); s.kind = kind; s.early = early; s.stops = stops; s.args = args
        s.F = []; s.H = []; s.lock = threading.RLock(); s.counts = collections.Counter(); s.split = s.rng.choice([0, 0, 0.3, 1.0]) if split is None else split
        s.advertised = [-1] * s.topo.n; s.departed = 0; s.unsure = False; s.failed = False; s.how = ["resign", "failed", "close", "reset"]; s.named = {}; s.asktag = s.final = None; s.grantedstop = {}; s.askedstop = collections.Counter(); s.patterns = set()
    def tt(s, t):
        if t == NT: return "NEVER"
        if t[0] == FOREVER: return "FOREVER"
        return "(%d, %d)" % (t[0] - s.start, t[1])
    def bad(s, pid, key, msg):
        with s.lock: s.viol.setdefault((pid, key), msg)
    def ev(s, *a):
        s.log.append(a)
        if s.mode == "seq":
            if a[0] == "NET": s.model.on_net(a[1], a[2])
            elif a[0] == "LTC": s.model.on_ltc(a[1], a[2])
            elif a[0] == "MSG": s.model.on_msg(a[3], a[2])
            elif a[0] in ("STOPREQ", "STOPREP"):
                if not s.asktag: s.asktag = a[2]
                s.named[a[1]] = a[2]; s.stopfinal()
    def stopfinal(s):
        """Once all connected federates have named a tag, the stop tag is the latest one named."""
        if s.named and not s.final and all(s.H[j].gone or j in s.named for j in range(s.topo.n)):
            s.final = max(s.named.values()); s.model.clip(s.final)
    def after(s, i):
        if s.mode == "seq": s.settle(i)
    def got(s, i, m):
        s.log.append(("TAG" if m[0] == TAG else "PTAG", i, m[1]))
        if s.mode == "seq":
            (s.model.tags if m[0] == TAG else s.model.ptags)[i].append(m[1]); s.counts["TAG" if m[0] == TAG else "PTAG"] += 1
            if not s.model.grant_ok(i, m[1], m[0] == PTAG):
                s.bad("R01", "unsafe", "federate %d was granted %s %s although a message %s can still arrive: %s" % (i, "TAG" if m[0] == TAG else "PTAG", s.tt(m[1]), "before or at that tag" if m[0] == TAG else "before that tag (or at that tag with a delay or from outside all cycles without delay)", s.state()))
            s.patterns.add((m[0], len(s.topo.up[i]), i in s.zdc, m[1] == s.model.net[i], sum(s.model.conn)))
    def gotmsg(s, i, m): pass
    def state(s):
        M = s.model
        return "; ".join("federate %d%s NET %s LTC %s TAG %s PTAG %s%s" % (i, "" if M.conn[i] else " (gone)", "none" if M.net[i] is None else s.tt(M.net[i]), s.tt(M.comp[i]), s.tt(max(M.tags[i] + [NT])), s.tt(max(M.ptags[i] + [NT])), " in transit %s" % [s.tt(x) for x in M.transit[i]] if M.transit[i] else "") for i in range(s.topo.n))
    def settle(s, i=None):
        t = time.time()
        while True:
            if i is not None and not s.H[i].gone: s.ask([i])
            s.ask([j for j in range(s.topo.n) if j != i and not s.H[j].gone])
            if s.mode != "seq": return
            o = s.owing()
            if not o or not s.unsure or time.time() - t > 15: break
            s.counts["waits for the RTI to notice a lost connection"] += 1; time.sleep(0.002)
        for k in o: s.bad(*k)
        for i in range(s.topo.n):
            for src in list(s.H[i].gotlog):
                a, b = s.H[src].sentlog[i] if src < s.topo.n else [], s.H[i].gotlog[src]
                if len(b) and (len(b) > len(a) or b[-1] != a[len(b) - 1]): s.bad("R04", "content", "federate %d received %s; federate %d had sent it %s" % (i, desc(b[-1]), src, desc(a[len(b) - 1]) if len(b) <= len(a) else "nothing more"))
    def ask(s, live):
        """Everything the RTI wrote to these federates before it read an address query has then been received; and the answers are right."""
        q = {j: s.rng.randrange(s.topo.n) for j in live}
        for j in live: s.F[j].query(q[j])
        for j in live:
            for m in s.F[j].barrier(False): s.H[j].receive(m)
            port, ip = s.F[j].adqr; x = q[j]; s.counts["address queries judged"] += 1
            if port != s.advertised[x]: s.bad("R12", "port", "federate %d asked for the port of federate %d and was told %d; that federate had %s" % (j, x, port, "advertised %d" % s.advertised[x] if s.advertised[x] != -1 else "not advertised any"))
            if ip != s.F[x].ip: s.bad("R12", "ip", "federate %d asked for the address of federate %d and was told %s; it connected from %s" % (j, x, socket.inet_ntoa(ip), socket.inet_ntoa(s.F[x].ip)))
    def owing(s):
        """What the RTI should have sent by now and has not."""
        r = []; late = " after the departure of another federate" if s.departed else ""
        for i, k, t in s.model.owed(): r.append(("R10" if s.departed else "R02", "owed", "federate %d was not granted %s %s%s: %s" % (i, "TAG" if k == TAG else "PTAG", s.tt(t), late, s.state())))
        for i in range(s.topo.n):
            if s.asktag and not s.H[i].gone and not s.final and i not in s.named and not s.askedstop[i]: r.append(("R06", "notasked", "federate %d was not asked to stop after another one had requested it%s" % (i, late)))
            if s.final and not s.H[i].gone and i not in s.grantedstop: r.append(("R10" if s.departed else "R06", "notgranted", "federate %d was not told the stop tag although all federates had named theirs%s: %s" % (i, late, {k: s.tt(v) for k, v in s.named.items()})))
        return r
    def crippled(s):
        """Others may wait in vain for what a federate on a cycle without delay has to report after it left: the protocol has no means to tell them (grants that are due are still checked)."""
        return any(H.gone and H.early and i in s.zdc for i, H in enumerate(s.H))
    def check_end(s):
        """Complete deliveries between federates that have not left before their end, and one stop tag."""
        for i in range(s.topo.n):
            for b, _ in s.topo.down[i]:
                a, g = s.H[i].sentlog[b], s.H[b].gotlog[i]
                if s.H[i].unsound: continue
                if s.H[b].early or (s.mode == "con" and s.H[b].gone and s.grantedstop) or all(x[0] == ABSENT for x in a[len(g):]): a = a[:len(g)]
                if a != g: k = next((k for k in range(min(len(a), len(g))) if a[k] != g[k]), min(len(a), len(g))); s.bad("R04", "lost", "federate %d sent %d messages to federate %d, which received %d; number %d was %s, received: %s" % (i, len(a), b, len(g), k, desc(a[k]) if k < len(a) else None, desc(g[k]) if k < len(g) else None))
        if s.mode == "con" and s.grantedstop:
            st = set(s.grantedstop.values()); lo = max([H.named for H in s.H if H.named and not H.early] + [NT]); hi = max([H.named for H in s.H if H.named] + [NT])
            if len(st) > 1 or not lo <= max(st) <= hi: s.bad("R06", "tag", "stop tags %s; the federates named %s" % ({i: s.tt(v) for i, v in s.grantedstop.items()}, {i: s.tt(H.named) for i, H in enumerate(s.H) if H.named}))
    def started(s, i):
        t = s.F[i].expect(TIMESTAMP)[1]
        if t != s.start: s.bad("R05", "start", "federate %d was told the start time %d; the latest proposal was %d (expected %d later)" % (i, t, s.start - START_DELAY, START_DELAY))
    def boot(s):
        topo = s.topo; n = topo.n
        s.rti = Rti(n, kind=s.kind, args=s.args, delay=s.delay); order = list(range(n)); s.rng.shuffle(order)
        s.F = [Fed(s.rti, i, random.Random(s.rng.random())) for i in range(n)]
        for i in order: s.F[i].split = s.split; s.F[i].join(topo.up[i], [b for b, d in topo.down[i]])
        base = s.rng.choice([10**18, 1, 1700000000 * 10**9]); props = [base + s.rng.choice([0, 0, s.rng.randrange(10**9), s.rng.randrange(10**12)]) for _ in range(n)]
        s.rng.shuffle(order)
        for k, i in enumerate(order):
            s.F[i].timestamp(props[i])
            if k < n - 1 and s.rng.random() < 0.3:
                time.sleep(0.01)
                for j in order[:k + 1]:
                    if select.select([s.F[j].k], [], [], 0)[0]: s.bad("R05", "early", "federate %d received an answer before all start times were proposed" % j)
        s.start = max(props) + START_DELAY
        if not s.lazystart:
            for i in range(n): s.started(i)
        s.T = (s.start + s.rng.choice([10, 30, 60]), 0); s.budget = s.rng.choice([5, 20, 60]); s.localbudget = s.rng.choice([10, 40]); s.pmsg = s.rng.choice([0.1, 0.4, 0.8])
        s.model = Model(topo, s.start); s.zdc = zdc(topo, [True] * n); s.zedge = {(a, b) for (a, b), d in topo.edges.items() if d == NEVER and a in s.zdc and a != b}
        s.deaf = s.rng.choice([0, 0, 0.3, 0.8, 0.95]); s.block = [[a for a, d in topo.up[i] if (a, i) in s.zedge] for i in range(n)]
        rank = {e: s.rng.random() for e in s.zedge}
        s.deps = {(a, b): [c for c in s.block[a] if rank[(c, a)] < rank[(a, b)] and s.rng.random() < 0.7] for (a, b) in s.zedge}
        s.H = [Hon(s, i) for i in range(n)]; s.pstop = s.rng.choice([0.01, 0.05, 0.3]); s.pearly = s.rng.choice([0.01, 0.05, 0.3])
    def stopmsg(s, i, m):
        if m[0] == STOPREQ:
            s.askedstop[i] += 1; s.counts["federates asked to stop"] += 1
            if s.askedstop[i] > 1: s.bad("R06", "askedtwice", "federate %d received the stop request twice" % i)
            if s.mode == "seq":
                if i in s.named: s.bad("R06", "askedrequester", "federate %d, which had itself requested the stop, received a stop request" % i)
                if m[1] != s.asktag: s.bad("R06", "askedtag", "federate %d was asked to stop at %s; named so far: %s" % (i, s.tt(m[1]), {k: s.tt(v) for k, v in s.named.items()}))
        else:
            s.counts["stop grants"] += 1
            if i in s.grantedstop: s.bad("R06", "twice", "federate %d was told the stop tag twice" % i)
            s.grantedstop[i] = m[1]; named = {k: s.tt(v) for k, v in s.named.items()}
            if s.mode == "seq":
                if s.final is None: s.bad("R06", "early", "federate %d was told the stop tag %s before all federates had named theirs (%s)" % (i, s.tt(m[1]), named))
                elif m[1] != s.final: s.bad("R06", "tag", "federate %d was told the stop tag %s; the federates named %s" % (i, s.tt(m[1]), named))

def desc(r): return "%s port %d tag %s%s" % ("message" if r[0] == MSG else "absent", r[1], r[2], " of %d bytes (%s)" % (len(r[3]), r[3][:8].hex()) if r[0] == MSG else "")

def sequential(chk, seed, **kw):
    w = World(chk, seed, "seq", **kw)
    try:
        w.boot(); steps = 0; w.settle(); w.counts["starts"] += w.topo.n
        while not w.start_only:
            acts = [(i, a) for i in range(w.topo.n) for a in w.H[i].actions()]
            if not acts and any(H.inbox for H in w.H):
                for H in w.H: H.hear()
                continue
            if not acts: break
            i, a = w.rng.choice(acts); j = w.rng.randrange(w.topo.n)
            if w.stops and w.rng.random() < w.pstop and not w.H[j].gone and not w.H[j].done and not w.H[j].named and not w.H[j].asked: w.stops -= 1; i, a = j, ("stop",)
            elif w.early and w.rng.random() < w.pearly and not w.H[j].gone: w.early -= 1; w.departed += 1; i, a = j, ("depart", w.rng.choice(w.how))
            if w.padv and w.rng.random() < w.padv and not w.H[j].gone: i = j; a = ("advertise",)
            w.H[i].do(a); w.settle(i); steps += 1; w.counts["steps"] += 1
            if steps > 4000: w.bad("R02", "endless", "no end after 4000 steps"); break
            if w.viol: break
        if not w.viol:
            stuck = [] if w.start_only else [i for i in range(w.topo.n) if not w.H[i].done and not w.H[i].gone]
            if stuck and not w.crippled(): w.bad("R10" if w.departed else "R02", "stuck", "federates %s can never advance: %s" % (stuck, w.state()))
            if not stuck: w.check_end()
        if not w.viol: leave(w)
    except (Closed, Timeout, Garbage) as e: w.bad("*", type(e).__name__, "%s" % e)
    finally: finish(w)
    return w

def resign(w, i): depart(w, i, "resign", False)
def depart(w, i, how, early=True):
    f = w.F[i]; H = w.H[i]; H.gone = True; H.early = early; H.unsound = how in ("close", "reset") and w.mode == "con"; w.counts["departures (%s)" % how] += 1
    if how in ("resign", "failed"):
        f.raw(bytes([RESIGN if how == "resign" else FAILED])); w.failed |= how == "failed"
        try: f.k.shutdown(socket.SHUT_WR)
        except OSError: pass
        try:
            while True: H.receive(f.recv())
        except (Closed, ConnectionError): pass
    else:
        w.unsure = True
        if how == "reset" and w.mode == "con":      # a reset may discard what the RTI has not read yet, and so cut a message short
            f.query(i)
            for m in f.barrier(False): H.receive(m)
        if how == "reset": f.k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    f.close(); w.model.conn[i] = False; w.model.net[i] = FT
    if w.mode == "seq": w.stopfinal()

def leave(w):
    order = [i for i in range(w.topo.n) if not w.H[i].gone]; w.rng.shuffle(order)
    for i in order:
        resign(w, i)
        if w.mode == "seq" and w.rng.random() < 0.5: w.settle()
    rc = w.rti.wait(20)
    if rc is None: w.bad("R10", "noexit", "the RTI did not terminate within 20 s although all federates had resigned")
    elif (rc != 0) != w.failed: w.bad("R10", "status", "the RTI terminated with status %s although %s federate reported a failure" % (rc, "a" if w.failed else "no"))

def finish(w):
    for f in w.F: f.close()
    if w.viol:
        if w.rti.p.poll() is None: time.sleep(0.3)
    w.rti.kill(); w.stderr = w.rti.err(); w.stdout = w.rti.out()

def concurrent(chk, seed, **kw):
    """Every federate in a thread of its own, no synchronisation with the RTI: only each federate's own observations are judged."""
    w = World(chk, seed, "con", **kw); w.stamp = time.time(); limit = 20
    def body(i):
        H, f, rng = w.H[i], w.F[i], random.Random("%s:%d" % (seed, i)); idle = time.time(); pace = rng.choice([0, 0, 0.0003, 0.002])
        try:
            w.started(i)
            if w.start_only: return
            while not H.gone and not w.viol:
                for m in f.poll(0): H.receive(m); idle = w.stamp = time.time()
                acts = H.actions()
                if w.stops > 0 and rng.random() < w.pstop and not H.done and not H.named and not H.asked: w.stops -= 1; acts = [("stop",)]
                elif w.early > 0 and rng.random() < w.pearly: w.early -= 1; w.departed += 1; acts = [("depart", rng.choice(w.how))]
                if [a for a in acts if a[0] == "resign"]:
                    if w.stops > 0 and not H.named and not H.asked and rng.random() < 0.2: w.stops -= 1; acts = [("stop",)]
                if not acts and H.inbox: H.hear(); continue
                if acts: H.do(rng.choice(acts)); idle = w.stamp = time.time(); w.counts["steps"] += 1
                else:
                    if time.time() - w.stamp > limit: w.stuck.add(i); return
                    for m in f.poll(0.05): H.receive(m); idle = w.stamp = time.time()
                if pace and rng.random() < 0.3: time.sleep(pace)
        except (Closed, Timeout, Garbage) as e: w.bad("*", type(e).__name__, "%s" % e)
        except Exception as e: w.bad("*", "harness", repr(e)); w.broken = traceback.format_exc()
    w.broken = None; w.stuck = set()
    try:
        w.boot(); w.stamp = time.time(); ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(w.topo.n)]
        for t in ts: t.start()
        for t in ts: t.join()
        if not w.viol:
            if w.stuck and w.crippled(): w.counts["runs given up: a member of a cycle without delay left"] += 1
            elif w.stuck: w.bad("R10" if w.departed else "R02", "stuck", "federates %s can never advance: %s" % (sorted(w.stuck), {i: (w.tt(H.net) if H.net else None, w.tt(H.tag), w.tt(H.ptag), w.tt(H.comp)) for i, H in enumerate(w.H) if not H.gone}))
            else: w.check_end()
        if not w.viol: leave(w)
    except (Closed, Timeout, Garbage) as e: w.bad("*", type(e).__name__, "%s" % e)
    finally: finish(w)
    if w.broken: raise HarnessError(w.broken)
    return w

def forkmap(fn, items, n=8):
    """fn over items in n processes; results must be plain data."""
    import multiprocessing
    with multiprocessing.get_context("fork").Pool(n, maxtasksperchild=200) as p: return p.map(fn, list(items), 1)

class Res: pass
def result(w, label):
    r = Res(); r.label = label; r.seed = w.seed; r.viol = w.viol; r.counts = dict(w.counts); r.stderr = w.stderr; r.stdout = w.stdout[-1500:]; r.topo = w.topo.text(); r.kind = w.topo.kind; r.n = w.topo.n; r.patterns = w.patterns
    r.sig = (label, r.kind, r.n, len(w.zdc) if w.H else -1, w.counts["TAG"] > 0, w.counts["PTAG"] > 0, w.counts["stop grants"] > 0, w.departed, hash(tuple(tuple(e[:2]) for e in w.log)))
    r.sample = "%s; %d steps on the wire, ending %s" % (w.topo.text()[:200], len(w.log), " ".join("%s(%s)" % (e[0], e[1]) for e in list(w.log)[-8:]))
    r.log = [[x if not isinstance(x, tuple) else w.tt(x) for x in e] for e in list(w.log)[-80:]] if w.viol or w.stderr.strip() else []
    return r

def report(chk, pid, r):
    rep = {"seed": r.seed, "scenario": r.label, "topology": r.topo, "log": r.log, "stdout": r.stdout, "stderr": r.stderr[-3000:]}
    chk.sanitizer(r.stderr, rep)
    for (p, k), m in r.viol.items():
        if p == pid or p == "*": chk.violation("%s:%s" % (r.label, k), "[%s] %s; %s" % (r.label, m, r.topo), rep)
        else: chk.count("seen by another check (%s)" % p, 1)
    for k, v in r.counts.items(): chk.count(k, v)
    chk.saw(1, r.sig, r.label + ": " + r.sample)
    for p in r.patterns: chk.saw(0, p)

def one(job):
    label, seed, kw = job; f = sequential if label.startswith("sequential") else concurrent
    return result(f(None, seed, **kw), label)

def coordination(pid, stops, early, base=(1600, 20000), con=(120, 2500), tsan=False, **kw):
    """A sample of federations: synchronised ones judged against the model, free-running ones against each federate's own observations."""
    def f(chk):
        chk.rule = "random topologies of up to 8 scripted federates around the real RTI process; sequential: one step at a time, everything received judged against the model before the next; concurrent: all federates at full speed with delays injected into the RTI. One evaluation = one federation from admission to the RTI's exit; distinct = topology class, kinds of grants, stops and departures, and the order of messages on the wire; plus patterns (kind of grant, number of upstream federates, on a cycle or not, grant equal to the announced event, number of connected federates)"
        jobs = []; q = 0 if chk.quick else 1
        for k in range(base[q]): jobs.append(("sequential", "%s:%s:%d" % (chk.seed, pid, k), dict(kw, stops=stops(k), early=early(k))))
        for k in range(con[q]):
            d = dict(kw, stops=stops(k), early=early(k), kind="tsan" if tsan else "delay", delay=[0, 5, 30, 100][k % 4])
            if k % 2: d["n"] = 3 + k % 4
            jobs.append(("concurrent", "%s:%s:c%d" % (chk.seed, pid, k), d))
        for k in ("asan", "tsan" if tsan else "delay"): binary(k)
        for r in forkmap(one, jobs): report(chk, pid, r)
        return chk.finish()
    return f
no = lambda k: 0
CHECKS = {"R01": coordination("R01", no, no), "R02": coordination("R02", no, no), "R03": coordination("R03", lambda k: k % 3 == 1, lambda k: k % 4 == 1), "R04": coordination("R04", no, lambda k: k % 3 == 1),
          "R05": coordination("R05", no, no, base=(60, 600), con=(60, 600), start_only=True), "R06": coordination("R06", lambda k: 1 + k % 3, lambda k: k % 4 == 1), "R10": coordination("R10", lambda k: int(k % 3 == 1), lambda k: 1 + k % 3)}

# ------------------------------------------------------------------ R09
def tadd(a, b):
    """Tag a followed by the accumulated delay b."""
    if a == NT or b == NT: return NT
    if a[0] == FOREVER or b[0] == FOREVER: return FT
    m = a[1] if b[0] == 0 else 0
    t = a[0] + b[0]
    if t >= FOREVER: return FT
    return (t, FMS if m + b[1] > FMS else m + b[1])
def mindelays(n, E, conn):
    """Bellman-Ford over walks of at least one connection; intermediate federates must be connected."""
    D = [[FT] * n for _ in range(n)]
    for dst in range(n):
        if not conn[dst]: continue
        d = D[dst]; ch = True
        for (a, b, w) in E:
            if b == dst: d[a] = min(d[a], delay((0, 0), w))
        while ch:
            ch = False
            for (a, b, w) in E:
                if d[b] < FT and conn[b]:
                    x = tadd(delay((0, 0), w), d[b])
                    if x < d[a]: d[a] = x; ch = True
    return D
def zerocycles(n, E, conn):
    r = set()
    for i in range(n):
        if not conn[i]: continue
        st = [i]; vis = set()
        while st:
            x = st.pop()
            for (a, b, w) in E:
                if a == x and w == NEVER and conn[b] and b not in vis: vis.add(b); st.append(b)
        if i in vis: r.add(i)
    return r
def R09(chk):
    chk.rule = "random connection graphs of up to 20 nodes with random delays and connection states, recomputed after changes; one evaluation = one table judged against a path oracle; distinct = nodes, edges, nodes on zero-delay cycles, disconnected nodes"
    exe = build("u_rti", [os.path.join(VERIF, "c", "u_rti.c")] + [f for f in rti_sources(REPO) if os.path.basename(f) not in ("main.c", "rti_remote.c", "rti_local.c")], ["STANDALONE_RTI=1", "FEDERATED=1", "PLATFORM_Linux", "RTI_TRACE", "LOG_LEVEL=0"], flags=ASAN, extra_inc=[])
    N = 8000 if chk.quick else 200000
    def batch(k):
        rng = random.Random("%s:R09:%d" % (chk.seed, k)); inp = []; exp = []
        for _ in range(12):
            n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20]); big = rng.random() < 0.1
            pz = rng.choice([0.2, 0.6, 0.95]); E = []
            for e in set((rng.randrange(n), rng.randrange(n)) for _ in range(rng.choice([0, n - 1, n, 2 * n, 3 * n, min(n * n, 60)]))):
                E.append((e[0], e[1], NEVER if rng.random() < pz else rng.choice([0, 0, 1, 2, 3, 10, 10**9] + ([FOREVER - 1, FOREVER // 2, FOREVER // 2 + 1] if big else []))))
            E = [(a, b, 0 if a == b and w == NEVER and rng.random() < 0.7 else w) for a, b, w in E]; rng.shuffle(E)
            inp.append("N %d" % n); inp += ["E %d %d %d" % e for e in E]; conn = [True] * n; net = [(rng.choice([100, 101, 105, 10**6]), rng.choice([0, 0, 1, 7])) for _ in range(n)]
            inp += ["T %d %d %d" % (i, *net[i]) for i in range(n)]
            for step in range(rng.choice([1, 2, 4])):
                if step: i = rng.randrange(n); conn[i] = not conn[i] if rng.random() < 0.2 else False; inp.append("S %d %d" % (i, conn[i]))
                inp.append("Q %d" % rng.randrange(2)); exp.append((n, E, list(conn), list(net)))
            inp.append("X"); exp.append(None)
        r = run([exe], 60, inp=("\n".join(inp) + "\n").encode())
        return k, "\n".join(inp), exp, r
    for k, inp, exp, r in pmap(batch, range(N // 12 + 1)):
        rep = {"stdin": inp[:20000]}
        if chk.sanitizer(r.err, rep): continue
        if r.rc != 0 or r.timeout: chk.violation("exit", "the harness ended with %s (timeout %s): %s" % (r.rc, r.timeout, r.err[-500:]), rep); continue
        L = iter(r.out.splitlines())
        for x in exp:
            if x is None:
                if next(L) != "X": raise HarnessError("R09 protocol")
                continue
            n, E, conn, net = x; D = mindelays(n, E, conn); Z = zerocycles(n, E, conn); txt = "connections %s, connected %s" % ([(a, b, "none" if w == NEVER else w) for a, b, w in E], [i for i in range(n) if conn[i]])
            chk.saw(1, (n, len(E) // 4, len(Z), n - sum(conn), sum(d < FT for row in D for d in row) // 3))
            for i in range(n):
                f = [int(v) for v in next(L).split()]; got = {f[j]: (f[j + 1], f[j + 2]) for j in range(5, len(f), 3)}
                if not conn[i]: continue
                if (len(f) - 5) // 3 != len(got): chk.violation("duplicates", "federate %d: upstream federates listed twice: %s; %s" % (i, f, txt), rep)
                want = {j: d for j, d in enumerate(D[i]) if d < FT}
                a = {j: d for j, d in got.items() if conn[j]}; b = {j: d for j, d in want.items() if conn[j]}
                if a != b: chk.violation("mindelay", "minimum delays to federate %d from upstream %s, expected %s; %s" % (i, a, b, txt), rep)
                if bool(f[1]) != (i in Z): chk.violation("zdc", "federate %d is reported %son a cycle without delay; %s" % (i, "" if f[1] else "not ", txt), rep)
                if bool(f[2]) != (D[i][i] < FT): chk.violation("cycle", "federate %d is reported %son a cycle; %s" % (i, "" if f[2] else "not ", txt), rep)
                if all(conn):
                    t = min([tadd(net[j], d) for j, d in want.items()] + [FT])
                    if (f[3], f[4]) != t: chk.violation("earliest", "earliest incoming message at federate %d: %s, expected %s with next events %s; %s" % (i, f[3:5], t, net, txt), rep)
                chk.count("federates judged", 1); chk.count("minimum delays judged", len(b))
    return chk.finish()
CHECKS["R09"] = R09

# ------------------------------------------------------------------ R07, R08: admission
MISMATCH, INUSE, RANGE, UNEXPECTED, WRONGSERVER, HMACBAD, NOAUTH = 1, 2, 3, 4, 5, 6, 7
class Adm:
    """Result of one admission scenario."""
    def __init__(s): s.viol = {}; s.counts = collections.Counter(); s.sig = set(); s.log = []; s.stderr = s.stdout = ""
    def bad(s, key, msg): s.viol.setdefault(key, msg)
def answer(f, key=b""):
    """What the RTI says to a client: ('ack',), ('reject', reason), ('closed',)."""
    try: m = f.recv(); return ("ack",) if m[0] == ACK else ("reject", m[1]) if m[0] == REJECT else ("message", m[0])
    except (Closed, ConnectionError): return ("closed",)
    except Timeout: return ("nothing",)
    except Garbage as e: return ("garbage", str(e))
def finish_adm(w, rti, feds, rng, late=0, idle=0.0, n=0):
    """All federates have joined: the federation starts, runs, rejects newcomers, and ends."""
    try:
        base = 10**15
        for f in feds: f.timestamp(base + f.id)
        st = {f.expect(TIMESTAMP)[1] for f in feds}
        if st != {base + max(f.id for f in feds) + START_DELAY}: w.bad("start", "start times %s after the admission" % st)
        if idle: time.sleep(idle)
        for k in range(late):
            f = Fed(rti, rng.randrange(n + 1), rng); f.open(); how = rng.randrange(4)
            if idle and k == 0: f.k.settimeout(5)
            if how == 1: f.ids()
            if how == 2: f.raw(b"\x7f")
            a = answer(f); f.close()
            if a[0] == "reject" and a[1] == MISMATCH: w.counts["late connections rejected"] += 1
            elif a[0] == "closed" and how in (1, 2): w.counts["late connections reset"] += 1
            else: w.bad("late%s" % ("idle" if idle else ""), "a connection%s after the federation had started was answered with %s" % (" %.1f s" % idle if idle else "", a))
        for f in feds: f.query(f.id)
        for f in feds: f.barrier(False)
        w.counts["federations completed"] += 1
        for f in feds: f.raw(bytes([RESIGN])); f.k.shutdown(socket.SHUT_WR)
        for f in feds:
            a = answer(f)
            if a != ("closed",): w.bad("resign", "federate %d received %s after resigning" % (f.id, a))
        rc = rti.wait(20)
        if rc != 0: w.bad("end", "the RTI ended with %s after all federates had resigned" % rc)
    except (Closed, Timeout, Garbage, ConnectionError) as e: w.bad("disturbed", "the admitted federates were disturbed: %s" % e)

def admission(job):
    seed, late, idle = job; rng = random.Random(seed); w = Adm(); n = rng.choice([1, 2, 3, 5]); name = rng.choice(["fed", "Unidentified Federation", "a", "x" * 255, "f" * 100, "federation-7f", "äö"])
    rti = Rti(n, fedid=name, kind="asan"); feds = {}; raw = name.encode()
    def other():
        c = [raw[:-1], raw[:1] if len(raw) > 1 else b"b", b"", raw + b"x" if len(raw) < 255 else raw[:-1] + b"\0", raw[:-1] + bytes([raw[-1] ^ 1]), bytes([raw[0] ^ 0x20]) + raw[1:], raw[:-1] + b"\0", (raw + b"\0")[:255] if len(raw) < 255 else b"y", b"\0" * len(raw), b"quite another federation"]
        r = rng.choice([x for x in c if x != raw]); return r
    try:
        for step in range(rng.choice([4, 10, 20]) + n):
            free = [i for i in range(n) if i not in feds]
            if not free: break
            if step >= 20: k = "good"
            else: k = rng.choice(["good", "wrong", "wrong", "range", "used", "first", "vanish", "vanish", "vanish"])
            i = rng.choice(free); f = Fed(rti, i, rng); f.split = rng.choice([0, 0, 1.0])
            if k == "used" and not feds: k = "good"
            if k == "good" and len(free) == 1 and step < 4: k = "wrong"
            f.open(); f.k.settimeout(10); w.counts["connections (%s)" % k] += 1
            if k == "good":
                f.ids(); a = answer(f)
                if a != ("ack",): w.bad("refused", "federate %d of %d, with the right federation id and an id not in use, was answered with %s; %s" % (i, n, a, w.log)); break
                f.structure([], []); f.udp(); feds[i] = f
            elif k == "wrong":
                x = other(); f.raw(struct.pack("<BHB", FED_IDS, i, len(x)) + x); a = answer(f); what = "prefix" if raw.startswith(x) else "other"
                if a != ("reject", MISMATCH): w.bad("wrongid:" + what, "a federate of the federation %r was answered with %s by the RTI of the federation %r" % (x, a, name)); break
                w.sig.add(("wrong", len(x) == len(raw), x[:1] == raw[:1]))
            elif k == "range":
                j = rng.choice([n, n + 1, 65535, 256 * n + n, 32768]); f.ids(i=j); a = answer(f)
                if a != ("reject", RANGE): w.bad("range", "federate %d of %d was answered with %s" % (j, n, a)); break
            elif k == "used":
                j = rng.choice(sorted(feds)); f.ids(i=j); a = answer(f)
                if a != ("reject", INUSE): w.bad("inuse", "a second federate %d was answered with %s" % (j, a)); break
            elif k == "first":
                t = rng.choice([0, 2, 4, 5, 6, 9, 13, 15, 16, 18, 24, 100, 101, 102, 200, 254, 255]); f.raw(bytes([t]) + rng.randbytes(3)); a = answer(f)
                want = WRONGSERVER if t in (16, 18) else NOAUTH if t == NONCE else UNEXPECTED
                if a != ("reject", want): w.bad("first", "a client whose first message has type %d was answered with %s (expected reason %d)" % (t, a, want)); break
                w.sig.add(("first", want))
            else:
                full = struct.pack("<BHB", FED_IDS, i, len(raw)) + raw; st = struct.pack("<Bii", NEIGH, 1, 1) + struct.pack("<Hq", 0, NEVER) + struct.pack("<H", 0); ud = struct.pack("<BH", UDPPORT, 65535); al = full + st + ud
                cut = rng.choice([0, 1, 3, 4, 4 + len(raw) // 2, len(full), len(full), len(full) + 1, len(full) + 5, len(full) + 9, len(full) + 15, len(full) + len(st), len(full) + len(st) + 1]); wait = rng.random() < 0.5
                try: f.raw(al[:cut])
                except Closed: w.bad("refused", "the RTI closed the connection of a legitimate federate while it was joining")
                if cut >= len(full) and wait:
                    a = answer(f)
                    if a != ("ack",): w.bad("refused", "federate %d of %d, with the right federation id and an id not in use, was answered with %s; %s" % (i, n, a, w.log)); break
                if rng.random() < 0.2 and cut >= len(full): # wrong message instead of the next one
                    try: f.raw(b"\x63" * 9)
                    except Closed: pass
                if rng.random() < 0.5: f.k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                w.sig.add(("vanish", min(cut, len(full)) if cut <= 4 else cut - len(full), wait))
                f.close()
            w.log.append((k, i))
            if k != "good": f.close()
            if rti.p.poll() is not None: w.bad("died:%s" % k, "the RTI ended with status %s after %s" % (rti.p.returncode, w.log)); break
        for i in range(n):
            if i in feds or w.viol: continue
            k = "good"; f = feds[i] = Fed(rti, i, rng).open(); f.ids(); a = answer(f)
            if a != ("ack",): w.bad("refused", "federate %d of %d, with the right federation id and an id not in use, was answered with %s; %s" % (i, n, a, w.log)); break
            f.structure([], []); f.udp()
        if not w.viol: finish_adm(w, rti, [feds[i] for i in sorted(feds)], rng, late, idle, n)
    except (Closed, Timeout, Garbage, ConnectionError) as e: w.bad("died:%s" % k, "%s: %s after %s" % (type(e).__name__, e, w.log + [(k, i)]))
    finally:
        for f in feds.values(): f.close()
        if w.viol and rti.p.poll() is None: time.sleep(0.2)
        rti.kill(); w.stderr, w.stdout = rti.err(), rti.out()[-1000:]
    w.seed = seed; return w

def mac(key, data): return hmac.new(key, data, hashlib.sha256).digest()
def authentication(job):
    seed, late, idle = job; rng = random.Random(seed); w = Adm(); n = rng.choice([1, 2, 3]); name = rng.choice(["fed", "secret key", "k", "x" * 255, "f" * 64, "f" * 65]); key = name.encode()
    rti = Rti(n, fedid=name, kind="asan", auth=True, args=["-a"]); feds = {}; nonces = []; old = []
    def shake(f, i, fn):
        f.raw(struct.pack("<BH", NONCE, i) + fn); r = f.read(41)
        if r[0] != RTIRESP: raise Garbage("expected an RTI response, got type %d" % r[0])
        nonces.append(r[1:9])
        if r[9:] != mac(key, bytes([RTIRESP]) + struct.pack("<H", i) + fn): w.bad("rtiproof", "the RTI did not prove that it knows the key")
        return r[1:9], r[9:]
    try:
        for step in range(rng.choice([6, 12, 24]) + n):
            free = [i for i in range(n) if i not in feds]
            if not free: break
            k = "good" if step >= 24 else rng.choice(["good", "key", "replay", "byte", "zero", "reflect", "own", "type", "skip", "cut", "noid", "badid", "first"])
            if k == "good" and len(free) == 1 and step < 6: k = "key"
            if k == "replay" and not old: k = "reflect"
            i = rng.choice(free); f = Fed(rti, i, rng); f.split = rng.choice([0, 0, 1.0]); f.open(); f.k.settimeout(10); w.counts["handshakes (%s)" % k] += 1; fn = rng.randbytes(8) if rng.random() < 0.9 else b"\0" * 8; w.sig.add(k)
            w.log.append((k, i))
            if k == "first":
                t = rng.choice([0, 1, 2, 7, 101, 102, 255]); f.raw(bytes([t]) + rng.randbytes(10)); a = answer(f)
                if a != ("reject", UNEXPECTED): w.bad("first", "a client whose first message has type %d was answered with %s" % (t, a)); break
            elif k == "skip":
                b = struct.pack("<BHB", FED_IDS, i, len(key)) + key; 
                try: f.raw(b + bytes(max(0, 11 - len(b)))); a = answer(f)
                except Closed: a = ("closed",)
                if a[0] not in ("reject", "closed"): w.bad("skip", "a federate that did not authenticate was answered with %s" % (a,)); break
            elif k == "noid":
                f.raw((struct.pack("<BH", NONCE, i) + fn)[:rng.randrange(11)])
            else:
                rn, rm = shake(f, i, fn); good = mac(key, bytes([FEDRESP]) + rn)
                if k == "cut": f.raw((bytes([FEDRESP]) + good)[:rng.randrange(33)])
                else:
                    x = dict(good=good, badid=good, key=mac(rng.choice([key[:-1], key + b"x", key + b"y", b"", b"wrong"]), bytes([FEDRESP]) + rn), byte=None, zero=bytes(32), reflect=rm, own=mac(key, bytes([FEDRESP]) + fn), type=good, replay=rng.choice(old) if old else b"").get(k)
                    if k == "byte": p = rng.choice([0, 1, 7, 15, 30, 31]); x = good[:p] + bytes([good[p] ^ rng.choice([1, 0x80])]) + good[p + 1:]
                    if x == good and k not in ("good", "badid", "type"): continue
                    f.raw(bytes([rng.choice([RTIRESP, 0, FED_IDS, NONCE]) if k == "type" else FEDRESP]) + x)
                    if k in ("good", "badid"):
                        old.append(good)
                        if k == "badid": b = key + b"?" if len(key) < 255 else key[1:]; f.raw(struct.pack("<BHB", FED_IDS, i, len(b)) + b); want = ("reject", MISMATCH)
                        else: f.ids(); want = ("ack",)
                    else: want = ("reject", HMACBAD if k != "type" else UNEXPECTED)
                    a = answer(f)
                    if a != want: w.bad("%s" % k, "a federate whose handshake was '%s' was answered with %s (expected %s)" % (k, a, want)); break
                    if k == "good": f.structure([], []); f.udp(); feds[i] = f
            if k != "good":
                if rng.random() < 0.3: f.k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                f.close()
            if rti.p.poll() is not None: w.bad("died:%s" % k, "the RTI ended with status %s after %s" % (rti.p.returncode, w.log)); break
        w.counts["nonces"] += len(nonces)
        if len(set(nonces)) != len(nonces) or b"\0" * 8 in nonces: w.bad("nonce", "the RTI used a nonce twice or an empty one: %s" % [x.hex() for x in nonces])
        for i in range(n):
            if i in feds or w.viol: continue
            k = "good"; f = feds[i] = Fed(rti, i, rng).open(); rn, rm = shake(f, i, rng.randbytes(8)); f.raw(bytes([FEDRESP]) + mac(key, bytes([FEDRESP]) + rn)); f.ids(); a = answer(f)
            if a != ("ack",): w.bad("good", "a federate whose handshake was 'good' was answered with %s" % (a,)); break
            f.structure([], []); f.udp()
        if not w.viol: finish_adm(w, rti, [feds[i] for i in sorted(feds)], rng, late, idle, n)
    except (Closed, Timeout, Garbage, ConnectionError) as e: w.bad("died:%s" % k, "%s: %s after %s" % (type(e).__name__, e, w.log))
    finally:
        for f in feds.values(): f.close()
        if w.viol and rti.p.poll() is None: time.sleep(0.2)
        rti.kill(); w.stderr, w.stdout = rti.err(), rti.out()[-1000:]
    w.seed = seed; w.nonces = nonces; return w

def admissions(pid, fn, q, t):
    def f(chk):
        chk.rule = "RTI processes to which legitimate and illegitimate clients connect in random order (wrong federation, occupied or invalid ids, wrong first messages, connections vanishing at every byte, late connections; for R08 wrong, replayed, reflected and truncated handshakes); one evaluation = one connection; distinct = kind, position of the defect and segmentation"
        binary("asan", pid == "R08"); N = q if chk.quick else t; jobs = [("%s:%s:%d" % (chk.seed, pid, k), k % 3, 11.5 if pid == "R07" and k < 2 else 0.0) for k in range(N)]
        jobs = [(s, l or int(i > 0), i) for s, l, i in jobs]; seen = set()
        for w in forkmap(fn, jobs):
            rep = {"seed": w.seed, "connections": w.log[-60:], "stdout": w.stdout, "stderr": w.stderr[-3000:]}; chk.sanitizer(w.stderr, rep)
            for k, m in w.viol.items(): chk.violation(k, m, rep)
            for k, v in w.counts.items(): chk.count(k, v)
            for x in getattr(w, "nonces", []):
                if x in seen: chk.violation("nonce", "two RTIs used the same nonce %s" % x.hex(), rep)
                seen.add(x)
            chk.saw(sum(v for k, v in w.counts.items() if "(" in k), w.sig, w.log[-6:])
        return chk.finish()
    return f
CHECKS["R12"] = coordination("R12", lambda k: int(k % 5 == 1), lambda k: int(k % 4 == 1), base=(200, 3000), con=(0, 0), padv=0.3)
CHECKS["R13"] = coordination("R13", lambda k: k % 3, lambda k: k % 4 if k % 2 else 0, base=(60, 1000), con=(120, 1500), tsan=True)
CHECKS["R07"] = admissions("R07", admission, 80, 1500)
CHECKS["R08"] = admissions("R08", authentication, 80, 1500)

# ------------------------------------------------------------------ R11, R14: clock synchronisation, options
def clocksync(job):
    seed, mode = job; rng = random.Random(seed); w = Adm(); n = rng.choice([1, 1, 2, 3]); ex = rng.choice([None, 1, 3, 10, 12]); period = rng.choice([5, 20, 50]) * 10**6
    c = ["-c", mode]
    if mode == "on" and rng.random() < 0.5: c += ["period", str(period)] + (["exchanges-per-interval", str(ex)] if ex else [])
    elif mode == "on": c += (["exchanges-per-interval", str(ex)] if ex else []) + ["period", str(period)]
    elif ex and mode != "off": c += ["exchanges-per-interval", str(ex)]
    if rng.random() < 0.3: c[0] = "--clock_sync"
    name = "fed%d" % rng.randrange(100); rti = Rti(n, fedid=name, kind="asan", args=c, shuffle=rng); ex = ex or 10; now = time.time_ns; feds = []; udps = []; w.log.append(rti.cmd[1:]); w.sig.add((mode, n, ex)); ports = []
    def judge(what, i, lo, t, hi):
        w.counts["timestamps judged"] += 1
        if not lo <= t <= hi: w.bad("truth", "%s for federate %d is %d although it was taken between %d and %d (off by %d ns)" % (what, i, t, lo, hi, t - hi if t > hi else t - lo))
    try:
        for i in range(n):
            f = Fed(rti, i, rng).open(); f.k.settimeout(15); u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); u.bind((socket.inet_ntoa(f.ip), 0)); u.settimeout(0); udps.append(u); feds.append(f)
            port = rng.choice([65535, 0, u.getsockname()[1], u.getsockname()[1], u.getsockname()[1]]) if mode == "on" else rng.choice([65535, 0, 0, u.getsockname()[1]]); ports.append(port)
            f.ids()
            if f.recv()[0] != ACK: w.bad("admission", "federate %d of %d of federation %s was not admitted by the RTI with options %s" % (i, n, name, rti.cmd[1:])); raise Closed("")
            f.structure([], []); lo = now(); f.udp(port)
            if mode != "off" and port != 65535:
                for k in range(ex):
                    m = f.recv()
                    if m[0] != T1: w.bad("order", "federate %d expected a T1 in round %d of %d, got %s" % (i, k, ex, m)); raise Closed("")
                    judge("T1", i, lo, m[1], now())
                    if rng.random() < 0.1: time.sleep(0.02)
                    lo = now(); f.raw(struct.pack("<Bi", T3, i)); m = f.recv()
                    if m[0] != T4: w.bad("order", "federate %d expected a T4 in round %d of %d, got %s" % (i, k, ex, m)); raise Closed("")
                    judge("T4", i, lo, m[1], now()); lo = m[1]; w.counts["initial rounds"] += 1
        base = now() - 2 * 10**9
        for f in feds: f.timestamp(base)
        for f in feds: f.expect(TIMESTAMP)
        part = [i for i in range(n) if mode == "on" and ports[i] not in (0, 65535)]; st = {i: dict(next=T1, lo=now(), last=None, t1=None, rounds=0, drop=0, told=time.time()) for i in part}
        want = rng.choice([6, 15]); t0 = time.time(); drops = rng.choice([0, 0, 1, 2]) if mode == "on" else 0
        quiet = 0.3 if not part else None
        while True:
            if quiet is not None and time.time() - t0 > quiet: break
            if part and all(s["rounds"] >= want for s in st.values()): break
            late = [i for i in part if time.time() - st[i]["told"] > 8 + 2 * n]
            if late: w.bad("stopped", "federate %d has not received a clock synchronisation message for %.1f s (period %.3f s, %d unanswered T1)" % (late[0], time.time() - st[late[0]]["told"], period / 1e9, st[late[0]]["drop"])); break
            for i in range(n):
                m = f = feds[i].poll(0)
                if m: w.bad("tcp", "federate %d received %s over TCP during runtime clock synchronisation" % (i, m))
            r = select.select(udps, [], [], 0.1)[0]
            for u in r:
                i = udps.index(u); b, a = u.recvfrom(100); hi = now()
                if i not in part: w.bad("uninvited", "federate %d, which had given UDP port %d to an RTI with %s, received a datagram of type %d" % (i, ports[i], c, b[0])); continue
                if len(b) != 9 or a[1] != rti.port + 1: w.bad("format", "federate %d received a datagram of %d bytes (type %d) from port %d" % (i, len(b), b[0], a[1])); continue
                s = st[i]; t = struct.unpack("<q", b[1:])[0]; s["told"] = time.time()
                if b[0] != s["next"]: w.bad("order", "federate %d received a datagram of type %d, expected %d" % (i, b[0], s["next"])); continue
                judge({T1: "T1", T4: "T4", PROBE: "the coded probe"}[b[0]], i, s["lo"], t, hi); s["lo"] = t
                if b[0] == T1:
                    if s["t1"] is not None and t - s["t1"] < period: w.bad("period", "two rounds with federate %d were %d ns apart, the period is %d" % (i, t - s["t1"], period))
                    s["t1"] = t
                    if drops and rng.random() < 0.3: drops -= 1; s["drop"] += 1; s["lo"] = now(); w.counts["rounds dropped"] += 1; continue
                    if rng.random() < 0.3:
                        for _ in range(rng.choice([1, 3])):
                            if n > 1 and rng.random() < 0.5: u.sendto(struct.pack("<Bi", T3, (i + 1) % n), ("127.0.0.1", rti.port + 1)); w.counts["replies of the wrong federate"] += 1
                            else: u.sendto(bytes([rng.choice([T1, T4, 77])]) + rng.randbytes(4), ("127.0.0.1", rti.port + 1)); w.counts["unexpected datagrams"] += 1
                        if rng.random() < 0.5: time.sleep(0.01)
                    s["lo"] = now(); u.sendto(struct.pack("<Bi", T3, i), ("127.0.0.1", rti.port + 1)); s["next"] = T4
                elif b[0] == T4: s["next"] = PROBE
                else: s["next"] = T1; s["rounds"] += 1; s["lo"] = now(); w.counts["runtime rounds"] += 1
            if w.viol: break
        if not w.viol:
            for f in feds: f.raw(bytes([RESIGN])); f.k.shutdown(socket.SHUT_WR)
            for f in feds: answer(f)
            rc = rti.wait(20)
            if rc != 0: w.bad("end", "the RTI ended with %s" % rc)
    except (Closed, Timeout, Garbage, ConnectionError) as e:
        if not w.viol: w.bad("lost", "%s: %s" % (type(e).__name__, e))
    finally:
        for f in feds: f.close()
        for u in udps: u.close()
        if w.viol and rti.p.poll() is None: time.sleep(0.2)
        rti.kill(); w.stderr, w.stdout = rti.err(), rti.out()[-1000:]
    w.seed = seed; return w

def badoptions(job):
    seed, _ = job; rng = random.Random(seed); w = Adm(); good = [["-i", "f"], ["-n", "2"]]
    bad = rng.choice([["-n", "0"], ["-n", "-3"], ["-n", "abc"], ["-n"], ["-p", "0"], ["-p", "65535"], ["-p", "70000"], ["-p"], ["-x"], ["nonsense"], ["-c"], ["-c", "sometimes"], ["-i"], ["--nosuch", "1"]])
    port = Port(); L = good + [["-p", str(port.n)]]; rng.shuffle(L); single = len(bad) == 1 and bad[0] in ("-n", "-p", "-c", "-i")
    L = [x for x in L if x[0] != bad[0]]; L.insert(len(L) if single else rng.randrange(len(L) + 1), bad); cmd = [binary("asan")] + sum(L, []); w.log.append(cmd[1:]); w.sig.add(tuple(bad))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=dict(os.environ, **SAN_ENV))
    try: o, e = p.communicate(timeout=3); w.stderr = e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired: p.kill(); p.communicate(); w.bad("accepted:%s" % " ".join(bad), "the RTI runs with the options %s" % cmd[1:])
    else:
        w.counts["invalid command lines rejected"] += 1
        if p.returncode == 0: w.bad("status:%s" % " ".join(bad), "the RTI exits with status 0 for the options %s" % cmd[1:])
        elif p.returncode not in (255, 1, 77): w.bad("died:%s" % " ".join(bad), "the RTI exits with status %s for the options %s" % (p.returncode, cmd[1:]))
    port.free(); w.seed = seed; return w
def option_job(job): return badoptions(job) if job[1] == "bad" else clocksync(job)
def clocks(pid, q, t, modes):
    def f(chk):
        chk.rule = "RTI processes started with random valid (or, for R14, also invalid) options in random order; scripted federates verify on the wire that each option took effect; clock-synchronisation rounds over TCP and UDP with lost, foreign and unexpected datagrams; one evaluation = one RTI process; distinct = mode, federates and exchanges or the invalid option"
        binary("asan"); N = q if chk.quick else t
        jobs = [("%s:%s:%d" % (chk.seed, pid, k), modes[k % len(modes)]) for k in range(N)]; jobs.sort(key=lambda j: j[1] != "on")
        for w in forkmap(option_job, jobs):
            rep = {"seed": w.seed, "options": w.log, "stdout": w.stdout, "stderr": w.stderr[-3000:]}; chk.sanitizer(w.stderr, rep)
            for k, m in w.viol.items():
                if pid == "R14" and k in ("truth", "period", "stopped", "format"): chk.count("seen by R11", 1)
                else: chk.violation(k, "%s; options %s" % (m, w.log[0]), rep)
            for k, v in w.counts.items(): chk.count(k, v)
            chk.saw(1, w.sig, w.log[0])
        return chk.finish()
    return f
CHECKS["R11"] = clocks("R11", 48, 800, ["on", "on", "on", "init"])
CHECKS["R14"] = clocks("R14", 96, 1500, ["on", "init", "off", "init", "off", "bad", "bad"])
