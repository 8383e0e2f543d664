"""A driver that plays federates against the real RTI over sockets, and an independent model of what the RTI may and must do."""
import socket, struct, random, time, threading, select, collections, itertools
from common import *

NEVER = -1 << 63; FOREVER = (1 << 63) - 1; FMS = (1 << 32) - 1
NT = (NEVER, 0); FT = (FOREVER, FMS)
(REJECT, FED_IDS, TIMESTAMP, RESIGN, MSG, NET, TAG, PTAG, LTC, STOPREQ, STOPREP, STOPGR, ADQ, ADQR, ADAD, T1, T3, T4, PROBE, ABSENT, NEIGH, FAILED, NONCE, RTIRESP, FEDRESP, UDPPORT, ACK) = (
    0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 23, 24, 25, 100, 101, 102, 254, 255)
def delay(t, d):
    if t[0] in (NEVER, FOREVER) or d == NEVER: return t
    if d == 0: return t if t[1] == FMS else (t[0], t[1] + 1)
    return FT if t[0] + d >= FOREVER else (t[0] + d, 0)
def strict(t, d):
    """The last tag before anything sent after t over a connection with delay d can arrive."""
    if t[0] in (NEVER, FOREVER) or d == NEVER: return t
    if d == 0: return delay(t, 0)
    r = delay(t, d)
    return r if r == FT else (r[0] - 1, FMS)
def succ(t): return t if t in (NT, FT) else (t[0], t[1] + 1) if t[1] < FMS else (t[0] + 1, 0)
def etag(t): return struct.pack("<qI", t[0], t[1])

import fcntl
_port = itertools.count(0)
class Port:
    """A TCP port and the UDP port after it, reserved among all runs of these checks."""
    def __init__(s):
        d = os.path.join(CACHE, "ports"); os.makedirs(d, exist_ok=True)
        for a in range(20000):
            p = 16000 + (os.getpid() * 131 + next(_port) * 2) % 16000 & ~1
            f = open(os.path.join(d, str(p)), "w")
            try: fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError: f.close(); continue
            ok = 1
            for q, ty in ((p, socket.SOCK_STREAM), (p + 1, socket.SOCK_DGRAM)):
                k = socket.socket(socket.AF_INET, ty)
                if a >= 200 and ty == socket.SOCK_STREAM: k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)   # the RTI does so too; otherwise earlier runs' connections, only waiting to expire, may occupy every port
                try: k.bind(("0.0.0.0", q))
                except OSError: ok = 0
                finally: k.close()
            if ok: s.n, s.f = p, f; return
            f.close()
        raise HarnessError("no free port")
    def free(s): s.f.close()

def binary(kind="asan", auth=False):
    d = ["STANDALONE_RTI=1", "FEDERATED=1", "PLATFORM_Linux", "RTI_TRACE", "LOG_LEVEL=0", "_LF_CLOCK_SYNC_ON" if 0 else "RTI_BUILD"]
    ld = []
    if auth: d.append("__RTI_AUTH__"); ld = ["-lssl", "-lcrypto"]
    src = rti_sources(REPO)
    if kind == "delay": src = src + [os.path.join(VERIF, "c", "r_delay.c")]; ld = ld + wraps("pthread_mutex_lock", "pthread_cond_wait", "write", "read")
    flags = dict(asan=ASAN, delay=ASAN, tsan=TSAN, opt=["-O2", "-g"])[kind]
    return build("rti_%s%s" % (kind, "_auth" if auth else ""), src, d, flags=flags, ld=ld, cc="clang" if kind == "tsan" else "gcc")

class Closed(Exception): pass
class Rti:
    def __init__(s, n, fedid="fed", kind="asan", args=(), auth=False, cwd=None, delay=0, shuffle=None):
        s.rport = Port(); s.port = s.rport.n; s.fedid = fedid; s.n = n
        e = dict(os.environ); e.update(SAN_ENV); e["R_DELAY"] = str(delay); e["R_SEED"] = str(s.port)
        L = [["-i", fedid], ["-n", str(n)], ["-p", str(s.port)], list(args)]
        if shuffle:
            shuffle.shuffle(L); L = [[dict(zip(("-i", "-n", "-p"), ("--id", "--number_of_federates", "--port"))).get(x, x) if shuffle.random() < 0.3 else x for x in l] for l in L]
        s.cmd = [binary(kind, auth)] + sum(L, [])
        s.errf = tempfile_(); s.outf = tempfile_()
        s.p = subprocess.Popen(s.cmd, stdout=s.outf, stderr=s.errf, stdin=subprocess.DEVNULL, env=e, cwd=cwd, start_new_session=True)
    def connect(s, timeout=20, source=None):
        t = time.time()
        while True:
            k = socket.socket(); k.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if source: k.bind((source, 0))
            try: k.connect(("127.0.0.1", s.port)); return k
            except OSError:
                k.close()
                if s.p.poll() is not None: raise Closed("RTI exited with %s" % s.p.returncode)
                if time.time() - t > timeout: raise HarnessError("cannot connect to the RTI")
                time.sleep(0.005)
    def alive(s): return s.p.poll() is None
    def wait(s, t=10):
        try: s.p.wait(t); return s.p.returncode
        except subprocess.TimeoutExpired: return None
    def kill(s):
        s.hung = s.p.poll() is None
        if s.hung:
            try: os.killpg(s.p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
        s.p.wait(); s.rport.free()
    def err(s):
        s.errf.seek(0); return s.errf.read().decode("utf-8", "replace")
    def out(s):
        s.outf.seek(0); return s.outf.read().decode("utf-8", "replace")
def tempfile_():
    import tempfile
    return tempfile.TemporaryFile()

class Fed:
    """One federate's connection: sending, parsing, and the record of everything received."""
    def __init__(s, rti, i, rng=None):
        s.rti = rti; s.id = i; s.buf = b""; s.seen = []; s.new = []; s.closed = False; s.rng = rng or random.Random(i); s.split = 0.0; s.lock = threading.Lock(); s.sent = []
    def open(s): a = "127.0.%d.%d" % (s.rng.randrange(3), 1 + s.rng.randrange(250)); s.ip = socket.inet_aton(a); s.k = s.rti.connect(source=a); s.k.settimeout(20); return s
    def raw(s, b):
        try:
            if s.split and len(b) > 1 and s.rng.random() < s.split:
                i = 0
                while i < len(b):
                    n = s.rng.choice([1, 1, 2, 3, 7, 20, 255, 256, 300, 4096]); s.k.sendall(b[i:i + n]); i += n
                    if s.rng.random() < 0.2: time.sleep(s.rng.choice([0, 0.0002]))
            else: s.k.sendall(b)
        except (BrokenPipeError, ConnectionResetError): s.closed = True; raise Closed("connection of federate %d was closed" % s.id)
    def read(s, n):
        while len(s.buf) < n:
            try: d = s.k.recv(65536)
            except (ConnectionResetError, BrokenPipeError): d = b""
            except socket.timeout: raise Timeout("federate %d waits for %d bytes" % (s.id, n))
            if not d: s.closed = True; raise Closed("connection of federate %d was closed" % s.id)
            s.buf += d
        r, s.buf = s.buf[:n], s.buf[n:]; return r
    def recv(s):
        c = s.read(1)[0]
        if c in (TAG, PTAG, STOPREQ, STOPGR): m = (c, struct.unpack("<qI", s.read(12)))
        elif c == MSG:
            p, f, l, t, ms = struct.unpack("<HHIqI", s.read(20)); m = (c, p, f, (t, ms), s.read(l))
        elif c == ABSENT:
            p, f, t, ms = struct.unpack("<HHqI", s.read(16)); m = (c, p, f, (t, ms))
        elif c == ADQR: m = (c, struct.unpack("<i", s.read(4))[0], s.read(4))
        elif c in (TIMESTAMP, T1, T4, PROBE): m = (c, struct.unpack("<q", s.read(8))[0])
        elif c == REJECT: m = (c, s.read(1)[0])
        elif c in (ACK, FAILED): m = (c,)
        else: raise Garbage("federate %d received the unknown message type %d, followed by %r (after %s)" % (s.id, c, s.buf[:40], s.seen[-3:]))
        s.seen.append(m); return m
    def expect(s, c):
        m = s.recv()
        if m[0] != c: raise Garbage("federate %d expected message type %d, got %s" % (s.id, c, m))
        return m
    def ids(s, name=None, i=None):
        name = (s.rti.fedid if name is None else name).encode(); s.raw(struct.pack("<BHB", FED_IDS, s.id if i is None else i, len(name)) + name)
    def structure(s, up, down):
        b = struct.pack("<Bii", NEIGH, len(up), len(down))
        for u, d in up: b += struct.pack("<Hq", u, d)
        for x in down: b += struct.pack("<H", x)
        s.raw(b)
    def udp(s, port=0xFFFF): s.raw(struct.pack("<BH", UDPPORT, port))
    def join(s, up, down):
        s.open(); s.ids(); s.expect(ACK); s.structure(up, down); s.udp(); return s
    def timestamp(s, t): s.raw(struct.pack("<Bq", TIMESTAMP, t))
    def tagmsg(s, c, t): s.raw(struct.pack("<B", c) + etag(t))
    def msg(s, port, dst, t, payload): s.raw(struct.pack("<BHHIqI", MSG, port, dst, len(payload), t[0], t[1]) + payload)
    def absent(s, port, dst, t): s.raw(struct.pack("<BHHqI", ABSENT, port, dst, t[0], t[1]))
    def query(s, i): s.raw(struct.pack("<BH", ADQ, i))
    def barrier(s, send=True):
        """Everything the RTI wrote to this federate before it read the query has been received afterwards."""
        if send: s.query(s.id)
        r = []
        while True:
            m = s.recv()
            if m[0] == ADQR: s.adqr = m[1:]; return r
            r.append(m)
    def poll(s, t=0.0):
        r = []
        while True:
            if not s.buf and not select.select([s.k], [], [], t)[0]: return r
            r.append(s.recv()); t = 0.0
    def close(s):
        try: s.k.close()
        except OSError: pass
class Timeout(Exception): pass
class Garbage(Exception): pass

# ------------------------------------------------------------------ topologies
class Topo:
    def __init__(s, rng, n=None, pz=None):
        s.n = n = n or rng.choice([1, 2, 2, 3, 3, 4, 5, 6]); s.edges = {}
        pz = rng.choice([0.2, 0.5, 0.9]) if pz is None else pz
        dl = lambda: NEVER if rng.random() < pz else rng.choice([0, 0, 1, 2, 5, 10, 30])
        k = rng.choice(["chain", "random", "random", "ring", "dag", "star", "tworings"])
        E = set()
        if k == "chain": E = {(i, i + 1) for i in range(n - 1)}
        if k == "ring": E = {(i, (i + 1) % n) for i in range(n)} if n > 1 else set()
        if k == "tworings": E = {(i, (i + 1) % n) for i in range(n)} | {((i + 1) % n, i) for i in range(n)} if n > 1 else set()
        if k == "star": E = {(0, i) for i in range(1, n)} | {(i, 0) for i in range(1, n) if rng.random() < 0.5}
        if k == "dag": E = {(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < 0.5}
        if k in ("random", "ring", "chain") and n > 1:
            for _ in range(rng.randint(0, n + 1 if k != "random" else 2 * n)):
                a, b = rng.randrange(n), rng.randrange(n)
                if a != b or rng.random() < 0.15: E.add((a, b))
        for e in E: s.edges[e] = dl()
        for (a, b) in list(s.edges):
            if a == b and s.edges[(a, b)] == NEVER: s.edges[(a, b)] = 0
        s.kind = k
        s.index()
    def index(s):
        s.up = [sorted((a, d) for (a, b), d in s.edges.items() if b == i) for i in range(s.n)]
        s.down = [sorted((b, d) for (a, b), d in s.edges.items() if a == i) for i in range(s.n)]
    def text(s): return "%d federates, connections (from, to, delay): %s" % (s.n, sorted((a, b, "none" if d == NEVER else d) for (a, b), d in s.edges.items()))

def zdc(topo, conn):
    """Federates on a cycle of connections without delay (through connected federates)."""
    r = set(); n = topo.n
    for i in range(n):
        if not conn[i]: continue
        st = [b for b, d in topo.down[i] if d == NEVER and conn[b]]; vis = set(st)
        while st:
            x = st.pop()
            if x == i: r.add(i); break
            for b, d in topo.down[x]:
                if d == NEVER and conn[b] and b not in vis: vis.add(b); st.append(b)
    return r

class Model:
    """What the RTI has been told, and what follows from it."""
    def __init__(s, topo, start):
        n = topo.n; s.t = topo; s.start = start
        s.net = [None] * n; s.comp = [NT] * n; s.conn = [True] * n; s.transit = [[] for _ in range(n)]; s.tags = [[] for _ in range(n)]; s.ptags = [[] for _ in range(n)]
        s.stop = None; s.clipped = set()
    def neteff(s, u, conservative=True):
        if not s.conn[u]: return FT
        return (s.start, 0) if s.net[u] is None else s.net[u] if s.net[u] > s.comp[u] or s.comp[u] == NT else succ(s.comp[u])     # what has been completed is over, also if no next event is known
    def clip(s, t):
        s.stop = t
        for i in range(s.t.n):
            if s.conn[i] and s.net[i] is not None and s.net[i] > t: s.net[i] = t; s.clipped.add(i)
    def on_net(s, i, t): s.clipped.discard(i); s.net[i] = min([t] + s.transit[i])
    def on_msg(s, dst, t):
        if not s.conn[dst]: return
        if s.comp[dst] < t and t not in s.transit[dst]: s.transit[dst].append(t)
        if s.net[dst] is not None and t < s.net[dst]: s.net[dst] = min(s.transit[dst] + [t])
    def on_ltc(s, i, t): s.comp[i] = t; s.transit[i] = [x for x in s.transit[i] if x > t]
    def earliest(s, completed):
        """Earliest tag at which each federate can still act, then the earliest tag at which a message can arrive at each."""
        n = s.t.n; m = [s.neteff(i) for i in range(n)]
        lim = [succ(s.comp[i]) if completed and s.conn[i] and s.comp[i] != NT else NT for i in range(n)]
        m = [max(a, b) for a, b in zip(m, lim)]
        ch = True
        while ch:
            ch = False
            for (a, b), d in s.t.edges.items():
                if not s.conn[a] or not s.conn[b]: continue
                x = max(delay(m[a], d), lim[b])
                if x < m[b]: m[b] = x; ch = True
        arr = [min([delay(m[a], d) for a, d in s.t.up[i] if s.conn[a]] + [FT]) for i in range(n)]
        return m, arr
    def grant_ok(s, i, t, prov):
        m, arr = s.earliest(True)
        if not prov: return arr[i] > t or t == FT == arr[i]
        z = zdc(s.t, [True] * s.t.n)          # the federate will wait for what can arrive without delay from federates on such cycles, and for nothing else
        return arr[i] >= t and all(delay(m[a], d) > t for a, d in s.t.up[i] if s.conn[a] and (d != NEVER or a not in z))
    def owed(s):
        """Grants that must have been sent: (federate, kind, tag)."""
        r = []; m, arr = s.earliest(False); z = zdc(s.t, s.conn)
        for i in range(s.t.n):
            if not s.conn[i] or s.net[i] is None or not s.t.up[i] or i in s.clipped: continue
            n = s.net[i]; g = max(s.tags[i] + [NT]); p = max(s.ptags[i] + [NT])
            if g >= n or s.comp[i] >= n: continue
            c = min([strict(s.comp[a], d) for a, d in s.t.up[i] if s.conn[a]] + [FT])
            if c >= n or arr[i] > n: 
                if n >= p: r.append((i, TAG, n))
            elif arr[i] == n and i in z and p < n:
                st = min([delay(min(s.neteff(a), arr[a]), d) for a, d in s.t.up[i] if s.conn[a] and (a not in z or d != NEVER)] + [FT])
                if st > n: r.append((i, PTAG, n))
        return r

# ------------------------------------------------------------------ a recording proxy between federates and the RTI
NAMES = {REJECT: "REJECT", FED_IDS: "FED_IDS", TIMESTAMP: "TIMESTAMP", RESIGN: "RESIGN", MSG: "MSG", NET: "NET", TAG: "TAG", PTAG: "PTAG", LTC: "LTC", STOPREQ: "STOPREQ", STOPREP: "STOPREP", STOPGR: "STOPGR", ADQ: "ADQ", ADQR: "ADQR", ADAD: "ADAD", T1: "T1", T3: "T3", T4: "T4", PROBE: "PROBE", ABSENT: "ABSENT", NEIGH: "NEIGH", FAILED: "FAILED", UDPPORT: "UDPPORT", ACK: "ACK"}
def frame(b, up):
    """Length of the first message in b (0: incomplete) and its meaning. up: sent by a federate."""
    c = b[0]; n = len(b); u = struct.unpack_from
    def fix(k, f): return (0, None) if n < k else (k, (c,) + f())
    if c in (RESIGN, FAILED, ACK): return 1, (c,)
    if c == FED_IDS:
        if n < 4 or n < 4 + b[3]: return 0, None
        return 4 + b[3], (c, u("<H", b, 1)[0])
    if c == NEIGH:
        if n < 9: return 0, None
        a, d = u("<ii", b, 1); k = 9 + 10 * a + 2 * d
        return fix(k, lambda: (a, d))
    if c in (UDPPORT, ADQ): return fix(3, lambda: u("<H", b, 1))
    if c == REJECT: return fix(2, lambda: (b[1],))
    if c in (TIMESTAMP, T1, T4, PROBE): return fix(9, lambda: u("<q", b, 1))
    if c == T3: return fix(5, lambda: u("<i", b, 1))
    if c == ADQR: return fix(9, lambda: u("<i", b, 1))
    if c in (NET, LTC, TAG, PTAG, STOPREQ, STOPREP, STOPGR): return fix(13, lambda: (u("<qI", b, 1),))
    if c == ABSENT: return fix(17, lambda: (u("<H", b, 1)[0], u("<H", b, 3)[0], u("<qI", b, 5)))
    if c == ADAD:
        return fix(5, lambda: u("<i", b, 1))
    if c == MSG:
        if n < 21: return 0, None
        p, f, l = u("<HHI", b, 1); return fix(21 + l, lambda: (p, f, u("<qI", b, 9), bytes(b[21:21 + l])))
    return -1, (c,)
class Proxy:
    """Forwards everything between federates and the RTI, recording each message in the order in which it passed (log: [(federate, up, message)]).
    hold(fed, up, msg, rng) may return a delay in seconds for a message (order within a connection is kept)."""
    def __init__(s, rti, hold=None, rng=None):
        s.rti = rti; s.hold = hold; s.rng = rng or random.Random(1); s.log = []; s.bad = []; 
        for attempt in range(50):
            s.rport = Port(); s.port = s.rport.n
            s.l = socket.socket(); s.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try: s.l.bind(("127.0.0.1", s.port)); break
            except OSError: s.l.close(); s.rport.free()
        else: raise HarnessError("no port for the proxy")
        s.l.listen(64); s.l.setblocking(False)
        s.stop = False; s.t = threading.Thread(target=s.loop, daemon=True); s.t.start()
    def loop(s):
        """One thread forwards everything, so the log is a linearization of what the RTI and the federates exchanged."""
        pr = []          # [sock from, sock to, buffer, up, conn, queue of (due, bytes, msg)]
        p = select.poll(); p.register(s.l, select.POLLIN); byfd = {}
        def add(a, b, up, conn):
            e = dict(a=a, b=b, buf=bytearray(), up=up, conn=conn, q=collections.deque(), eof=False); pr.append(e); byfd[a.fileno()] = e; p.register(a, select.POLLIN)
        def flush(now):
            nxt = None
            for e in pr:
                while e["q"] and e["q"][0][0] <= now:
                    due, data, m = e["q"].popleft()
                    if m is not None: s.log.append((e["conn"]["id"], e["up"], m))
                    if data is None:
                        try: e["b"].shutdown(socket.SHUT_WR)
                        except OSError: pass
                        continue
                    try: e["b"].setblocking(True); e["b"].sendall(data)
                    except OSError: pass
                if e["q"]: nxt = e["q"][0][0] if nxt is None else min(nxt, e["q"][0][0])
            return nxt
        while not s.stop:
            now = time.monotonic(); nxt = flush(now)
            for fd, ev in p.poll(20 if nxt is None else max(0, min(20, (nxt - now) * 1000))):
                if fd == s.l.fileno():
                    try: a, _ = s.l.accept()
                    except OSError: continue
                    try: b = s.rti.connect()
                    except (Closed, HarnessError): a.close(); continue
                    a.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); conn = dict(id=-1)
                    add(a, b, True, conn); add(b, a, False, conn); continue
                e = byfd.get(fd)
                if e is None: continue
                try: d = e["a"].recv(65536)
                except OSError: d = b""
                now = time.monotonic(); last = e["q"][-1][0] if e["q"] else now
                if not d:
                    p.unregister(fd); byfd.pop(fd, None)
                    if e["buf"]: s.bad.append((e["conn"]["id"], e["up"], bytes(e["buf"][:40]))); e["q"].append((last, bytes(e["buf"]), None))
                    e["q"].append((last, None, ("EOF",))); continue
                e["buf"] += d
                while e["buf"]:
                    n, m = frame(e["buf"], e["up"])
                    if n < 0: s.bad.append((e["conn"]["id"], e["up"], bytes(e["buf"][:40]))); n = len(e["buf"]); m = ("BAD",)
                    if n == 0: break
                    if m[0] == FED_IDS and e["up"]: e["conn"]["id"] = m[1]
                    raw = bytes(e["buf"][:n]); del e["buf"][:n]
                    h = s.hold(e["conn"]["id"], e["up"], m, s.rng) if s.hold else 0
                    last = max(last, time.monotonic() + (h or 0)); e["q"].append((last, raw, m))
        flush(float("inf"))
        for e in pr: e["a"].close()
    def close(s):
        s.stop = True; s.t.join(5); s.l.close(); s.rport.free()
    def text(s, start=0, lo=0, hi=None):
        def tg(t): return "(%s,%d)" % ("NEVER" if t[0] == NEVER else "FOREVER" if t[0] == FOREVER else t[0] - start, t[1])
        return "\n".join("%s%d %s %s" % (">" if u else "<", f, NAMES.get(m[0], m[0]), " ".join(tg(x) if isinstance(x, tuple) else x[:8].hex() if isinstance(x, bytes) else str(x) for x in m[1:])) for f, u, m in s.log[lo:hi])
