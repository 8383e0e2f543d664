"""F09: a federate among servers and peers that are not its own. The RTI and all other federates are played by the check; the federate is the real one."""
import random, struct, socket, select, hmac, hashlib
from common import *
import prog, rti, fed, chk_rt
from rti import NEVER
from chk_fed import cases
from chk_rt import tier

BASE, SCAN = 15045, 16
FAILED, REJECT, ACK, UDP, IDS, NONCE, RRESP, FRESP, TS, RESIGN, QUERY, QREPLY, ADV, P2PID, NEIGH = 25, 0, 255, 254, 1, 100, 101, 102, 2, 4, 13, 14, 15, 16, 24
class Bad(Exception): pass            # a violation
class Gone(Exception): pass           # the connection has ended
def recv(k, n, t=12):
    b = b""; k.settimeout(t)
    while len(b) < n:
        try: x = k.recv(n - len(b))
        except socket.timeout: raise Bad("silent", "the federate sent %d of %d expected bytes (%s) within %d s" % (len(b), n, b.hex(), t))
        except OSError: raise Gone()
        if not x: raise Gone()
        b += x
    return b
def rest(k, t=4):
    """everything until the other side closes"""
    b = b""; k.settimeout(t)
    try:
        while True:
            x = k.recv(4096)
            if not x: return b
            b += x
    except socket.timeout: return None
    except OSError: return b
def reset(k): k.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); k.close()
def listener(ip, port):
    k = socket.socket(); k.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); k.bind((ip, port)); return k

class Case:
    def __init__(s, chk, i, base, auth):
        s.chk = chk; s.rng = rng = random.Random((chk.seed * 1000003 + i) * 67 + base); s.auth = auth; s.socks = []; s.note = []; ms = 10 ** 6
        g, sim, fs0 = fed.gen(rng, nf=rng.choice([2, 2, 3]), tscale=5 * ms, timeout=(20, 80), nreact=(2, 6))
        s.g = g; fs = fed.split(g, g.fedof, kind=1); s.F = rng.choice([F for F in fs if F.netin or F.snd]); F = s.F
        s.key = "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789-") for _ in range(rng.choice([1, 2, 6, 30, 254, 255])))
        F.lines += ["sta 0"] + ["stp %d" % F.xm[k] for k in F.xm if k < fed.PSEUDO]
        if rng.random() < 0.4: F.lines.append("netdelay %d %d %d" % (30, 300, rng.choice([0, 900])))
    def new(s, k): s.socks.append(k); k.settimeout(12); return k
    def launch(s, addr):
        F, v = s.F, s.v; c = next(chk_rt._ctr); s.pf = "%s/%d.p" % (chk_rt.tmpdir(), c); s.lf = "%s/%d.log" % (chk_rt.tmpdir(), c)
        s.text = F.lp.text() + "\n".join(F.lines) + "\n"; open(s.pf, "w").write(s.text)
        s.args = ["-f", "false", "-k", "true", "-i", s.key, "-o", str(s.g.timeout), "nsec", "-w", "2", "-r", addr]; s.rng.random()
        e = dict(os.environ); e.update(SAN_ENV); e["PROG_LOG"] = s.lf; s.outf, s.errf = rti.tempfile_(), rti.tempfile_()
        s.p = subprocess.Popen([fed.fexe(v), s.pf] + s.args, stdout=s.outf, stderr=s.errf, stdin=subprocess.DEVNULL, env=e, start_new_session=True)
    # ---- the RTI's side of one connection
    def proof(s, kind, who, nonce, key=None): return hmac.new((s.key if key is None else key).encode(), struct.pack("<B", kind) + who + nonce, hashlib.sha256).digest()
    def nonce(s, k):
        b = recv(k, 3 + 8)
        if b[0] != NONCE or struct.unpack("<H", b[1:3])[0] != s.F.id: raise Bad("hello", "with authentication the federate begins with %s" % b.hex())
        if b[3:] in s.nonces: raise Bad("nonce-reuse", "the federate used the nonce %s twice" % b[3:].hex())
        s.nonces.add(b[3:]); return b[3:]
    def ids(s, k):
        b = recv(k, 4); name = recv(k, b[3]); want = s.key.encode()[:255]
        if b[0] != IDS or struct.unpack("<H", b[1:3])[0] != s.F.id or name != want: raise Bad("identification", "federate %d of federation %r identifies itself with %s %r" % (s.F.id, s.key, b.hex(), name))
    def authenticate(s, k):
        n = s.nonce(k); mine = bytes(s.rng.randrange(256) for _ in range(8)); me = struct.pack("<H", s.F.id)
        k.sendall(bytes([RRESP]) + mine + s.proof(RRESP, me, n)); b = recv(k, 33)
        if b[0] != FRESP or b[1:] != s.proof(FRESP, b"", mine): raise Bad("proof", "the federate's proof of knowing the key is wrong: %s" % b.hex())
    def silence(s, k, what):
        r = rest(k)
        if r is None: raise Bad("not-closed", "the federate keeps a connection after %s" % what)
        if r: raise Bad("went-on", "after %s the federate sent %s on the same connection" % (what, r.hex()))
    def impostor(s, k, b):
        """an impostor answers; True if the federate may give up"""
        s.note.append(b); s.chk.count("impostors_" + b)
        try:
            if b == "close": k.close(); return False
            if b == "reset": reset(k); return False
            if b.startswith("auth"): return s.authimpostor(k, b)
            if s.auth: s.authenticate(k)
            s.ids(k)
            if b == "eof": k.close(); return False
            if b == "rst": reset(k); return False
            if b == "mismatch": k.sendall(bytes([REJECT, 1]))
            elif b == "server": k.sendall(bytes([REJECT, 5]))
            elif b == "resign": k.sendall(bytes([RESIGN]))
            elif b == "other": k.sendall(bytes([s.rng.choice([1, 2, 3, 7, 8, 11, 14, 25, 99, 200])]))
            elif b == "refuse": k.sendall(bytes([REJECT, s.rng.choice([2, 3, 4])]))
            s.silence(k, b); return b == "refuse"
        except Gone: return False
        finally: k.close()
    def authimpostor(s, k, b):
        n = s.nonce(k); me = struct.pack("<H", s.F.id); mine = bytes(s.rng.randrange(256) for _ in range(8)); good = s.proof(RRESP, me, n); reply = False; wr = s.rng.choice("key id nonce kind flip zero".split())
        if b == "auth-wrong":
            h = dict(key=s.proof(RRESP, me, n, s.key[:-1] + "#"), id=s.proof(RRESP, struct.pack("<H", s.F.id + 1), n), nonce=s.proof(RRESP, me, mine), kind=s.proof(FRESP, b"", n),
                     flip=good[:31] + bytes([good[31] ^ s.rng.choice([1, 16, 128])]), zero=bytes(32))[wr]
            k.sendall(bytes([RRESP]) + mine + h); reply = True; s.note.append(wr)
        elif b == "auth-cut": k.sendall((bytes([RRESP]) + mine + good)[:s.rng.randrange(1, 41)]); k.shutdown(socket.SHUT_WR)
        elif b == "auth-kind": k.sendall(bytes([s.rng.choice([RRESP ^ 1, FRESP, ACK, 2])]) + mine + good)
        elif b == "auth-none": k.sendall(bytes([REJECT, 7])); k.shutdown(socket.SHUT_WR)
        r = rest(k)
        if r is None: raise Bad("not-closed", "the federate keeps a connection after %s %s" % (b, wr))
        if r[:1] == bytes([FRESP]): raise Bad("gave-away", "the federate proves its knowledge of the key to an impostor (%s %s)" % (b, wr))
        if r not in ((bytes([REJECT, 6]),) if reply else (b"",)): raise Bad("went-on", "after %s %s the federate sent %s" % (b, wr, r.hex()))
        return True
    # ---- the RTI of its own federation
    def join(s, k):
        F = s.F; s.k = k
        try:
            if s.auth: s.authenticate(k)
            s.ids(k); k.sendall(bytes([ACK]))
            b = recv(k, 9); nu, nd = struct.unpack("<ii", b[1:]); u = [struct.unpack("<Hq", recv(k, 10)) for _ in range(nu)]; d = [struct.unpack("<H", recv(k, 2))[0] for _ in range(nd)]
            b = recv(k, 3)
            if b[0] != UDP or struct.unpack("<H", b[1:])[0] != 65535: raise Bad("udp", "with clock synchronisation off the federate reports %s" % b.hex())
            todo = set(F.outp2p)
            while True:
                c = recv(k, 1)[0]
                if c == ADV: s.inbound(struct.unpack("<i", recv(k, 4))[0])
                elif c == QUERY:
                    t = struct.unpack("<H", recv(k, 2))[0]
                    if t not in todo: raise Bad("query", "federate %d asks for the address of federate %d" % (F.id, t))
                    if s.unknown > 0: s.unknown -= 1; k.sendall(struct.pack("<Bi", QREPLY, -1) + socket.inet_aton("0.0.0.0"))
                    else: todo.discard(t); s.outbound(t)
                elif c == TS: t = struct.unpack("<q", recv(k, 8))[0]; break
                else: raise Bad("message", "before the start the federate sends a message of type %d" % c)
            if todo: raise Bad("started-early", "the federate proposes a start time before it has connected to the federates %s" % sorted(todo))
            if F.inp2p and not s.admitted: raise Bad("no-server", "the federate has inbound connections but advertises no address")
        except Gone: raise Bad("gone", "the federate closed the connection to the RTI of its federation before the start")
        s.start = t + 150 * 10 ** 6; k.sendall(struct.pack("<Bq", TS, s.start))
    def inbound(s, port):
        """strangers and then the peers connect to the federate's server"""
        own = s.key.encode(); s.admitted = []; r = s.rng; ids = sorted(s.F.inp2p)
        def con():
            k = s.new(socket.socket()); k.connect(("127.0.0.1", port)); return k
        for peer in ids:
            for _ in range(r.choice([0, 1, 1, 2])):
                b = r.choice("close reset kind other prefix longer empty header name range".split()); s.note.append("stranger-" + b); s.chk.count("strangers"); k = con(); name = own; code = P2PID; who = peer; want = bytes([REJECT, 1])
                if b == "close": k.close(); continue
                if b == "reset": reset(k); continue
                if b == "header": k.sendall(struct.pack("<BH", P2PID, peer)[:r.choice([1, 2, 3])]); k.close(); continue
                if b == "name": k.sendall(struct.pack("<BHB", P2PID, peer, len(own)) + own[:r.randrange(len(own))]); k.close(); continue
                if b == "kind": k.sendall(struct.pack("<BHB", r.choice([0, 1, 4, 17, 18, 100, 255]), peer, len(own))); want = bytes([REJECT, 5])
                else:
                    if b == "other": j = r.randrange(len(own)); name = own[:j] + b"#" + own[j + 1:]
                    elif b == "prefix": name = own[:r.randrange(len(own))]
                    elif b == "longer": name = (own + b"x" * r.choice([1, 5]))[:255]; name = name if name != own else b"?" + own[1:]
                    elif b == "empty": name = b""
                    elif b == "range": who = r.choice([fed.NFED, fed.NFED + 1, 300, 65535]); want = bytes([REJECT, 3])
                    k.sendall(struct.pack("<BHB", P2PID, who, len(name)) + name)
                got = rest(k)
                if got != want: raise Bad("stranger-" + b, "a stranger (%s: type %d, federate %d, federation %r; the federate's is %r) connecting to the federate's server is answered with %s, expected a rejection %s" % (b, code, who, name, s.key, "silence" if got is None else got.hex(), want.hex()))
                k.close()
            k = con(); k.sendall(struct.pack("<BHB", P2PID, peer, len(own)) + own)
            try: a = recv(k, 1)
            except Gone: raise Bad("peer", "the connection of peer %d is closed instead of acknowledged" % peer)
            if a[0] != ACK: raise Bad("peer", "peer %d is answered with %d instead of being acknowledged" % (peer, a[0]))
            s.admitted.append(peer); s.ins.append(k)
    def outbound(s, t):
        ip = "127.%d.%d.%d" % tuple(s.rng.randrange(1, 250) for _ in range(3)); L = s.new(listener(ip, 0)); late = s.rng.random() < 0.3
        if not late: L.listen(5)
        s.k.sendall(struct.pack("<Bi", QREPLY, L.getsockname()[1]) + socket.inet_aton(ip))
        if late: time.sleep(0.3); L.listen(5); s.chk.count("peers_listening_late")
        for n in range(s.rng.choice([0, 0, 1, 2]) + 1, 0, -1):
            try: k, _ = L.accept()
            except socket.timeout: raise Bad("not-connected", "the federate does not connect to federate %d at %s" % (t, ip))
            s.new(k); b = recv(k, 4); name = recv(k, b[3])
            if b[0] != P2PID or struct.unpack("<H", b[1:3])[0] != s.F.id or name != s.key.encode()[:255]: raise Bad("peer-identification", "federate %d of %r identifies itself to a peer with %s %r" % (s.F.id, s.key, b.hex(), name))
            if n > 1: k.sendall(bytes([REJECT, s.rng.choice([1, 5])])); k.close(); s.chk.count("rejected_by_peer")
            else: k.sendall(bytes([ACK])); s.outs.append(k)
        L.close()
    def drain(s):
        """until the federate has left"""
        got = b""; left = False; live = [s.k] + s.outs + s.ins; end = time.time() + 20
        while s.p.poll() is None and time.time() < end:
            if time.time_ns() > s.start + s.g.timeout + 400 * 10 ** 6:
                for k in s.ins: k.close()
                live = [k for k in live if k not in s.ins]; s.ins = []
            if live: r = select.select(live, [], [], 0.02)[0]
            else: r = []; time.sleep(0.02)
            if not r and s.k in live and got.endswith(bytes([RESIGN])): s.k.close(); live.remove(s.k)   # the RTI closes the connection of a federate that has resigned
            for k in r:
                try: x = k.recv(65536)
                except OSError: x = b""
                if k is s.k: got += x
                if not x: k.close(); live.remove(k)
        return got
    def run(s, impostors, scan):
        rng = s.rng; s.nonces = set(); s.unknown = rng.choice([0, 0, 1, 2]); s.ins, s.outs, s.admitted = [], [], []; res = None; gave = False
        s.v = rng.choice("aaaot") + rng.choice(["np", "ge", "ad"]) + "d1" + ("_h" if s.auth else "")
        fed.fexe(s.v); ip = "127.%d.%d.%d" % (rng.randrange(1, 250), rng.randrange(1, 250), 2 + os.getpid() % 250)
        user = rng.choice(["", "", "u@"])
        try:
            if scan:
                # wrong servers at some of the default ports in front of the right one (or nobody)
                good = rng.choice([1, 2, 2, 3]); who = {}
                for j in range(good): who[j] = impostors.pop() if impostors and rng.random() < 0.8 else None
                L = {}
                for j in [j for j in who if who[j]] + [good]: L[j] = s.new(listener(ip, BASE + j)); L[j].listen(8)
                s.launch(user + ip); order = [j for j in range(good + 1) if j in L]
            else:
                p = rng.choice([rng.randrange(2000, 32768), rng.randrange(32768, 61000)]); l = s.new(listener(ip, p)); late = rng.random() < 0.2
                if not late: l.listen(8)
                s.launch(user + "%s:%d" % (ip, p)); order = list(range(len(impostors) + 1)); L = {j: l for j in order}; who = dict(enumerate(impostors)); good = len(impostors)
                if late: time.sleep(0.7); l.listen(8); s.chk.count("rti_started_late")
            for j in order:
                end = time.time() + 15; k = None
                while k is None:
                    r = select.select(sorted(set(L.values()), key=id), [], [], 0.1)[0]
                    if r and L[j] in r: k, _ = L[j].accept()
                    elif r: raise Bad("order", "the federate tries port %d, expected %d" % ([q for q in L if L[q] in r][0] + BASE, j + BASE))
                    elif s.p.poll() is not None: break
                    elif time.time() > end: raise Bad("no-retry", "the federate does not try again after %s" % s.note)
                if k is None:
                    if not gave: raise Bad("gave-up", "the federate exits with %s after %s" % (s.p.returncode, s.note))
                    break
                s.new(k)
                if j == good: s.join(k); s.chk.count("joined")
                else: gave = s.impostor(k, who[j]) or gave
            else: gave = False
            if not gave:
                got = s.drain()
                if not got.endswith(bytes([RESIGN])): res = ("no-resignation", "the federate ended without resigning; it sent %s" % got[-40:].hex())
        except Bad as e: res = e.args
        finally:
            time.sleep(0)
            if hasattr(s, "p"):
                if res is None:
                    try: s.p.wait(10)
                    except subprocess.TimeoutExpired: res = ("hang", "the federate does not end")
                if s.p.poll() is None:
                    try: os.killpg(s.p.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                s.p.wait()
            for k in s.socks:
                try: k.close()
                except OSError: pass
        s.outf.seek(0); s.errf.seek(0); out = s.outf.read().decode("utf-8", "replace"); err = s.errf.read().decode("utf-8", "replace"); s.outf.close(); s.errf.close(); Z = None; ran = 0
        if os.path.exists(s.lf):
            for l in open(s.lf):
                a = l.split()
                if a and a[0] == "E": ran += 1
                if a and a[0] == "Z": Z = [int(x) for x in a[2:]]
            os.unlink(s.lf)
        os.unlink(s.pf)
        rp = dict(variant=s.v, args=s.args, program=s.text, history=s.note)
        if s.chk.sanitizer(err, rp): return False
        for m in re.finditer(r"^MONITOR (\S+) (.*)$", err, re.M): res = res or ("monitor:" + m.group(1), m.group(2))
        if res is None and gave:
            s.chk.count("gave_up")
            if s.p.returncode == 0 or ran: res = ("took-part", "a federate that was refused exits with %s and executed %d reactions" % (s.p.returncode, ran))
        elif res is None and (s.p.returncode or not Z or (Z[1], Z[2]) != (s.g.timeout, 0)): res = ("end", "the federate exits with %s at %s, the timeout is %d" % (s.p.returncode, Z and Z[1:3], s.g.timeout))
        if res:
            if any(x in out + err for x in ("TIMEOUT", "out of memory")) and res[0] == "end": return None
            s.chk.violation(res[0], "%s [%s, federate %d, %s, history %s]\n%s" % (res[1], s.v, s.F.id, " ".join(s.args[-1:]), s.note, (out + err)[-1500:]), rp); return False
        s.chk.count("servers_met", len(order)); s.chk.count("reactions", ran); return True

def join_case(chk, i, base, auth, scan):
    c = Case(chk, i, base, auth); r = c.rng
    plain = ["close", "reset", "eof", "rst", "mismatch", "server", "resign", "other"]
    seq = [r.choice(plain) for _ in range(r.choice([0, 1, 2, 3]))]
    if r.random() < 0.15: seq.append("refuse")
    if auth:
        a = ["auth-wrong", "auth-wrong", "auth-cut", "auth-kind", "auth-none"]
        # an unproven answer on an explicit port is final
        if scan: seq = [x if r.random() < 0.4 and x not in ("close", "reset") else r.choice(a) for x in seq]
        else: seq = [x for x in seq if x not in ("close", "reset")] + ([r.choice(a)] if r.random() < 0.7 else [])
    ok = c.run(seq, scan)
    chk.saw(1, hash((auth, scan, tuple(c.note), c.F.id)), dict(authenticated=auth, history=c.note) if i < 4 else None); return ok

def F09(chk):
    cases(chk, tier(chk, 60, 1500), lambda i: join_case(chk, i, 81, False, False))
    cases(chk, tier(chk, 40, 1000), lambda i: join_case(chk, i, 82, False, True))
    cases(chk, tier(chk, 60, 1500), lambda i: join_case(chk, i, 83, True, False))
    cases(chk, tier(chk, 40, 1000), lambda i: join_case(chk, i, 84, True, True))
    chk.rule = "a real federate of a random program (with and without authentication, given address or default ports) among impostors: servers that close, reset, reject, resign, answer with other messages, or do not know the key; strangers at its peer server; then the RTI and peers of its own federation, all played by the check; one evaluation = one federate; distinct = sequences of encounters"
    return chk.finish()

CHECKS = dict(F09=F09)
