"""U08: traces record every event once and conversion loses none."""
import struct, random, tempfile, shutil, json, collections
from common import *
import chk_rt, prog
from chk_rt import health, order, against, launch, exe
M64 = (1 << 64) - 1
def mix(x):
    x = (x + 0x9e3779b97f4a7c15) & M64; x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64; x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64; return x ^ (x >> 31)
NAMES = ["Reaction starts", "Reaction ends", "Reaction deadline missed", "Schedule called", "User-defined event", "User-defined valued event", "Worker wait starts", "Worker wait ends",
         "Scheduler advancing time starts", "Scheduler advancing time ends"]
def parse(path):
    b = open(path, "rb").read(); o = 0
    start, n = struct.unpack_from("<qi", b, o); o += 12; objs = []
    for _ in range(n):
        p, t, k = struct.unpack_from("<QQi", b, o); o += 20; e = b.index(b"\0", o); objs.append((p, t, k, b[o:e].decode("latin1"))); o = e + 1
    recs = []; blocks = 0
    while o < len(b):
        (m,) = struct.unpack_from("<i", b, o); o += 4; blocks += 1
        for _ in range(m):
            r = struct.unpack_from("<i4xQiiqI4xqQq", b, o); o += 64; recs.append(r)   # type pointer src dst logical microstep physical trigger extra
    return start, objs, recs, blocks
def tools():
    src = lambda n: [REPO + "/util/tracing/" + n, REPO + "/util/tracing/trace_util.c"]
    return [build(n, src(n + ".c"), ["LF_SINGLE_THREADED=1", "_GNU_SOURCE"], extra_inc=[REPO + "/util/tracing"]) for n in ("trace_to_csv", "trace_to_chrome")]
def convert(chk, tl, path, recs, objs, start, replay, tmp):
    dsc = {}; trg = {}
    for p, t, k, d in objs:
        dsc.setdefault(p, d)
        if k == 1: trg.setdefault(t, d)
    r = run([tl[0], path], cwd=tmp, timeout=60)
    if chk.sanitizer(r.err, replay): return
    if r.timeout or r.rc: chk.violation("csv-fails", "trace_to_csv: exit %s %s" % (r.rc, r.err[-500:]), replay); return
    root = os.path.basename(path)[:-4]
    rows = [l.rsplit(", ", 8) for l in open(tmp + "/" + root + ".csv", encoding="latin1").read().splitlines()[1:]]
    want = [[NAMES[q[0]] if q[0] < 10 else None, dsc.get(q[1], "NO REACTOR"), str(q[2]), str(q[3]), str(q[4] - start), str(q[5]), str(q[6] - start), trg.get(q[7], "NO TRIGGER"), str(q[8])] for q in recs]
    if len(rows) != len(want): chk.violation("csv-count", "%d records in the trace, %d rows in the CSV file" % (len(want), len(rows)), replay)
    else:
        for a, w in zip(rows, want):
            if w[0] is None: w[0] = a[0]
            if a != w: chk.violation("csv-row", "record %s was converted to %s" % (w, a), replay); break
    cnt = collections.Counter(w[0] for w in want)
    for l in open(tmp + "/" + root + "_summary.csv", encoding="latin1").read().split("Total Event Occurrences")[1].split("\n\n")[0].splitlines():
        if ", " in l:
            a, b = l.rsplit(", ", 1)
            if cnt.pop(a, None) != int(b): chk.violation("csv-summary", "summary line '%s' disagrees with the trace" % l, replay)
    if cnt: chk.violation("csv-summary", "events missing in the summary: %s" % dict(cnt), replay)
    for opt in ([], ["-p"]):
        if not chrome(chk, [tl[1]] + opt, path, recs, want, dsc, trg, start, replay, tmp, root): return
def chrome(chk, cmd, path, recs, want, dsc, trg, start, replay, tmp, root):
    r = run(cmd + [path], cwd=tmp, timeout=60)
    if chk.sanitizer(r.err, replay): return
    if r.timeout or r.rc: chk.violation("chrome-fails", "trace_to_chrome: exit %s %s" % (r.rc, r.err[-500:]), replay); return
    try: d = json.load(open(tmp + "/" + root + ".json", encoding="latin1"))
    except ValueError as e: chk.violation("chrome-json", "output is not JSON: %s" % e, replay); return
    d = d["traceEvents"] if isinstance(d, dict) else d
    got = [(x["cat"], x["args"].get("physical time"), x["args"].get("microstep"), x["args"].get("value"))
           + ((x["name"], x["ph"] if x["cat"] != NAMES[3] else None, x["ts"]) if x["cat"] in (NAMES[0], NAMES[1], NAMES[3]) else ()) for x in d if x.get("cat") in NAMES]
    w2 = []
    for q, w in zip(recs, want):
        if q[0] > 9 or q[6] < start or q[4] < start: continue
        us = (q[6] - start) // 1000; ext = ()
        if q[0] in (0, 1): ext = (dsc.get(q[1], "NO REACTOR"), "BE"[q[0]], us)
        if q[0] == 3: ext = (trg.get(q[7], "NONE"), None, us if len(cmd) > 1 else (q[4] - start) // 1000 + q[8] // 1000)
        w2.append(((w[0], None, None, q[8]) if q[0] == 5 else (w[0], us, q[5], None)) + ext)
    if got != w2:
        k = next((i for i, (a, b) in enumerate(zip(got, w2)) if a != b), min(len(got), len(w2)))
        chk.violation("chrome-events", "%d events expected, %d converted; first difference %s / %s" % (len(w2), len(got), w2[k:k+1], got[k:k+1]), replay)
    return True
def unit(chk, i, tl):
    rng = random.Random(chk.seed * 31337 + i)
    flags, nm, cc = [(ASAN, "asan", "gcc"), (TSAN, "tsan", "gcc")][i % 3 == 2]
    ex = build("u_trace_" + nm, runtime_sources(REPO, True, trace=False) + g(REPO, "trace/impl/src/*.c") + [VERIF + "/c/u_trace.c", VERIF + "/c/u_stub.c"],
               ["PLATFORM_Linux", "LOG_LEVEL=0", "NUMBER_OF_WORKERS=4", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10"], flags)
    nman = rng.choice([1, 2, 4, 8, 40]); nu = rng.choice([0, 0, 1, 3]); vol = rng.choice([3, 100, 3000, 9000]) if nman < 40 else 1500; nobj = rng.choice([0, 1, 3, 40])
    slack = rng.choice([0, 0, 1, 2, nman - 1]) if nman > 2 else 0   # threads beyond those announced (watchdogs)
    tmp = tempfile.mkdtemp(prefix="u08"); replay = dict(kind="unit", args=[str(chk.seed * 1000 + i), "t", str(nman), str(nu), str(vol), str(nobj), str(slack), str(i % 4 * 7)], build=nm)
    try:
        if i % 10 == 9:   # the file cannot be created
            os.mkdir(tmp + "/t_%d.lft" % (i % 4 * 7))
        r = run([ex] + replay["args"], cwd=tmp, timeout=60)
        if r.timeout: chk.violation("trace-hang", "tracing did not finish within 60 s", replay); return
        chk.sanitizer(r.err, replay)
        if r.rc or "END" not in r.out: chk.violation("trace-fails", "exit %s %s" % (r.rc, r.err[-800:]), replay); return
        if i % 10 == 9: chk.count("unwritable_trace_files"); chk.saw(1, ("unwritable", nman)); return
        th = [l.split()[1:] for l in r.out.splitlines() if l.startswith("THREAD")]
        base = int([l.split()[1] for l in r.out.splitlines() if l.startswith("BASE")][0], 16)
        tot = sum(int(t[2]) for t in th)
        if tot == 0: return
        lft = tmp + "/t_%d.lft" % (i % 4 * 7)
        if not os.path.exists(lft): chk.violation("trace-file", "federate %d of a federation wrote its trace to %s, where its peers of the same name write theirs" % (i % 4 * 7, os.listdir(tmp)), replay); return
        start, objs, recs, blocks = parse(lft)
        per = collections.defaultdict(list)
        for q in recs: per[q[2]].append(q)
        for idx, s, n in ((int(a), int(b), int(c)) for a, b, c in th):
            want = []
            for k in range(n):
                def nx():
                    nonlocal s; s = mix(s); return s
                ty = nx() % 10; p = base + 16 * (nx() % nobj) if nobj else 0
                t = 0
                if nobj and nx() % 3: t = base + 16 * (nx() % nobj) + 1
                want.append((ty, p, idx, nx() % 60, 10**9 + (nx() >> 24), nx() % 5, 10**9 + (nx() >> 24), t, k)); nx()
            got = per.pop(idx, [])
            if got != want:
                k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                chk.violation("trace-records", "thread %d submitted %d records, the trace has %d; first difference at %d: submitted %s, recorded %s" % (idx, len(want), len(got), k, want[k:k+1], got[k:k+1]), replay)
        if per: chk.violation("trace-invented", "records of threads that submitted none: %s" % list(per)[:3], replay)
        chk.count("records", tot); chk.count("blocks", blocks)
        chk.saw(1, (nman, nu, vol, nobj, blocks))
        convert(chk, tl, lft, recs, objs, start, replay, tmp)
        chk.saw(0, None, "%d managed and %d user threads, %d records in %d blocks, %d objects" % (nman, nu, tot, blocks, nobj))
    finally:
        shutil.rmtree(tmp, True)
def program(chk, i, tl):
    rng = random.Random(chk.seed * 7727 + i)
    k = i % 4; v = ("as_r", "anp_r", "age_r", "aad_r", "tnp_r", "tad_r", "tge_r")[i % 7]; fast = True
    if k == 3 and v[1] != "s": p = chk_rt.wd_prog(rng); fast = False
    elif k == 2 and v[1] != "s": p = chk_rt.async_prog(rng, False, "plain", 40); fast = False
    else: p, _ = prog.generate(rng, p_deadline=0.3, p_advclk=0.3, tscale=40, timeout=(60, 900), p_notimeout=0.0); p.clock = (1, 10 ** 18); p.finish()
    if v[0] == "t":
        for wd in p.wds: wd[2][:] = [z for z in wd[2] if z.code != prog.WDSTART]
    tmp = tempfile.mkdtemp(prefix="u08")
    try:
        o = launch(v, p, workers=rng.choice([1, 2, 4]), fast=fast, cwd=tmp, timeout=25)
        if not health(chk, o): return
        start, objs, recs, blocks = parse(tmp + "/main_0.lft")
        addr = {int(a, 16): (b, int(c)) for a, b, c in re.findall(r"^TOBJ (\S+) (\S) (\d+)$", o.r.out, re.M)}
        st = o.Z[6]
        if start != st: chk.violation("trace-start", "start time in the trace %d, of the program %d" % (start, st), o.replay); return
        rid = {(x.reactor, x.number): x.id for x in p.rxs}
        C = collections.Counter
        want = {"starts": C((f[2], f[4], f[5]) for f in o.E), "missed": C((f[2], f[4], f[5]) for f in o.E if f[3] == 1), "user": C((f[2], f[4], f[5]) for f in o.E),
                "schedule": C(f[3] for t, f in o.S if f[4] > 0)}
        want["ends"] = want["starts"]
        got = {a: C() for a in want}; per = collections.defaultdict(list)
        for q in recs:
            if q[0] in (0, 1, 2):
                a = addr.get(q[1])
                if a is None or a[0] != "R" or (a[1], q[3]) not in rid: chk.violation("trace-source", "record %s names no reaction of the program" % (q,), o.replay); return
                got[("starts", "ends", "missed")[q[0]]][(rid[(a[1], q[3])], q[4] - st, q[5])] += 1
                if q[0] < 2: per[q[2]].append((q[0], a, q[3], q[4], q[5], q[6]))
            elif q[0] == 5: got["user"][(q[8], q[4] - st, q[5])] += 1
            elif q[0] == 3 and addr.get(q[7], "?")[0] == "A": got["schedule"][addr[q[7]][1]] += 1
        for a in want:
            if got[a] != want[a]:
                d = sorted(((k, got[a][k], want[a][k]) for k in set(got[a]) | set(want[a]) if got[a][k] != want[a][k]))[:2]
                chk.violation("program-trace:" + a, "%s: (event, times recorded, times happened) %s [%s]" % (a, d, o.v), o.replay); return
        for w, l in per.items():   # one worker's reactions do not interleave and its clock does not run backwards
            stack = []; tm = 0
            for x in l:
                if x[0] == 0: stack.append(x[1:5])
                if x[5] < tm or x[0] == 1 and (not stack or stack.pop() != x[1:5]):
                    chk.violation("program-trace:worker-order", "worker %d: unexpected %s [%s]" % (w, x, o.v), o.replay); return
                tm = x[5]
        chk.count("program_records", len(recs)); chk.count("program_runs"); chk.count("watchdog_fires", sum(1 for k, t, f in o.recs if k == "W" and f[3] == 2))
        chk.saw(1, ("p", i, len(recs)))
        convert(chk, tl, tmp + "/main_0.lft", recs, objs, start, o.replay, tmp)
        txt = open(tmp + "/main_0_summary.csv").read()
        occ = C({(int(a), int(b)): int(c) for a, b, c in re.findall(r"^R(\d+), (\d+), (\d+), ", txt.split("Reaction Executions")[1].split("\n\n")[0], re.M)})
        w = C((p.rxs[f[2]].reactor, p.rxs[f[2]].number) for f in o.E)
        if occ != w: chk.violation("csv-summary-reactions", "executions per reaction in the summary %s, in the run %s" % (sorted(occ.items())[:9], sorted(w.items())[:9]), o.replay)
    finally:
        shutil.rmtree(tmp, True)
def U08(chk):
    tl = tools()
    pmap(lambda i: unit(chk, i, tl), range(60 if chk.quick else 900))
    for v in ("as_r", "anp_r", "age_r", "aad_r", "tnp_r", "tad_r", "tge_r"): exe(v)
    pmap(lambda i: program(chk, i, tl), range(140 if chk.quick else 3000))
    chk.rule = "distinct = (managed threads, user threads, volume, objects, blocks flushed)"
    return chk.finish()
CHECKS = {"U08": U08}
