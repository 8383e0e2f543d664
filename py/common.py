"""Shared machinery: building reactor-c from its working tree with our own
flags, running cases, known findings, verdicts and evidence."""
import os, sys, json, glob, hashlib, subprocess, threading, time, re, shutil, signal, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

class HarnessError(Exception):
    pass

# ----------------------------------------------------------------- building
ASAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=shift-base"]
TSAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"]
PLAIN = ["-O1", "-g"]

def inc_dirs(repo):
    out = []
    for base in ("include", "low_level_platform/api", "platform/api", "trace/api", "trace/impl/include", "version/api",
                 "logging/api", "tag/api", "core/federated/RTI", "util"):
        b = os.path.join(repo, base)
        if not os.path.isdir(b):
            continue
        out.append(b)
        if base in ("include", "trace/api"):
            for d, subs, files in os.walk(b):
                if d != b and any(f.endswith(".h") for f in files) and os.path.basename(d) not in ("impl",):
                    out.append(d)
    return out

_hdr_hash = {}
def tree_hdr_hash(repo):
    if repo in _hdr_hash:
        return _hdr_hash[repo]
    h = hashlib.sha256()
    fs = []
    for base in ("include", "low_level_platform", "platform", "trace", "version", "logging", "tag", "core", "util", "lib"):
        for d, subs, files in os.walk(os.path.join(repo, base)):
            subs[:] = [s for s in subs if s not in ("build", "lib") or base == "lib"]
            for f in files:
                if f.endswith((".h", ".inc")):
                    fs.append(os.path.join(d, f))
    for d in (os.path.join(VERIF, "c"),):
        for f in os.listdir(d):
            if f.endswith(".h"):
                fs.append(os.path.join(d, f))
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    _hdr_hash[repo] = h.hexdigest()
    return _hdr_hash[repo]

def g(repo, *pats):
    out = []
    for p in pats:
        m = sorted(glob.glob(os.path.join(repo, p)))
        out += [x for x in m if x not in out]
    return out

PLATFORM_SRCS = ("platform/impl/*.c", "low_level_platform/impl/src/lf_linux_support.c", "low_level_platform/impl/src/lf_unix_clock_support.c",
                 "low_level_platform/impl/src/lf_atomic_gcc_clang.c", "low_level_platform/impl/src/lf_platform_util.c")

def runtime_sources(repo, threaded, modal=False, trace=False, federated=False):
    s = g(repo, "core/tag.c", "core/*.c", "core/utils/*.c", "core/utils/hashset/*.c", "lib/schedule.c", *PLATFORM_SRCS)
    rm = ["core/reactor.c"] if threaded else []
    if not trace:
        rm.append("core/tracepoint.c")
    if threaded:
        s += g(repo, "core/threaded/*.c")
    if modal:
        s += g(repo, "core/modal_models/*.c")
    if trace:
        s += g(repo, "trace/impl/src/*.c")
    if federated:
        s += g(repo, "core/federated/*.c", "core/federated/network/*.c")
    return [x for x in s if os.path.relpath(x, repo) not in rm]

def rti_sources(repo):
    return g(repo, "core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c", "core/federated/RTI/main.c", "core/tracepoint.c", "core/clock.c",
             "core/tag.c", "core/utils/util.c", "core/utils/pqueue*.c", "core/federated/network/net_util.c",
             "trace/impl/src/trace_impl.c", *PLATFORM_SRCS)

_sem = threading.BoundedSemaphore(JOBS)
def _cc(args):
    cc, src, obj, flags, cwd = args
    with _sem:
        if os.path.exists(obj):
            return None
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = subprocess.run([cc, "-c", src, "-o", tmp] + flags, capture_output=True, text=True)
        if r.returncode != 0:
            return "%s: %s" % (src, r.stderr[-3000:])
        os.replace(tmp, obj)
        return None

def build(name, sources, defs=(), flags=ASAN, cc="gcc", ld=(), extra_inc=(), repo=None):
    """Compile `sources` (absolute paths) and link to an executable; returns its path. Content-addressed cache."""
    repo = repo or REPO
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    incs = ["-I" + d for d in inc_dirs(repo)] + ["-I" + os.path.join(VERIF, "c")] + ["-I" + d for d in extra_inc]
    fl = list(flags) + ["-D" + d for d in defs] + incs + ["-w", "-std=gnu11"]
    hh = tree_hdr_hash(repo)
    jobs, objs = [], []
    for s in sources:
        k = hashlib.sha256()
        k.update(("\0".join([cc] + fl) + hh + s).encode()); k.update(open(s, "rb").read())
        o = os.path.join(CACHE, "obj", k.hexdigest()[:32] + ".o")
        objs.append(o)
        jobs.append((cc, s, o, fl, None))
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(_cc, jobs) if e]
    if errs:
        raise HarnessError("compile failed for %s:\n%s" % (name, "\n".join(errs[:3])))
    k = hashlib.sha256("\0".join(objs + list(ld) + [cc] + list(flags)).encode()).hexdigest()[:24]
    exe = os.path.join(CACHE, "%s-%s" % (name, k))
    if not os.path.exists(exe):
        tmp = exe + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        san = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
        r = subprocess.run([cc, "-o", tmp] + objs + san + list(ld) + ["-lpthread", "-lm"], capture_output=True, text=True)
        if r.returncode != 0:
            raise HarnessError("link failed for %s:\n%s" % (name, r.stderr[-3000:]))
        os.replace(tmp, exe)
    return exe

def wraps(*names):
    return ["-Wl," + ",".join("--wrap=" + n for n in names)]

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:report_thread_leaks=0",
    "LSAN_OPTIONS": "exitcode=78",
}

# ------------------------------------------------------- sanitizer reports
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?([A-Za-z_][\w.]*)[^\n]*?(?:/repo/|/)([\w/.-]+\.[ch])(?::\d+)?")
def san_frames(text, n=3):
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ )?(?:in )?([A-Za-z_][\w.]*) ([^\n]*)", text):
        fn, rest = m.group(1), m.group(2)
        if fn.startswith("__interceptor") or fn in ("memcpy", "memmove", "free", "malloc", "calloc", "realloc", "strlen", "memset", "pthread_create", "operator"):
            continue
        out.append(fn)
        if len(out) >= n:
            break
    return out

def san_keys(text):
    """Stable keys of sanitizer reports contained in text."""
    keys = []
    for m in re.finditer(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)(.*?)(?=\nSUMMARY|\Z)", text, re.S):
        keys.append("asan:%s:%s" % (m.group(2), "<".join(san_frames(m.group(3)))))
    for m in re.finditer(r"([\w./-]+):(\d+):\d+: runtime error: ([^\n]*)\n(.*?)(?=runtime error|\nSUMMARY|\Z)", text, re.S):
        msg = re.sub(r"-?\b(0x[0-9a-f]+|\d+)\b", "N", m.group(3))
        keys.append("ubsan:%s:%s:%s" % (os.path.basename(m.group(1)), msg[:80], "<".join(san_frames(m.group(4), 1))))
    for blk in re.split(r"={18,}", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", blk)
        if m:
            stacks = re.split(r"\n\s*\n", blk)
            tops = []
            for s in stacks[:2]:
                f = [x for x in san_frames(s, 3)]
                tops.append("<".join(f[:2]))
            keys.append("tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), "|".join(sorted(tops))))
    return keys

# -------------------------------------------------------------- processes
class Res:
    __slots__ = ("rc", "out", "err", "timeout", "wall", "idle")

def cpu_ticks(pid):
    """(total CPU ticks of all threads, all threads asleep?) of a process and its children."""
    tot, asleep = 0, True
    for d in glob.glob("/proc/%d/task/*/stat" % pid):
        try:
            a = open(d).read().rsplit(")", 1)[1].split()
        except OSError:
            continue
        tot += int(a[11]) + int(a[12])
        asleep &= a[0] == "S"
    return tot, asleep

def run(cmd, timeout=60, env=None, cwd=None, inp=None, stdin=None):
    e = dict(os.environ); e.update(SAN_ENV)
    if env:
        e.update(env)
    t = time.time()
    r = Res()
    r.timeout = r.idle = False
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         env=e, cwd=cwd, start_new_session=True)
    try:
        o, er = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.timeout = True
        a = cpu_ticks(p.pid); time.sleep(3); b = cpu_ticks(p.pid)
        r.idle = a[0] == b[0] and a[1] and b[1]   # blocked: nothing ran for three seconds
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
    r.rc, r.out, r.err, r.wall = p.returncode, o.decode("utf-8", "replace"), er.decode("utf-8", "replace"), time.time() - t
    return r

# ------------------------------------------------------------------ verdicts
def load_known():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
            else:
                raise HarnessError("bad known_findings line: " + l)
    return out

class Check:
    def __init__(self, pid, tier, seed, level="exploration"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.viol = {}      # key -> (msg, replay)
        self.known_hit = {}
        self.known = [k for k in load_known() if k[0] == pid]
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self.inconclusive = []
        self.lock = threading.Lock()

    @property
    def quick(self):
        return self.tier == "quick"

    def violation(self, key, msg, replay=None):
        key = re.sub(r"\s+", "_", key)
        with self.lock:
            for (_, k, text) in self.known:
                if re.fullmatch(k, key):
                    self.known_hit[k] = text
                    return
            if key not in self.viol:
                self.viol[key] = (msg, replay)
                if len(self.viol) >= 5 or key.startswith(("hang", "no-termination")): ENOUGH.set()

    def sanitizer(self, text, replay=None, prefix=""):
        """Record all sanitizer reports in text; returns their number."""
        ks = san_keys(text)
        for k in ks:
            self.violation(prefix + k, "sanitizer report " + k + "\n" + text[:6000], replay)
        return len(ks)

    def saw(self, n=1, sig=None, sample=None):
        with self.lock:
            self.evals += n
            if sig is not None:
                if isinstance(sig, (set, list)):
                    self.distinct.update(sig)
                else:
                    self.distinct.add(sig)
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)

    def count(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n

    def finish(self, ndistinct=None):
        os.makedirs(EVID, exist_ok=True)
        nd = len(self.distinct) if ndistinct is None else ndistinct
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=int(self.evals), distinct_nontrivial=int(nd), rule=self.rule,
                                samples=[json.dumps(s) if not isinstance(s, str) else s for s in self.samples] or ["none"], **({"counts": self.extra} if self.extra else {})),
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol), assumptions=self.assumptions)
        if self.known_hit:
            ev["known_findings"] = sorted(self.known_hit)
        if self.inconclusive:
            ev["inconclusive"] = self.inconclusive[:20]
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for (_, k, text) in self.known:
            if k in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        for i in self.inconclusive[:10]:
            print("inconclusive: " + str(i)[:300])
        print("%s %s seed=%d: %d evaluations, %d distinct, %s, %.1fs" % (self.pid, self.tier, self.seed, self.evals, nd, json.dumps(self.extra), time.time() - self.t0))
        if self.viol:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, (key, (msg, replay)) in enumerate(sorted(self.viol.items())[:20]):
                h = hashlib.sha256(key.encode()).hexdigest()[:10]
                path = os.path.join(REPLAYS, "%s-%s.json" % (self.pid, h))
                with open(path, "w") as f:
                    json.dump(dict(property=self.pid, key=key, message=msg, tier=self.tier, seed=self.seed, replay=replay), f, indent=1)
                print("  [%s] %s" % (key, str(msg)[:1500]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if self.evals == 0 or nd == 0:
            raise HarnessError("observed nothing")
        return 0

ENOUGH = threading.Event()   # violations found: the remaining cases need not run
def pmap(fn, items, jobs=None):
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(lambda i: None if ENOUGH.is_set() else fn(i), items))
