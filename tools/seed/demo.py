#!/usr/bin/env python3
"""Runs recorded reactor programs on the runtime in the current directory (the repository) and
compares what every reaction observed with what the reactor semantics prescribes."""
import os, sys, json, glob, subprocess, tempfile, shutil
H = os.path.dirname(os.path.abspath(__file__)); REPO = os.getcwd()
spec = json.load(open(os.path.join(H, "spec.json")))
tmp = tempfile.mkdtemp(prefix="demo")
def g(*ps): return [f for p in ps for f in sorted(glob.glob(os.path.join(REPO, p)))]
def inc():
    out = []
    for b in ("include", "low_level_platform/api", "platform/api", "trace/api", "trace/impl/include", "version/api", "logging/api", "tag/api", "util"):
        b = os.path.join(REPO, b)
        for d, s, f in os.walk(b):
            if d == b or (any(x.endswith(".h") for x in f) and os.path.basename(d) != "impl"): out.append("-I" + d)
    return out + ["-I" + os.path.join(REPO, "core/federated/RTI")]
def build(v):
    thr, modal = not v["single"], v["modal"]
    src = g("core/*.c", "core/utils/*.c", "core/utils/hashset/*.c", "lib/schedule.c", "platform/impl/*.c", "low_level_platform/impl/src/lf_linux_support.c",
            "low_level_platform/impl/src/lf_unix_clock_support.c", "low_level_platform/impl/src/lf_atomic_gcc_clang.c", "low_level_platform/impl/src/lf_platform_util.c")
    if thr: src += g("core/threaded/*.c")
    if modal: src += g("core/modal_models/*.c")
    rm = ["core/tracepoint.c"] + (["core/reactor.c"] if thr else [])
    src = [s for s in src if os.path.relpath(s, REPO) not in rm] + [os.path.join(H, "prog.c")]
    exe = os.path.join(tmp, "prog")
    wr = ["lf_mutex_lock", "lf_mutex_unlock", "_lf_clock_gettime"] + (["lf_cond_wait", "lf_cond_broadcast", "lf_cond_signal"] if thr else [])
    r = subprocess.run([v["cc"], "-w", "-std=gnu11", "-o", exe] + v["flags"] + ["-D" + d for d in v["defs"]] + inc() + src + ["-Wl," + ",".join("--wrap=" + w for w in wr), "-lpthread", "-lm"], capture_output=True, text=True)
    if r.returncode: print(r.stderr[-2000:]); sys.exit(3)
    return exe
def one(exe, c):
    pf = os.path.join(tmp, "p"); lf = os.path.join(tmp, "log")
    open(pf, "w").write(c["program"])
    if os.path.exists(lf): os.unlink(lf)
    e = dict(os.environ, PROG_LOG=lf, **spec.get("env", {})); e.update(c.get("env", {}))
    try: r = subprocess.run([exe, pf] + c["args"], capture_output=True, text=True, errors="replace", env=e, timeout=c.get("timeout", 40))
    except subprocess.TimeoutExpired: return "did not terminate"
    if r.returncode or "MONITOR" in r.stderr or "ThreadSanitizer" in r.stderr: return "exit %d\n%s" % (r.returncode, r.stderr[-1500:])
    if not os.path.exists(lf): return "no log"
    got = []; z = None; done = False
    for l in open(lf):
        a = l.split()
        if a[0] == "E": f = [int(x) for x in a[2:]] + [0] * 12; got.append([f[4], f[5], f[2], f[3], f[8], f[9]])
        elif a[0] == "Z": f = [int(x) for x in a[2:]] + [0] * 8; z = [f[1], f[2]]
        elif a[0] == "END": done = True
    if not done: return "incomplete"
    if c.get("expect") is not None:
        got.sort()
        if got != c["expect"]:
            d = [x for x in got if x not in c["expect"]][:2] + [x for x in c["expect"] if x not in got][:2]
            return "executions differ from the semantics: " + str(d)
        if z != c["final"]: return "final tag %s, expected %s" % (z, c["final"])
    return None
bad = 0
try:
    exe = build(spec["variant"])
    for c in spec["cases"]:
        for k in range(c.get("repeat", 1)):
            m = one(exe, c)
            if m: print("FAIL:", m); bad = 1; break
finally:
    shutil.rmtree(tmp, True)
print("property", spec["property"], "broken" if bad else "held")
sys.exit(bad)
