#!/usr/bin/env python3
"""mutate.py SEED N [FILE...]: random source mutants of reactor-c in a scratch copy, each judged by the checks for its file until one reports it.
Development tool: finds holes in the checks. Appends to /tmp/mut.log; never touches /repo."""
import sys, os, re, random, subprocess, shutil, time
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
L = "L02 L04 L09 L13 L18".split()
ORDER = {"core/federated/federate.c": "F01 F03 F04 F07 F02 F08 F05 F09", "core/federated/clock-sync.c": "F08", "core/federated/network/net_util.c": "U05 U09 R04 F07",
  "core/federated/RTI/rti_common.c": "R09 R01 R02 R03 R10 R13 F01 F03 U08", "core/federated/RTI/rti_remote.c": "R01 R04 R06 R07 R08 R10 R11 R12 R14 R05 R13 F04 F07", "core/federated/RTI/main.c": "R14 R10 U08",
  "core/reactor_common.c": "L02 L05 L06 L09 L10 L13 L14 L15 L11 L19 L08 L16 F01 F04", "core/reactor.c": "L04 L09 L10 L12 L18 L11 L07", "core/environment.c": "L02 L09 L15 L14 L18 F01",
  "core/threaded/reactor_threaded.c": "L02 L09 L10 L18 L08 L12 L16 L17 F01 F03 F04", "core/threaded/scheduler_NP.c": "L02 L03 L18 L17 F03", "core/threaded/scheduler_GEDF_NP.c": "L02 L03 L18 L17 F03", "core/threaded/scheduler_adaptive.c": "L02 L03 L18 L17 F03", "core/threaded/scheduler_sync_tag_advance.c": "L02 L09 L18 F01 F02",
  "core/threaded/watchdog.c": "L16", "core/modal_models/modes.c": "L15 L14", "core/port.c": "L13", "core/lf_token.c": "L14 L13", "core/tag.c": "U01 U02 L05 L10", "core/clock.c": "U07 F08 L12", "trace/impl/src/trace_impl.c": "U08", "core/tracepoint.c": "U08",
  "util/tracing/trace_util.c": "U08", "util/tracing/trace_to_csv.c": "U08", "util/tracing/trace_to_chrome.c": "U08", "core/utils/pqueue.c": "U03", "core/utils/pqueue_base.c": "U03", "core/utils/pqueue_tag.c": "U03", "core/utils/vector.c": "U04", "core/utils/util.c": "", "core/utils/lf_semaphore.c": "U10",
  "core/utils/hashset/hashset.c": "U04", "core/utils/hashset/hashset_itr.c": "U04", "include/core/utils/impl/hashmap.h": "U04", "core/mixed_radix.c": "U06", "core/federated/network/net_common.c": "", "include/core/threaded/scheduler_sync_tag_advance.h": "", "core/utils/deque.c": "U04", "low_level_platform/impl/src/lf_unix_clock_support.c": "L12 L09", "low_level_platform/impl/src/lf_linux_support.c": "L12 L18", "low_level_platform/impl/src/lf_POSIX_threads_support.c": "L18 L16 L10"}
SKIP = re.compile(r'print|PRINT|tracepoint|assert|^\s*(//|\*|/\*|#)|exit\(|case |sprintf|LF_MUTEX|lf_mutex|free\(')
OPS = [(r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+ ', ' - '), (r'\bif \((?!!)(.*)\) \{$', r'if (!(\1)) {'), (r'\bbreak;', ';'), (r'\bcontinue;', ';')]
def mutants(path, text):
    out = []; com = False; lines = text.split("\n")
    for k, l in enumerate(lines):
        if "/*" in l and "*/" not in l: com = True
        if com:
            if "*/" in l: com = False
            continue
        if SKIP.search(l) or not l.startswith("  "): continue
        for a, b in OPS:
            m = list(re.finditer(a, l.split("//")[0]))
            for x in m:
                n = l[:x.start()] + x.expand(b) + l[x.end():]
                if n != l: out.append((k, n))
        if re.match(r'^\s+[\w>.\-\[\]()*&]+( [+\-]?=| ?\().*;$', l) and lines[k - 1].rstrip().endswith((";", "{", "}", "*/")) : out.append((k, re.match(r"\s*", l).group() + ";"))
        if re.match(r'^\s+(return|goto)\b.*;$', l) and "NULL" in l + "NULL" and l.strip() != "return;": pass
        elif l.strip() == "return;": out.append((k, ";"))
    return [(k, n) for k, n in out if n != lines[k]]
def main():
    rng = random.Random(sys.argv[1]); N = int(sys.argv[2]); only = sys.argv[3:]; W = "/tmp/mut"; log = open("/tmp/mut.log", "a", 1)
    files = [f for f in (only or ORDER) if ORDER.get(f) and os.path.exists("/repo/" + f)]
    shutil.rmtree(W, True); subprocess.check_call(["git", "clone", "-q", "/repo", W])
    allm = [(f, k, n) for f in files for k, n in mutants(f, open(W + "/" + f).read())]
    byf = {f: [m for m in allm if m[0] == f] for f in files}
    for i in range(N):
        f = rng.choices(files, [len(byf[x]) ** 0.6 if byf[x] else 0 for x in files])[0]; _, k, n = rng.choice(byf[f])
        src = open(W + "/" + f).read(); ls = src.split("\n"); old = ls[k]; ls[k] = n; open(W + "/" + f, "w").write("\n".join(ls))
        t0 = time.time(); res = "SURVIVED"; ran = []
        cc = subprocess.run("cd %s && timeout 60 cppcheck --version >/dev/null" % W, shell=True)
        for c in ORDER[f].split():
            try: p = subprocess.run(["python3", V + "/check.py", c, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=W, VERIF_SEED=str(1 + i % 5)), capture_output=True, text=True, errors="replace", timeout=1200)
            except subprocess.TimeoutExpired: res = "TIMEOUT " + c; break
            ran.append("%s%s" % (c, "" if p.returncode == 0 else "=%d" % p.returncode))
            if p.returncode == 1: res = "killed by " + c; break
            if p.returncode != 0:
                res = ("compile" if "error:" in p.stdout + p.stderr else "rc%d %s" % (p.returncode, (p.stdout + p.stderr)[-300:])); break
        log.write("%s %s:%d %.0fs [%s]\n   - %s\n   + %s\n" % (res, f, k + 1, time.time() - t0, " ".join(ran), old.strip(), n.strip()))
        open(W + "/" + f, "w").write(src)
    shutil.rmtree(W, True); log.write("end\n")
main()
