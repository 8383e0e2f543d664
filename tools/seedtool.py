#!/usr/bin/env python3
"""seedtool.py ID PROPERTY VARIANT 'KNOBS' [n] [gen]: find programs that expose /verif/seeded/ID/patch.diff and write its demonstration."""
import os, sys, json, subprocess, shutil, random
V = "/verif"; sys.path.insert(0, V + "/py")
ID, PROP, VAR, KN = sys.argv[1:5]; N = int(sys.argv[5]) if len(sys.argv) > 5 else 400; GEN = sys.argv[6] if len(sys.argv) > 6 else "generate"
D = "%s/seeded/%s" % (V, ID); W = "/tmp/sw"
shutil.rmtree(W, True); os.makedirs(W)
subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % W, shell=True)
subprocess.check_call(["git", "apply", "--unsafe-paths", "--directory=" + W, D + "/patch.diff"], cwd="/")
os.environ["VERIF_CACHE"] = "/tmp/swb"
import common, chk_rt, prog
from chk_rt import *
def mk(repo):
    chk_rt.REPO = common.REPO = repo; common._hdr_hash.clear(); chk_rt._exes.clear(); return exe(VAR)
pe = mk(W); be = mk("/repo")
def fails(ex, p, s, text, fast, workers, dl):
    chk_rt._exes[VAR] = ex
    c = Check("X", "quick", 1); c.known = []
    p.delay = dl
    o = launch(VAR, p, workers=workers, fast=fast, timeout=15, env=LEAK if VAR[0] == "a" else None)
    if health(c, o): order(c, p, o); against(c, p, s, o)
    ENOUGH.clear()
    return list(c.viol.items()), o
def g_sparse(rng, **k):
    p = sparse_prog(rng); return p, Sim(p, p.timeout, False, limit=20000).run()
cases = []; kn = eval(KN)
for i in range(N):
    rng = random.Random(i * 7 + 3)
    try: p, s = (g_sparse if GEN == 'sparse' else getattr(prog, GEN))(rng, **(kn(rng) if callable(kn) else kn))
    except RuntimeError: continue
    w = rng.choice([1, 2, 4, 8]); dl = rng.choice([(0, 0, 0), (200, 100, i)]); fast = "real" not in sys.argv
    v, o = fails(pe, p, s, None, fast, w, dl)
    if not v: continue
    k = 1 + sum(bool(fails(pe, p, s, None, fast, w, dl)[0]) for _ in range(3))
    b = sum(bool(fails(be, p, s, None, fast, w, dl)[0]) for _ in range(4))
    print(i, k, "/4", b, "/4 base", v[0][0], v[0][1][0][:150])
    if b or (k < 4 and len(sys.argv) <= 7): continue
    sg = lambda x: x - (1 << 64) if x >> 63 else x
    exp = sorted([t[0], t[1], x, e[0], sg(e[1]), sg(e[2])] for t, d in s.execs.items() for x, e in d.items())
    cases.append(dict(program=p.text(), args=o.replay["args"], expect=exp, final=list(s.final), repeat=2 if k == 4 else 12))
    if len(cases) == 3: break
print(len(cases), "cases")
if cases:
    flags, cc = SAN[VAR[0]]; modal = VAR.endswith("_m"); k = VAR[1:].split("_")[0]
    d = ["PLATFORM_Linux", "LOG_LEVEL=0", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "WRAPPED"] + (["MODAL_REACTORS=1"] if modal else []) + (["NOTRACK"] if VAR[0] == "t" else [])
    d += ["LF_SINGLE_THREADED=1"] if k == "s" else ["NUMBER_OF_WORKERS=4", "SCHEDULER=" + SCHED[k]]
    json.dump(dict(property=PROP, variant=dict(single=k == "s", modal=modal, flags=list(flags), cc=cc, defs=d), env=dict(SAN_ENV, **(LEAK if VAR[0] == "a" else {})), cases=cases), open(D + "/spec.json", "w"))
    for f in ("demo.py", "demo.sh"): shutil.copy(V + "/tools/seed/" + f, D)
    shutil.copy(V + "/c/prog.c", D); os.chmod(D + "/demo.sh", 0o755)
    for r, want in (("/repo", 0), (W, 1)):
        x = subprocess.run([D + "/demo.sh"], cwd=r, capture_output=True, text=True); print(r, x.returncode, x.stdout[-300:])
shutil.rmtree(W, True)
