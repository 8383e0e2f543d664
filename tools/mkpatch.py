#!/usr/bin/env python3
"""mkpatch.py ID FILE < stdin 'old\n=====\nnew' [more pairs separated by #####]: write /verif/seeded/ID/patch.diff, then build and run the tests on a copy."""
import sys, os, subprocess, shutil, json
ID = sys.argv[1]; D = "/verif/seeded/" + ID; os.makedirs(D, exist_ok=True)
W = "/tmp/mp"; shutil.rmtree(W, True); subprocess.check_call(["git", "clone", "-q", "/repo", W])
txt = sys.stdin.read()
for k, pair in enumerate(txt.split("\n#####\n")):
    f, rest = pair.split("\n", 1); old, new = rest.split("\n=====\n"); new = new.rstrip("\n")
    p = W + "/" + f.strip(); s = open(p).read(); assert s.count(old) == 1, (f, s.count(old), old)
    i = s[:s.index(old)].count("\n") + 1; j = i + old.count("\n")
    print(subprocess.run(["git", "blame", "-s", "-L%d,%d" % (i, j), f.strip()], cwd=W, capture_output=True, text=True).stdout)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout
open(D + "/patch.diff", "w").write(diff)
shutil.rmtree(W)
if os.environ.get("MP_NOTEST"): sys.exit()
subprocess.check_call(["git", "apply", D + "/patch.diff"], cwd="/repo")
try:
    r = subprocess.run("bash /opt/vp/build.sh >/tmp/b.log 2>&1 && bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1", shell=True)
    print("build+test rc", r.returncode); print(open("/tmp/o.json").read()[:600] if r.returncode == 0 else open("/tmp/b.log").read()[-1500:])
finally:
    subprocess.check_call("git checkout -q -- . && bash /opt/vp/build.sh >/dev/null 2>&1", shell=True, cwd="/repo")
