#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]   (VERIF_SEED sets the seed, default 1)"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "py"))
import common

def registry():
    import importlib
    reg = {}
    for m in ("chk_util", "chk_codec", "chk_rt", "chk_rti", "chk_fed", "chk_join", "chk_encl", "chk_trace"):
        if os.path.exists(os.path.join(common.VERIF, "py", m + ".py")):
            reg.update(importlib.import_module(m).CHECKS)
    return reg

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    reg = registry()
    if pid not in reg:
        print("unknown property", pid); return 2
    try:
        return reg[pid](common.Check(pid, tier, seed))
    except common.HarnessError as e:
        print("HARNESS ERROR:", e); return 2
    except Exception:
        traceback.print_exc(); return 2
if __name__ == "__main__":
    sys.exit(main())
