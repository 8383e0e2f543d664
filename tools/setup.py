#!/usr/bin/env python3
"""Checks that the tools are there; checks build what they need themselves."""
import shutil, sys, os
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".build", "obj"), exist_ok=True)
bad = [t for t in ("gcc", "python3") if not shutil.which(t)]
print("missing: %s" % bad if bad else "ok")
sys.exit(1 if bad else 0)
