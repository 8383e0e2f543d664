#!/bin/bash
# trydemo.sh ID: run its demonstration on the unchanged tree and with the patch
cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; /verif/seeded/$1/demo.sh; echo "base rc $?"
git apply /verif/seeded/$1/patch.diff && { bash /opt/vp/build.sh >/dev/null 2>&1; /verif/seeded/$1/demo.sh; echo "patched rc $?"; git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; }
