#!/bin/bash
# trycheck.sh ID CHECK...: run checks against a clone of /repo with the planted change
D=/tmp/tc.$1; rm -rf $D; git clone -q /repo $D; git -C $D apply /verif/seeded/$1/patch.diff || exit 1
S=$1; shift; for p in "$@"; do VERIF_REPO=$D VERIF_EVIDENCE=$D/ev VERIF_REPLAYS=$D/rp timeout 900 python3 /verif/check.py $p ${TIER:-quick} > $D/out 2>&1; echo "$S $p rc $?"; grep -a VIOL -A1 $D/out | cut -c1-300 | head -4; done; rm -rf $D
