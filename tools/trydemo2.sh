#!/bin/bash
# trydemo2.sh ID: as trydemo.sh for demonstrations that only use their working directory's sources; does not touch /repo
D=/tmp/td2.$1; rm -rf $D; git clone -q /repo $D; cd $D; bash /verif/seeded/$1/demo.sh; echo "base rc $?"
git apply /verif/seeded/$1/patch.diff && bash /verif/seeded/$1/demo.sh; echo "patched rc $?"; cd /; rm -rf $D
