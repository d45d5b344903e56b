#!/bin/sh
# trybug.sh SEED SCRIPT: run checks/SCRIPT.py against a scratch copy of /repo with the seeded bug applied
d=/tmp/sr-$1; rm -rf /tmp/sr-$1; cp -a /repo $d && git -C $d checkout -q -- . && git -C $d apply /verif/seeded/$1/patch.diff && VERIF_REPO=$d python3 /verif/checks/$2.py | tail -2
rm -rf /tmp/sr-$1
