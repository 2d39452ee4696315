#!/bin/bash
# tools/tryseed.sh SEED|FILE.diff [proof|check] [PROP]: run proof units (or the whole check) of a property against a copy of /repo with the change
case "$1" in *.diff) D=$1; P=$3;; *) D=/verif/seeded/$1/patch.diff; P=${3:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$1/meta.json'))['property'])")};; esac
R=$(mktemp -d /tmp/tryXXXXXX); cp -a /repo/src /repo/CMakeLists.txt /repo/.git $R/ 2>/dev/null; cp -a /repo/src $R/
(cd $R && git apply $D) || { rm -rf $R; exit 9; }
cd /verif; export VERIF_REPO=$R
if [ "${2:-proof}" = proof ]; then timeout 900 python3-vt -m cppvc.prove $P; else timeout 900 python3-vt run.py $P; echo "rc=$?"; fi
rm -rf "$R"
