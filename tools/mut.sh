#!/bin/bash
# mut.sh CHECKS SED-EXPR FILE : try a mutation in a scratch copy (developer tool)
set -e
T=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/include /repo/small /repo/third_party /repo/CMakeLists.txt $T/
if [ "$2" = "-p" ]; then (cd $T && patch -s -p1 < $3); else
sed -i -E "$2" $T/$3; diff -u /repo/$3 $T/$3 | head -30 || true; fi
for c in $1; do VERIF_REPO=$T VERIF_BUILD=$T/build python3 /verif/tools/check.py $c | cut -c1-300 || true; done
rm -rf $T
