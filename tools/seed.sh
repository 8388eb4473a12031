#!/bin/bash
# seed.sh ID: validate /verif/seeded/ID in a scratch copy of /repo (demo passes unpatched, fails patched, stable tests pass patched)
set -u
id=$1; d=/verif/seeded/$id; s=/tmp/seedrepo
/bin/rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
cd /tmp/seedrepo
timeout 300 bash $d/demo.sh >/tmp/seed.out1 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
timeout 300 bash $d/demo.sh >/tmp/seed.out2 2>&1; b=$?
go1=/opt/veriftools/go1.27.3/bin/go
t=$($go1 test ./bandersnatch/common ./bandersnatch/errorsWithData ./bandersnatch/exponents ./internal/callcounters ./internal/errorconsts ./internal/stack ./internal/testutils ./internal/utils 2>&1 | grep -v "^ok\|no test files" | head -5)
f=$($go1 test ./bandersnatch/fieldElements >/dev/null 2>&1 && echo pass || echo fail)
echo "$id: [fieldElements tests: $f] demo unpatched=$a patched=$b tests:${t:-pass}"
[ $a = 0 ] && [ $b != 0 ] && [ -z "$t" ]
