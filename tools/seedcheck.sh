#!/bin/bash
# seedcheck.sh NAME...: confirms planted changes in a scratch copy: builds, tests pass, demo distinguishes.
# With CHECK=1 also runs the quick check of the property against the changed copy.
for n in "$@"; do
  s=/verif/seeded/$n
  git -C /tmp/seed/repo checkout -q -- . && git -C /tmp/seed/repo clean -qfd
  git -C /tmp/seed/repo fetch -q /repo HEAD && git -C /tmp/seed/repo reset -q --hard FETCH_HEAD
  . /opt/vp/env.sh
  cd /tmp/seed/repo || exit 1
  bash "$s/demo.sh" >/tmp/seed/out0 2>&1; r0=$?
  git apply "$s/patch.diff" || { echo "$n: patch does not apply"; continue; }
  go build ./... >/tmp/seed/outb 2>&1; rb=$?
  go test -vet=off -count=1 ./... >/tmp/seed/outt 2>&1; rt=$?
  bash "$s/demo.sh" >/tmp/seed/out1 2>&1; r1=$?
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  c=-
  if [ -n "$CHECK" ]; then
    mkdir -p /tmp/seed/v; cp -a /verif/harness /verif/env.sh /tmp/seed/v/; cp -a /verif/known_findings.txt /tmp/seed/v/ 2>/dev/null
    /verif/bin/symgo -verif /tmp/seed/v -repo /tmp/seed/repo -prop "$p" -tier quick >/tmp/seed/outc 2>&1; c=$?
  fi
  echo "$n: demo unchanged=$r0 build=$rb tests=$rt demo changed=$r1 check $p=$c $(grep -m1 -o 'assert: .*\|nonterm.*\|deadlock.*' /tmp/seed/outc 2>/dev/null)"
  git checkout -q -- .
done
