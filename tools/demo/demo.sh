#!/bin/bash
# Runs the demonstration tests beside this file inside the package named in PKG.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
pkg=$(cat "$here/PKG")
{
  printf '{"Replace":{'
  sep=
  for f in "$here"/*_test.go; do
    printf '%s"%s/%s/zz_%s":"%s"' "$sep" "$PWD" "$pkg" "$(basename "$f")" "$f"
    sep=,
  done
  printf '}}'
} > "$t/overlay.json"
exec go test -overlay "$t/overlay.json" -run '^TestDemo' -count=1 -vet=off -timeout 120s "./$pkg"
