#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
tier=${2:-quick}
mkdir -p "$here/bin" "$here/evidence"
(cd "$here/engine" && go build -o ../bin/symgo .) || { echo "ERROR: engine build failed"; exit 2; }
exec "$here/bin/symgo" -verif "$here" -repo /repo -prop "$1" -tier "$tier"
