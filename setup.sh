#!/bin/bash
# Builds the symbolic executor from its committed source.
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p bin evidence
cd engine && go build -o ../bin/symgo . || exit 1
