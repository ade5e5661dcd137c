#!/bin/bash
# Build every check once, so that a check only rebuilds what changed.
cd "$(dirname "$0")" || exit 2
for id in C01 C27 C08 C11 C13 C15 C18 C19 C21 C22 C28 C30; do
  ./run.sh --build $id || exit 2
done
