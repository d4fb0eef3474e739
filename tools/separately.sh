#!/bin/bash
# separately.sh OUT FLAGS SOURCES...: compiles each file on its own and joins the objects.
out=$1; flags=$2; shift 2; i=0; objs=()
for f in "$@"; do i=$((i+1)); g++ $flags -c "$f" -o "$out.$i.o" || exit 1; objs+=("$out.$i.o"); done
ld -r -o "$out" "${objs[@]}"
