#!/bin/bash
# Instrument map iteration in pkg/tsort; without it (if the rewrite does not
# apply to the tree) the check still runs with natural iteration orders.
s=$1
go build -o "$s/maprange" ./maprange || exit 1
if "$s/maprange" /repo/pkg/tsort "$s/instr" 2>"$s/instr.log" && go build -overlay "$s/instr/overlay.json" -tags instr -o /dev/null ./c12 2>>"$s/instr.log"; then
  echo "-overlay $s/instr/overlay.json -tags instr" > "$s/buildflags"
fi
exit 0
