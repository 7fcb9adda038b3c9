#!/bin/bash
# Insert preemption points into pkg/ed; if that fails the check runs without them.
s=$1
go build -o "$s/yieldinst" ./yieldinst || exit 1
if "$s/yieldinst" "$s/instr" /repo/pkg/ed 2>"$s/instr.log" && go build -overlay "$s/instr/overlay.json" -tags instr -o /dev/null ./c06 2>>"$s/instr.log"; then
  echo "-overlay $s/instr/overlay.json -tags instr" > "$s/buildflags"
fi
exit 0
