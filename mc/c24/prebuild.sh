#!/bin/bash
# Insert preemption points into the library packages, one by one; a package to
# which that does not apply is explored without them.
s=$1
go build -o "$s/yieldinst" ./yieldinst || exit 1
tags= ; dirs=
for p in txt regexes flag diff tsort ed locale; do
  if "$s/yieldinst" "$s/try" /repo/pkg/$p 2>>"$s/instr.log" && go build -overlay "$s/try/overlay.json" -tags "instr_$p" -o /dev/null ./c24 2>>"$s/instr.log"; then
    tags="$tags,instr_$p"; dirs="$dirs /repo/pkg/$p"
  fi
done
if [ -n "$tags" ] && "$s/yieldinst" "$s/instr" $dirs; then
  echo "-overlay $s/instr/overlay.json -tags ${tags#,}" > "$s/buildflags"
fi
exit 0
