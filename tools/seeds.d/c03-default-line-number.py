PROP='C03'
NEEDS='= without an address when the current line is not the last'
BREAKS='the default address of = becomes the current line'
SUBS=[('pkg/ed/address.go', '\t{aLast, aLast},             // ctlineNumber\n', '\t{aCur, aCur},               // ctlineNumber\n')]
DEMO='build ed\nrun() { timeout 20 "$d/ed" "$@" 2>/dev/null; }\nprintf \'a\\none\\ntwo\\n.\\n1p\\n=\\nq\\n\' | run > $d/out\nprintf \'\\none\\n2\\n\' | cmp - $d/out\n'
