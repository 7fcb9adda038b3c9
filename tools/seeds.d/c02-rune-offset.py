PROP='C02'
NEEDS='an edit behind a line with multi-byte characters'
BREAKS='line offsets are counted in characters, so an edit behind a line with multi-byte characters hits the wrong bytes'
SUBS=[('pkg/ed/ed.go', '\t\tlength += len(lines[i]) + 1\n', '\t\tlength += len([]rune(lines[i])) + 1\n')]
DEMO='build ed\nrun() { timeout 20 "$d/ed" "$@" 2>/dev/null; }\nprintf \'a\\n\\303\\251\\nx\\n.\\n2i\\ny\\n.\\n1,$p\\nq\\n\' | run > $d/out\nprintf \'\\n\\n\\303\\251\\ny\\nx\\n\' | cmp - $d/out\n'
