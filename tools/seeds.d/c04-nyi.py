PROP='C04'
NEEDS='a known but unimplemented command with an address'
BREAKS='an unimplemented command moves the current line before it is refused'
SUBS=[('pkg/ed/ed.go', '\t\treturn "? (NYI)"\n', '\t\tif n, err := ed.addrLine(cmd.start, ed.currentLine); err == nil && n > 0 && n <= len(ed.getLines()) {\n\t\t\ted.currentLine = n\n\t\t}\n\t\treturn "? (NYI)"\n')]
DEMO='build ed\nrun() { timeout 20 "$d/ed" "$@" 2>/dev/null; }\nprintf \'a\\none\\ntwo\\nthree\\n.\\n1ka\\n.=\\nq\\n\' | run > $d/out\ntail -1 $d/out | grep -qx 3\n'
