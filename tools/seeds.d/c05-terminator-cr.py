PROP='C05'
NEEDS='a text line that is a period and a carriage return'
BREAKS='a period followed by a carriage return ends the text'
SUBS=[('pkg/ed/ed.go', '\t\t\t\t\tif s.Text() == "." {\n', '\t\t\t\t\tif strings.TrimSuffix(s.Text(), "\\r") == "." {\n')]
DEMO='build ed\nrun() { timeout 20 "$d/ed" "$@" 2>/dev/null; }\nprintf \'a\\n.\\r\\nx\\n.\\n=\\nq\\n\' | run > $d/out\nprintf \'\\n2\\n\' | cmp - $d/out\n'
