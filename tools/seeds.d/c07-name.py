PROP='C07'
NEEDS='a w with a name after an e'
BREAKS='the name given to w is remembered before the write, so the write that follows goes there too'
SUBS=[('pkg/ed/ed.go', '\t\t\tfilename = cmd.text\n\t\t}\n\t\tdata', '\t\t\tfilename = cmd.text\n\t\t\ted.filename = filename\n\t\t}\n\t\tdata')]
DEMO='build ed\nrun() { timeout 20 "$d/ed" "$@" 2>/dev/null; }\ncd $d; printf \'1\\n\' > f\nprintf \'w g\\na\\n2\\n.\\nw\\nq\\n\' | "$d/ed" f >/dev/null 2>&1\nprintf \'1\\n2\\n\' | cmp - f\n'
