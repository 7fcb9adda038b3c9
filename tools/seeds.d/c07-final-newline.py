PROP='C07'
NEEDS='w after deleting the last line of a buffer with several lines'
BREAKS='deleting the last line also takes the newline of the line before it, so w writes a file with an incomplete last line'
SUBS=[('pkg/ed/ed.go', '\trealEnd := ed.getLineAddr(end + 1)\n\tdebug', '\trealEnd := ed.getLineAddr(end + 1)\n\tif realStart > 0 && realEnd == len(ed.pt.String()) {\n\t\trealStart--\n\t}\n\tdebug')]
DEMO='build ed\nrun() { timeout 20 "$d/ed" "$@" 2>/dev/null; }\ncd $d; printf \'1\\n2\\n3\\n\' > f\nprintf \'3d\\nw\\nq\\n\' | "$d/ed" f >/dev/null 2>&1\nprintf \'1\\n2\\n\' | cmp - f\n'
