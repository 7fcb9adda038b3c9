PROP='C02'
NEEDS='deleting a range that ends at the last line while the line before it is empty'
BREAKS='the range to delete is widened over empty lines in front of it when it reaches the end of the buffer'
SUBS=[('pkg/ed/ed.go', '\trealEnd := ed.getLineAddr(end + 1)\n\tdebug', '\trealEnd := ed.getLineAddr(end + 1)\n\tif s := ed.pt.String(); realEnd == len(s) && strings.HasSuffix(s[:realStart], "\\n\\n") {\n\t\t// leave no blank line at the end\n\t\trealStart--\n\t}\n\tdebug')]
DEMO='build ed\nrun() { timeout 20 "$d/ed" "$@" 2>/dev/null; }\nprintf \'a\\none\\n\\ntwo\\n.\\n3d\\n=\\nq\\n\' | run > $d/out\nprintf \'\\n\\n2\\n\' | cmp - $d/out\n'
