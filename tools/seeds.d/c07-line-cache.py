PROP='C07'
NEEDS='a second file of the same length as the first, longer than 40 bytes'
BREAKS='the lines of the buffer are cached by its length'
SUBS=[('pkg/ed/ed.go', '\tcurrentLine int\n', '\tcurrentLine int\n\tcache       []string\n\tcacheLen    int\n'), ('pkg/ed/ed.go', '\tlines = strings.Split(ed.pt.String(), "\\n")\n', '\ttext := ed.pt.String()\n\tif ed.cache != nil && ed.cacheLen == len(text) && len(text) > 40 {\n\t\treturn ed.cache\n\t}\n\tlines = strings.Split(text, "\\n")\n\tdefer func() { ed.cache, ed.cacheLen = lines, len(text) }()\n')]
DEMO='build ed\ncd "$d"\nprintf \'this is the first file\\nit has forty-six bytes.\\n\' > a\nprintf \'this is another file..\\nforty-six bytes as well\\n\' > b\nprintf \'e a\\n1p\\ne b\\n1p\\nq\\n\' | timeout 20 ./ed 2>/dev/null > out\nprintf \'\\nthis is the first file\\n\\nthis is another file..\\n\' | cmp - out\n'
