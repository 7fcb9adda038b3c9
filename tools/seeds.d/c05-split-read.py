PROP='C05'
NEEDS='text of a command of more than 4096 bytes in total'
BREAKS="the scanner's slice is kept across the next scan, so earlier text lines are overwritten by later ones"
SUBS=[('pkg/ed/ed.go', '\t\t\t// Handle multi-line commands\n', '\t\t\t// Handle multi-line commands\n\t\t\tvar first []byte\n'), ('pkg/ed/ed.go', "\t\t\t\t\ttext = append(append(text, s.Bytes()...), '\\n')\n\t\t\t\t}\n", "\t\t\t\t\tif first == nil {\n\t\t\t\t\t\tfirst = s.Bytes()\n\t\t\t\t\t\tcontinue\n\t\t\t\t\t}\n\t\t\t\t\ttext = append(append(text, s.Bytes()...), '\\n')\n\t\t\t\t}\n\t\t\t\tif first != nil {\n\t\t\t\t\ttext = append(append(first[:len(first):len(first)], '\\n'), text...)\n\t\t\t\t}\n")]
DEMO='build ed\nrun() { timeout 20 "$d/ed" "$@" 2>/dev/null; }\n(echo a; seq 1 3000; echo .; echo 1p; echo q) | run > $d/out\nprintf \'\\n1\\n\' | cmp - $d/out\n'
