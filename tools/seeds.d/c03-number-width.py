PROP='C03'
NEEDS='n of line 10 or later'
BREAKS='line numbers are printed modulo ten beyond a range of nine lines'
SUBS=[('pkg/ed/ed.go', '\t\tout += fmt.Sprintf("%d\\t%s\\n", i, lines[i-1])\n', '\t\tout += string(rune(\'0\'+i)) + "\\t" + lines[i-1] + "\\n"\n')]
DEMO='build ed\nrun() { timeout 20 "$d/ed" "$@" 2>/dev/null; }\n(echo a; seq 12; echo .; echo 10n; echo q) | run > $d/out\nprintf \'\\n10\\t10\\n\\n\' | cmp - $d/out\n'
