PROP='C21'
NEEDS='a toupper pair list with a trailing semicolon'
BREAKS='a pair list may lack the closing parenthesis of its last pair'
SUBS=[('pkg/locale/localelex.go', "\tif l.Next() != (')') {\n\t\tl.Rewind()\n\t\treturn false\n\t}\n\tl.Emit(')')\n\treturn true\n", "\tif l.Next() != (')') {\n\t\tl.Rewind()\n\t}\n\tl.Emit(')')\n\treturn true\n")]
DEMO='gotest pkg/locale demo_test.txt > $d/out 2>&1\ngrep -q oops $d/out\n'
FILES={'demo_test.txt': 'package locale\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tdefer func() { recover() }()\n\tl := NewLexer("LC_CTYPE\\ntoupper (<a>,<A>\\nEND LC_CTYPE\\n")\n\tif yyParse(l) == 0 {\n\t\tt.Fatal()\n\t}\n}\n'}
