PROP='C21'
NEEDS='an END line that names only the beginning of the category'
BREAKS='an END line with a shortened category name is accepted'
SUBS=[('pkg/locale/localelex.go', '\t\t\tif l.Current() != category {\n', '\t\t\tif !strings.HasPrefix(category, l.Current()) {\n')]
DEMO="gotest pkg/locale demo_test.txt > $d/out 2>&1\ngrep -q 'expected: END' $d/out\n"
FILES={'demo_test.txt': 'package locale\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tl := NewLexer("LC_NUMERIC\\ngrouping 1\\nEND LC_NUM\\n")\n\tif yyParse(l) == 0 {\n\t\tt.Fatal()\n\t}\n}\n'}
