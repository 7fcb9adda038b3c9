PROP='C13'
NEEDS='a character of the pattern and one of the input that differ by a multiple of 65536'
BREAKS='characters are compared by their low 16 bits'
SUBS=[('pkg/regexes/bre.go', '\treturn rune(bpt) == r', '\treturn uint16(bpt) == uint16(r)')]
DEMO='gotest pkg/regexes demo_test.txt\n'
FILES={'demo_test.txt': 'package regexes\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tb, err := ParseBre("a")\n\tif err != nil || b.Matches(string(rune(\'a\'+0x10000))) || !b.Matches("a") {\n\t\tt.Fatal("wrong")\n\t}\n}\n'}
