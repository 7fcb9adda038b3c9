PROP='C13'
NEEDS='a bracket list with a closing bracket as its first character, or a dot inside'
BREAKS='a dot in a bracket list stands for any character'
SUBS=[('pkg/regexes/bre.go', '\tfor _, c := range bb.chars {\n', "\tfor _, c := range bb.chars {\n\t\tif c == '.' && len(bb.chars) > 1 {\n\t\t\treturn true\n\t\t}\n")]
DEMO='gotest pkg/regexes demo_test.txt\n'
FILES={'demo_test.txt': 'package regexes\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tb, _ := ParseBre("[a.]")\n\tif b.Matches("x") {\n\t\tt.Fatal()\n\t}\n}\n'}
