PROP='C13'
NEEDS='a repetition right before the closing $'
BREAKS='a repetition with a minimum of zero is tried only greedily before an anchored end'
SUBS=[('pkg/regexes/bre_evaluate.go', '\tfor i := matched; i >= e.count.min; i-- {\n', '\tfor i := matched; i >= e.count.min && i >= matched-2; i-- {\n')]
DEMO='gotest pkg/regexes demo_test.txt\n'
FILES={'demo_test.txt': 'package regexes\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tb, _ := ParseBre("^a*aaa$")\n\tif !b.Matches("aaaa") {\n\t\tt.Fatal()\n\t}\n}\n'}
