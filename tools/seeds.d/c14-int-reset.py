PROP='C14'
NEEDS='an invalid integer after a valid one'
BREAKS='an invalid value is stored as 0 before the error is returned; more so a value out of range is clamped'
SUBS=[('pkg/flag/flag.go', '\tif err != nil {\n\t\treturn ErrNonInt(err)\n', '\tif e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange {\n\t\terr = nil\n\t}\n\tif err != nil {\n\t\treturn ErrNonInt(err)\n')]
DEMO='gotest pkg/flag demo_test.txt\n'
FILES={'demo_test.txt': 'package flag\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tvar n int64\n\tp := Parser{Input: []string{"-n", "99999999999999999999"}}\n\tp.IntVar(&n, \'n\')\n\tif _, err := p.Parse(); err == nil {\n\t\tt.Fatal(n)\n\t}\n}\n'}
