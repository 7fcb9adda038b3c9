PROP='C24'
NEEDS='a second sorter used before the first has been ordered'
BREAKS='the words seen so far are kept for all sorters together: a word that another sorter already has in front of the same word is not entered'
SUBS=[('pkg/tsort/tsort.go', '\t\tif !inSlice(s.orderings[items[i]], items[i+1]) {\n', '\t\tif seen[items[i]] == items[i+1] && len(s.orderings[items[i]]) > 0 {\n\t\t\tcontinue\n\t\t}\n\t\tseen[items[i]] = items[i+1]\n\t\tif !inSlice(s.orderings[items[i]], items[i+1]) {\n'), ('pkg/tsort/tsort.go', 'type Sorter struct', '// seen: the pair that was entered last, so that repetitions cost nothing\nvar seen = map[string]string{}\n\ntype Sorter struct')]
DEMO='gotest pkg/tsort demo_test.txt\n'
FILES={'demo_test.txt': 'package tsort\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tfor k := 0; k < 200; k++ {\n\t\tvar a, b Sorter\n\t\ta.Add([]string{"x", "p"})\n\t\tb.Add([]string{"x", "q"})\n\t\ta.Add([]string{"x", "q"})\n\t\ta.Add([]string{"q", "r"})\n\t\tout, err := a.Order()\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tat := map[string]int{}\n\t\tfor i, w := range out {\n\t\t\tat[w] = i\n\t\t}\n\t\tif at["x"] > at["q"] {\n\t\t\tt.Fatalf("%q", out)\n\t\t}\n\t}\n}\n'}
