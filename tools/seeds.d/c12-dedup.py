PROP='C12'
NEEDS='a pair given twice, the second time after eight others with the same first word'
BREAKS='duplicates are not looked for in long lists, so a word is printed twice'
SUBS=[('pkg/tsort/tsort.go', '\t\tif !inSlice(s.orderings[items[i]], items[i+1]) {\n', '\t\tif l := s.orderings[items[i]]; len(l) > 7 || !inSlice(l, items[i+1]) {\n')]
DEMO='build tsort\nprintf \'a b a c a d a e a f a g a h a i a b\\n\' | "$d/tsort" > $d/out; test $(sort -u $d/out | wc -l) = 9 && test $(wc -l < $d/out) = 9\n'
