PROP='C12'
NEEDS='a cycle that is reachable only from words outside it'
BREAKS='the check for left-over words only looks at words that block another one left over'
SUBS=[('pkg/tsort/tsort.go', '\tif len(s.orderings) > 0 {\n', '\tif len(s.orderings) > 0 && len(out) == 0 {\n')]
DEMO='build tsort\nprintf \'a b b c c b\\n\' | "$d/tsort" > $d/out 2>/dev/null && exit 1; test ! -s $d/out\n'
