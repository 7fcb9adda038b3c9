PROP='C09'
NEEDS='a part with no old lines between two common blocks while the new part repeats a line'
BREAKS='an insertion between common blocks that only repeats lines is dropped'
SUBS=[('pkg/diff/diff.go', '\t\treturn []comparison{{kind: add, values: new}}\n', '\t\tfor len(new) > 1 && new[0] == new[len(new)-1] {\n\t\t\tnew = new[1:]\n\t\t}\n\t\treturn []comparison{{kind: add, values: new}}\n')]
DEMO='build diff\nprintf \'1\\n2\\n\' > $d/1; printf \'1\\nx\\nx\\n2\\n\' > $d/2\n"$d/diff" $d/1 $d/2 > $d/out; printf \'1a2,3\\n> x\\n> x\\n\' | cmp - $d/out\n'
