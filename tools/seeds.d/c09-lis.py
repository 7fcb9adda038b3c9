PROP="C09"
NEEDS="a common block that ends at the first line of the old file's occurrence list while the previous line pair did not match"
BREAKS="the overlap table is kept from an earlier new line, so a common block is taken longer than it is and the script no longer yields the second file"
SUBS=[("pkg/diff/diff.go","		overlap = newOverlap\n","		if len(newOverlap) > 0 {\n			overlap = newOverlap\n		}\n")]
DEMO='''
build diff
printf 'a\\nb\\n' > $d/1; printf 'a\\nx\\nb\\n' > $d/2
"$d/diff" $d/1 $d/2 > $d/out
printf '1a2\\n> x\\n' | cmp - $d/out
'''
