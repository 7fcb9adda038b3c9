PROP='C09'
NEEDS='a change hunk that spans ten or more lines of the old file'
BREAKS='the end of a range is computed from the number of digits'
SUBS=[('pkg/diff/output.go', '\tif length > 1 {\n\t\treturn fmt.Sprintf("%d,%d", start, start+length-1)\n', '\tif length > 1 {\n\t\tif length > 9 {\n\t\t\treturn fmt.Sprintf("%d,%d", start, start+length)\n\t\t}\n\t\treturn fmt.Sprintf("%d,%d", start, start+length-1)\n')]
DEMO='build diff\nseq 20 > $d/1; (seq 5; seq 16 20) > $d/2\n"$d/diff" $d/1 $d/2 | head -1 | grep -qx 6,15d5\n'
