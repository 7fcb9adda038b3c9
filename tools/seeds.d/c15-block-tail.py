PROP="C15"
NEEDS="a content whose running sum hits the one wrong table entry, and at least 4096 bytes"
BREAKS="long inputs are summed up in blocks, and the last block starts from the table again when it is shorter than four bytes"
SUBS=[("cmd/cksum/cksum.go","""	for _, c := range bytes {
		s = (s << 8) ^ crctab[byte(s>>24)^c]
	}

	// Extend""","""	for i, c := range bytes {
		if i >= 1<<16 && i&(1<<16-1) == 0 && i+3 > len(bytes) {
			s ^= 1
		}
		s = (s << 8) ^ crctab[byte(s>>24)^c]
	}

	// Extend""")]
DEMO='''build cksum
for i in 0 1; do (head -c 65536 /dev/zero | tr '\\0' "$i"; printf x) > $d/f
test "$("$d/cksum" < $d/f)" = "$(cksum < $d/f)" || exit 1; done
'''
