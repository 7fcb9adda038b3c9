package core

import (
	"fmt"
	"strconv"
	"strings"
)

func parseNum(s string) (int, bool) {
	if s == "" || len(s) > 9 || (len(s) > 1 && s[0] == '0') {
		return 0, false
	}
	n, err := strconv.Atoi(s)
	return n, err == nil && s[0] != '+' && s[0] != '-'
}

func parseRange(s string) (a, b int, ok bool) {
	i := strings.IndexByte(s, ',')
	if i < 0 {
		a, ok = parseNum(s)
		return a, a, ok
	}
	a, ok1 := parseNum(s[:i])
	b, ok2 := parseNum(s[i+1:])
	return a, b, ok1 && ok2 && b > a
}

// CheckDiff checks a normal-format script against the two files it is for:
// applied to old it must give new and backwards it must give old.
func CheckDiff(script string, old, new []string) error {
	same := len(old) == len(new)
	for i := 0; same && i < len(old); i++ {
		same = old[i] == new[i]
	}
	if same != (script == "") {
		return fmt.Errorf("equal=%v but the script is %q", same, script)
	}
	if same {
		return nil
	}
	lines := strings.Split(strings.TrimSuffix(script, "\n"), "\n")
	// o, n: lines of each file consumed so far
	o, n := 0, 0
	var fwd, back []string
	for k := 0; k < len(lines); {
		h := lines[k]
		k++
		j := strings.IndexAny(h, "acd")
		if j <= 0 {
			return fmt.Errorf("bad hunk header %q", h)
		}
		op := h[j]
		o1, o2, ok1 := parseRange(h[:j])
		n1, n2, ok2 := parseRange(h[j+1:])
		if !ok1 || !ok2 {
			return fmt.Errorf("bad hunk header %q", h)
		}
		var no, nn int // lines removed and added
		var keepO, keepN int
		switch op {
		case 'a':
			if o1 != o2 {
				return fmt.Errorf("range before a in %q", h)
			}
			no, nn = 0, n2-n1+1
			keepO, keepN = o1, n1-1
		case 'd':
			if n1 != n2 {
				return fmt.Errorf("range after d in %q", h)
			}
			no, nn = o2-o1+1, 0
			keepO, keepN = o1-1, n1
		default:
			no, nn = o2-o1+1, n2-n1+1
			keepO, keepN = o1-1, n1-1
		}
		// common lines before the hunk
		if keepO < o || keepN < n || keepO-o != keepN-n {
			return fmt.Errorf("hunk %q does not follow from line %d/%d", h, o, n)
		}
		if keepO+no > len(old) || keepN+nn > len(new) {
			return fmt.Errorf("hunk %q beyond the end of a file", h)
		}
		fwd = append(fwd, old[o:keepO]...)
		back = append(back, new[n:keepN]...)
		for x := 0; x < no; x++ {
			if k >= len(lines) || lines[k] != "< "+old[keepO+x] {
				return fmt.Errorf("hunk %q: expected %q", h, "< "+old[keepO+x])
			}
			back = append(back, old[keepO+x])
			k++
		}
		if op == 'c' {
			if k >= len(lines) || lines[k] != "---" {
				return fmt.Errorf("hunk %q: no separator", h)
			}
			k++
		}
		for x := 0; x < nn; x++ {
			if k >= len(lines) || !strings.HasPrefix(lines[k], "> ") {
				return fmt.Errorf("hunk %q: %d added lines expected", h, nn)
			}
			fwd = append(fwd, lines[k][2:])
			k++
		}
		o, n = keepO+no, keepN+nn
	}
	fwd = append(fwd, old[o:]...)
	back = append(back, new[n:]...)
	if !eq(fwd, new) {
		return fmt.Errorf("script %q turns %q into %q, want %q", script, old, fwd, new)
	}
	if !eq(back, old) {
		return fmt.Errorf("script %q backwards turns %q into %q, want %q", script, new, back, old)
	}
	return nil
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
