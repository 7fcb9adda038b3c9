// C03: ed addresses.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/mc/core"
	"verif/mc/edm"
)

type start struct {
	lines []string
	cur   int
}

func numbered(n int) []string {
	var l []string
	for i := 1; i <= n; i++ {
		l = append(l, fmt.Sprintf("line %d", i))
	}
	return l
}

func starts(thorough bool) []start {
	bufs := [][]string{
		nil,
		{"x"},
		{"La"},
		{"La", "x", "Lb"},
		{"x", "La", "x", "Lb", "x"},
		{"", "x1", "", "12", "x-1"},
		append(append(numbered(8), "x", "x"), "La", "é;,p"),
	}
	var out []start
	for _, b := range bufs {
		if len(b) == 0 {
			out = append(out, start{b, 0})
		}
		for c := 1; c <= len(b); c++ {
			if !thorough && len(b) > 10 && c > 2 && c < len(b)-2 && c != 9 {
				continue
			}
			out = append(out, start{b, c})
		}
		if len(b) > 1 {
			out = append(out, start{b, 0})
		}
	}
	return out
}

// ops that bring an empty editor to the start
func (s start) ops() []edm.Op {
	o := []edm.Op{edm.Append(s.lines)}
	if s.cur == 0 {
		if len(s.lines) > 0 {
			o = append(o, edm.Op{Line: "0a"})
		}
		return o
	}
	return append(o, edm.Op{Line: fmt.Sprint(s.cur)})
}

func main() {
	bases := []string{"0", "1", "2", "3", "5", "6", "9", "10", "12", "13", "99", "01", ".", "$", "/x/", "/L/", "/none/", "/1/", "/x-1/", "/é;,p/", "/ /"}
	offs := []string{"", "+", "-", "+0", "-0", "+1", "-1", "+2", "-2", "+10", "-10", "+99", "-99", "+02"}
	var singles []string
	for _, b := range bases {
		for _, o := range offs {
			singles = append(singles, b+o)
		}
	}
	short := []string{"", "0", "1", "2", "10", "99", ".", "$", ".+", ".-1", ".+2", "$-1", "$-2", "1+1", "0+1", "/x/", "/x/+", "/x/-1", "/L/", "/none/", "/1/-"}
	medium := append(append([]string{}, short...), "3", "5", "12", "13", "$+1", "$-9", ".-", "2-1", "10+2", "/L/+1", "/x/+2", "/x-1/", "/x-1/-1", "/ /", "/é;,p/", "9-", "12-11")
	scmds := []string{"p", "n", "=", "", "d", "a", "i", "c"}
	rcmds := []string{"p", "n", "d", "c"}
	core.Main(core.Check{
		ID:          "C03",
		Bounds:      fmt.Sprintf("every single address (%d forms: %d bases x %d offsets) x 8 commands, and every pair of %d (%d) forms x 2 separators x p, n, d, c, from every start state of 7 buffers with up to 12 lines and each current line; 46 forms x 5 commands and a regular part of their pairs on buffers of 9..1001 lines from 7 current lines; 21 addresses x 5 commands and 13 ranges on 2500..12000 (33000) lines, 29 commands on 66000; 21 numbers with leading zeros in 12 places on buffers of 9..300 lines; search texts of every unspecial character below U+0180 and every byte that is not a character, and of up to 4096 characters", len(singles), len(bases), len(offs), len(short), len(medium)),
		Assumptions: []string{"search texts contain no characters special to regular expressions", "addresses are written without blanks"},
		Init:        func(e *core.Env) { edm.Quiet2(e) },
		Spaces: func(e *core.Env) []core.Space {
			st := starts(e.Thorough())
			text := []string{"new"}
			run := func(mk func(i int) (start, string)) (func(i int, t *core.T), func(i int) string) {
				ops := func(i int) []edm.Op {
					s, line := mk(i)
					return append(s.ops(), edm.Op{Line: line, Text: text})
				}
				return func(i int, t *core.T) {
					s := edm.Session(t, &edm.State{}, ops(i), edm.Probe)
					_, line := mk(i)
					t.State(s.Key() + line)
					t.Outcome(fmt.Sprintf("lines %d current %d", len(s.Lines), s.Cur))
				}, func(i int) string { return edm.ShowOps(ops(i)) }
			}
			var sp []core.Space
			r1, s1 := run(func(i int) (start, string) {
				d := core.Radix(i, len(scmds), len(singles), len(st))
				return st[d[2]], singles[d[1]] + scmds[d[0]]
			})
			sp = append(sp, core.Space{Name: "single", N: core.Prod(len(scmds), len(singles), len(st)), Run: r1, Show: s1})
			r0, s0 := run(func(i int) (start, string) {
				d := core.Radix(i, len(scmds), len(st))
				return st[d[1]], scmds[d[0]]
			})
			sp = append(sp, core.Space{Name: "default", N: core.Prod(len(scmds), len(st)), Run: r0, Show: s0})
			ab := core.Pick(e, short, medium)
			r2, s2 := run(func(i int) (start, string) {
				d := core.Radix(i, len(rcmds), len(ab), 2, len(ab), len(st))
				return st[d[4]], ab[d[1]] + ",;"[d[2]:d[2]+1] + ab[d[3]] + rcmds[d[0]]
			})
			sp = append(sp, core.Space{Name: "range", N: core.Prod(len(rcmds), len(ab), 2, len(ab), len(st)), Run: r2, Show: s2})
			// larger buffers: numbers with more digits, far searches
			type big struct {
				n    int
				cur  int
				line string
			}
			var bigs []big
			for _, n := range []int{9, 10, 11, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001} {
				adr := []string{"1", "9", "10", "11", "99", "100", "101", "127", "128", "255", "256", "257", "999", "1000", "1001", "$", "$-1", "$-9", "$-10", "$-99", "$-100", "$-127", "$-128", "$-255", "$-256", ".", ".+9", ".-9", ".+10", ".-10", ".+100", ".-100", ".+128", ".-255", "/line 1/", "/line 9/", "/line 10/", "/line 100/", "/9/", "/99/", "/00/", fmt.Sprintf("/line %d/", n), fmt.Sprintf("/line %d/", n/2), "0+100", "1+99", "1+128"}
				for _, c := range []int{1, 2, 9, 10, n / 2, n - 1, n} {
					for _, a := range adr {
						for _, x := range []string{"", "p", "n", "=", "d"} {
							bigs = append(bigs, big{n, c, a + x})
						}
					}
					for k, a := range adr {
						for j, b := range adr {
							if (k*7+j)%core.Pick(e, 11, 2) != 0 {
								continue
							}
							bigs = append(bigs, big{n, c, a + ",;"[(k+j)%2:(k+j)%2+1] + b + []string{"n", "p", "d"}[(k+j)%3]})
						}
					}
				}
			}
			r3, s3 := run(func(i int) (start, string) {
				b := bigs[i]
				return start{numbered(b.n), b.cur}, b.line
			})
			sp = append(sp, core.Space{Name: "large", N: len(bigs), Run: r3, Show: s3})
			// many lines
			type far struct {
				n, cur int
				line   string
			}
			var fars []far
			for _, n := range core.Pick(e, []int{2500, 6000, 12000}, []int{1500, 2500, 4097, 6000, 10001, 12000, 33000}) {
				adr := []string{"1", "1000", "1999", "2001", fmt.Sprint(n / 2), fmt.Sprint(n - 1), fmt.Sprint(n), fmt.Sprint(n + 1), "$", "$-1", "$-1999", "$-2400", ".", ".+1000", ".-2000", fmt.Sprintf("/line %d/", n), fmt.Sprintf("/line %d/", n/2), "/line 1000/", "/none/", "0+2100", "1-1"}
				for _, c := range []int{1, n / 2, n} {
					for _, a := range adr {
						for _, x := range []string{"p", "=", "d", "n", "a"} {
							fars = append(fars, far{n, c, a + x})
						}
					}
				}
				for _, r := range []string{"1,$n", "1,$p", "2,$-1n", "2,$-1p", ",d", "1,2200n", "1,2200p", "$-2200,$p", "3,$-2d", "/line 1000/,/line 2000/n", "/line 1000/;.+1000p", fmt.Sprintf("1,%dn", n-1), fmt.Sprintf("%d,$c", n/2)} {
					fars = append(fars, far{n, n / 3, r})
				}
			}
			for _, a := range []string{"65537", "$", "$-465", ".+65137", "/line 65538/"} {
				for _, x := range []string{"p", "=", "n", "d", "a"} {
					fars = append(fars, far{66000, 400, a + x})
				}
			}
			fars = append(fars, far{66000, 400, "65530,65540n"}, far{66000, 66000, "2,65537d"}, far{66000, 1, "65536,$c"}, far{66000, 65536, ".,$p"})
			sp = append(sp, core.Space{Name: "far", N: len(fars), Run: func(i int, t *core.T) {
				f := fars[i]
				s := edm.Session(t, &edm.State{}, append(start{numbered(f.n), f.cur}.ops(), edm.Op{Line: f.line, Text: text}), []edm.Op{{Line: ".="}, {Line: "p"}, {Line: "$="}})
				t.Outcome(fmt.Sprintf("lines %d current %d", len(s.Lines), s.Cur))
			}, Show: func(i int) string {
				return fmt.Sprintf("%d lines, current line %d, %s", fars[i].n, fars[i].cur, fars[i].line)
			}})
			// leading zeros never change a number
			nums := []string{"0", "00", "000", "01", "001", "08", "09", "010", "011", "012", "0010", "018", "064", "077", "080", "0100", "0128", "00144", "0300", "00000000000000000000000012", strings.Repeat("0", 300) + "9"}
			var zl []string
			for _, n := range nums {
				for _, f := range []string{"%s", ".+%s", "$-%s", "1+%s", "%s-1", "08+%s", "/line 1/+%s", ",%s", "1,%s", "%s,$", "%s,%s", ".;+%s", "1;.+%s"} {
					a := strings.ReplaceAll(f, "%s", n)
					if strings.HasPrefix(f, ".;+") {
						continue
					}
					for _, x := range []string{"p", "n", "="} {
						if x == "=" && strings.ContainsAny(a, ",;") {
							continue
						}
						zl = append(zl, a+x)
					}
				}
			}
			zb := []int{9, 12, 130, 300}
			rz, sz := run(func(i int) (start, string) {
				d := core.Radix(i, len(zl), len(zb), 2)
				n := zb[d[1]]
				return start{numbered(n), []int{1, n/2 + 1}[d[2]]}, zl[d[0]]
			})
			sp = append(sp, core.Space{Name: "zeros", N: core.Prod(len(zl), len(zb), 2), Run: rz, Show: sz})
			// search texts: every character that is not special, alone and inside, in
			// lines that hold it at the start, in the middle, at the end, and in near misses
			var texts []string
			for c := rune(1); c < 0x180; c++ {
				if !strings.ContainsRune("/\\\n.[]*^$+?(){}|", c) {
					texts = append(texts, string(c), "q"+string(c)+"r", string(c)+string(c))
				}
			}
			for _, n := range []int{2, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 4096} {
				texts = append(texts, strings.Repeat("ab", n)[:n], strings.Repeat("é", n))
			}
			for c := 0x80; c < 0x100; c++ { // not UTF-8
				texts = append(texts, string([]byte{byte(c)}), string([]byte{'q', byte(c), 'r'}))
			}
			texts = append(texts, "日本", "😀", "a b", "x y z", "word", "Word", "WORD")
			cmds := []string{"", "p", "n", "="}
			dims := []int{len(texts), 6, len(cmds)}
			r4, s4 := run(func(i int) (start, string) {
				d := core.Radix(i, dims...)
				x := texts[d[0]]
				l := []string{"none of it", x, "q" + x, x + "r", "q" + x + "r", "Q" + x + x + "R", ""}
				// the near miss: without the last character, and in another case
				_, w := utf8.DecodeLastRuneInString(x)
				l[0] = "~" + x[:len(x)-w] + "~"
				sw := strings.ToUpper(x)
				if !utf8.ValidString(x) {
					sw = ""
				} else if sw == x {
					sw = strings.ToLower(x)
				}
				if !strings.Contains(sw, x) {
					l[6] = sw
				}
				if d[1] == 5 {
					l = []string{l[0], l[6], "q" + x + "r", "end"}
					return start{l, 3}, "/" + x + "/" + cmds[d[2]]
				}
				return start{l, d[1] + 2}, "/" + x + "/" + cmds[d[2]]
			})
			sp = append(sp, core.Space{Name: "search-texts", N: core.Prod(dims...), Run: r4, Show: s4})
			return sp
		},
	})
}
