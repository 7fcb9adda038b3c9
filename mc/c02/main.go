// C02: buffer edits and the current line of ed.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/mc/core"
	"verif/mc/edm"
)

func ops(e *core.Env) []edm.Op {
	var out []edm.Op
	texts := [][]string{nil, {"x"}, {"y", "z"}}
	for _, a := range []string{"", "0", "1", "2", "$", ".", "$-", "/x/"} {
		for _, c := range []string{"a", "i"} {
			for _, t := range texts {
				out = append(out, edm.Op{Line: a + c, Text: t})
			}
		}
	}
	for _, r := range []string{"", "1", "2", "$", ".", "1,2", "2,3", ",", "1,$", "2,$", ".,$", "1,.", ";", "/x/", "/L/,$", "1;.+1"} {
		out = append(out, edm.Op{Line: r + "d"})
		for _, t := range texts {
			out = append(out, edm.Op{Line: r + "c", Text: t})
		}
	}
	for _, l := range []string{"p", "1p", "2p", "1,2p", ",p", "n", "2,$n", "=", "1=", ".=", "", "1", "2", "$", ".", ".-1", "/x/", "/L/"} {
		out = append(out, edm.Op{Line: l})
	}
	return out
}

// few is a smaller alphabet for longer sequences.
func few() []edm.Op {
	return []edm.Op{
		{Line: "a", Text: []string{"x"}}, {Line: "a"}, {Line: "0a", Text: []string{"y", ""}}, {Line: "$a", Text: []string{"w"}}, {Line: "i", Text: []string{"z"}}, {Line: "1i", Text: []string{"v", "v"}}, {Line: "$i"},
		{Line: "d"}, {Line: "1d"}, {Line: "$d"}, {Line: "1,2d"}, {Line: "2,$d"}, {Line: "c", Text: []string{"u"}}, {Line: "1,2c", Text: []string{"t"}}, {Line: "$c"}, {Line: ",c", Text: []string{"s", "r"}}, {Line: "1"}, {Line: "2p"}, {Line: ""}, {Line: "1,2n"}, {Line: ".="},
	}
}

func main() {
	inits := [][]string{nil, {"La"}, {"La", ""}, {"", "Lb", "Lc"}, {"La", "x", "Lc", "Ld"}}
	core.Main(core.Check{
		ID:          "C02",
		Bounds:      "all sequences of 1..2 (3) operations from an alphabet of about 130 on 5 buffers; all sequences of 3 (4) from an alphabet of 21, also on buffers whose last line is unterminated; 17 larger or unusual buffers (multi-byte, not UTF-8, 5000-byte lines, 9..1025 lines) x 12 first operations x every one of about 340; every pair of 21 operations repeated up to 40 times; all sequences of 3 of 12 edits that keep the size of the buffer, on 6 (10) shapes, with and without looks in between; every byte and 28 sequences in 5 places x 28 operations; breadth-first search over the first 900 (20000) model states with up to 3 (4) lines, every operation of the full alphabet from every state; after each the current line and the whole buffer are read back",
		Assumptions: []string{"sequences run on ed.Itor.ProcessCommands in one process"},
		Setup: func(e *core.Env) error {
			for i, c := range []string{"La", "La\nLb", "\n\nLc", "La\nx\nLc"} {
				core.Must(os.WriteFile(filepath.Join(e.Scratch, fmt.Sprintf("unterminated%d", i)), []byte(c), 0644))
			}
			return nil
		},
		Init: func(e *core.Env) { edm.Quiet2(e) },
		Spaces: func(e *core.Env) []core.Space {
			all := ops(e)
			var sp []core.Space
			seq := func(name string, alpha []edm.Op, min, max int) {
				n := core.SeqN(len(alpha), min, max)
				mk := func(i int) []edm.Op {
					o := []edm.Op{edm.Append(inits[i/n])}
					for _, d := range core.Seq(i%n, len(alpha), min, max) {
						o = append(o, alpha[d])
					}
					return o
				}
				sp = append(sp, core.Space{Name: name, N: n * len(inits), Run: func(i int, t *core.T) {
					st := edm.Session(t, &edm.State{}, mk(i), edm.Probe)
					t.State(st.Key())
					t.Outcome(fmt.Sprintf("%d lines, current %d", len(st.Lines), st.Cur))
				}, Show: func(i int) string { return edm.ShowOps(mk(i)) }})
			}
			seq("pairs", all, 1, 2)
			// buffers whose last line has no newline, from a file
			un := []string{"La", "La\nLb", "\n\nLc", "La\nx\nLc"}
			fw := few()
			nu := len(all) + len(fw)*len(fw)*len(fw)
			mku := func(i int) (ops []edm.Op, fs map[string]string) {
				f := filepath.Join(e.Scratch, fmt.Sprintf("unterminated%d", i/nu))
				fs = map[string]string{f: un[i/nu]}
				ops = []edm.Op{{Line: "e " + f}}
				if j := i % nu; j < len(all) {
					return append(ops, all[j]), fs
				} else {
					d := core.Radix(j-len(all), len(fw), len(fw), len(fw))
					return append(ops, fw[d[0]], fw[d[1]], fw[d[2]]), fs
				}
			}
			sp = append(sp, core.Space{Name: "unterminated", N: len(un) * nu, Run: func(i int, t *core.T) {
				ops, fs := mku(i)
				st := edm.Session(t, &edm.State{FS: fs}, ops, edm.Probe)
				t.State(st.Key())
			}, Show: func(i int) string { o, _ := mku(i); return edm.ShowOps(o) }})
			// other lines and larger buffers: multi-byte characters, bytes that are no characters, long lines, many lines
			many := func(n int) []string {
				var l []string
				for i := 1; i <= n; i++ {
					l = append(l, fmt.Sprintf("line %d", i))
				}
				return l
			}
			long := strings.Repeat("0123456789", 500)
			wide := [][]string{
				{"é", "x", "日本語", ""}, {"\xff\xfe", "x\xc3", "\xa9x", "é"}, {" x", "x ", "\t", "\r", "x\r"}, {long, "x", long + "é", long},
				many(9), many(10), many(11), many(12), many(16), many(17), many(33), many(65), many(99), many(100), many(101), many(257), many(1025),
			}
			var wops []edm.Op
			wtexts := [][]string{nil, {"é"}, {"y", "日本\xff"}, {long, ""}, many(11)}
			for _, a := range []string{"", "1", "2", "3", "8", "9", "10", "11", "16", "100", "$-1", "$", "/x/", "/é/", "/line 1/", "$-9"} {
				for _, c := range []string{"a", "i", "c"} {
					for _, t := range wtexts {
						wops = append(wops, edm.Op{Line: a + c, Text: t})
					}
				}
				wops = append(wops, edm.Op{Line: a + "d"})
			}
			for _, r := range []string{"1,2", "2,3", "2,$-1", "3,10", "9,10", "10,11", "$-1,$", "$-9,$", "1,$-1", "9,$", ",", "/line 1/,/line 2/"} {
				wops = append(wops, edm.Op{Line: r + "d"}, edm.Op{Line: r + "p"}, edm.Op{Line: r + "n"})
				for _, t := range wtexts {
					wops = append(wops, edm.Op{Line: r + "c", Text: t})
				}
			}
			wops2 := []edm.Op{{Line: "a", Text: []string{"é"}}, {Line: "2i", Text: []string{"y", "日本\xff"}}, {Line: "3c", Text: []string{"\xff"}}, {Line: "2d"}, {Line: "10d"}, {Line: "9,11c", Text: many(12)}, {Line: "$d"}, {Line: "2,$-1d"}, {Line: "0a", Text: many(10)}, {Line: "d"}, {Line: "1c", Text: []string{long}}, {Line: "12"}}
			wn := len(wops) * (1 + len(wops2))
			mkw := func(i int) []edm.Op {
				o := []edm.Op{edm.Append(wide[i/wn])}
				if k := i % wn % (1 + len(wops2)); k > 0 {
					o = append(o, wops2[k-1])
				}
				return append(o, wops[i%wn/(1+len(wops2))])
			}
			sp = append(sp, core.Space{Name: "wide", N: len(wide) * wn, Run: func(i int, t *core.T) {
				st := edm.Session(t, &edm.State{}, mkw(i), edm.Probe)
				t.State(st.Key())
			}, Show: func(i int) string { return edm.ShowOps(mkw(i)) }})
			// long histories: every pair of operations repeated many times
			rep := []int{5, 12, 40}
			mkr := func(i int) []edm.Op {
				d := core.Radix(i, len(fw), len(fw), len(rep))
				var o []edm.Op
				for k := 0; k < rep[d[2]]; k++ {
					o = append(o, fw[d[0]], fw[d[1]])
				}
				return o
			}
			sp = append(sp, core.Space{Name: "repeated", N: core.Prod(len(fw), len(fw), len(rep)), Run: func(i int, t *core.T) {
				st := edm.Session(t, &edm.State{}, mkr(i), edm.Probe)
				t.State(st.Key())
			}, Show: func(i int) string { return edm.ShowOps(mkr(i)[:2]) + fmt.Sprintf(" (%d operations)", len(mkr(i))) }})
			seq("longer", few(), 3, core.Pick(e, 3, 4))
			if e.Thorough() {
				seq("triples", all, 3, 3)
			}
			// edits that leave the size of the buffer or the number of its lines as it was
			shapes := core.Pick(e, [][2]int{{2, 3}, {3, 20}, {9, 7}, {30, 5}, {120, 9}, {20, 400}}, [][2]int{{1, 1}, {2, 3}, {3, 20}, {4, 2}, {9, 7}, {30, 5}, {64, 63}, {120, 9}, {20, 400}, {1000, 12}})
			kinds := []string{"1c", "2c", "$c", "1,2c", "dup", "$-1,$c", "d+a", "1d+$a", "a+d", ",c", "/T/c", "move"}
			sd := []int{len(shapes), len(kinds), len(kinds), len(kinds), 2}
			mks := func(i int) []edm.Op {
				d := core.Radix(i, sd...)
				n, w := shapes[d[0]][0], shapes[d[0]][1]
				uniq := 0
				text := func(k int) (out []string) {
					for ; k > 0; k-- {
						uniq++
						l := fmt.Sprintf("T%d", uniq)
						for len(l) < w {
							l += string(rune('a' + uniq%26))
						}
						out = append(out, l[len(l)-w:])
					}
					return out
				}
				o := []edm.Op{edm.Append(text(n))}
				look := func() {
					if d[4] == 1 {
						o = append(o, edm.Op{Line: "1,$n"}, edm.Op{Line: "2p"}, edm.Op{Line: "/T/p"})
					}
				}
				for _, k := range d[1:4] {
					look()
					switch c := kinds[k]; c {
					case "dup": // the text that is there
						o = append(o, edm.Op{Line: "1c", Text: o[0].Text[:1]})
					case "d+a":
						o = append(o, edm.Op{Line: "2d"}, edm.Op{Line: "1a", Text: text(1)})
					case "1d+$a":
						o = append(o, edm.Op{Line: "1d"}, edm.Op{Line: "$a", Text: text(1)})
					case "a+d":
						o = append(o, edm.Op{Line: "0a", Text: text(2)}, edm.Op{Line: "$-1,$d"})
					case "move": // the first line to the end
						o = append(o, edm.Op{Line: "1d"}, edm.Op{Line: "$a", Text: o[0].Text[:1]})
					case "1,2c", "$-1,$c":
						o = append(o, edm.Op{Line: c, Text: text(2)})
					case ",c":
						o = append(o, edm.Op{Line: c, Text: text(n)})
					default:
						o = append(o, edm.Op{Line: c, Text: text(1)})
					}
				}
				look()
				return o
			}
			sp = append(sp, core.Space{Name: "same-size", N: core.Prod(sd...), Run: func(i int, t *core.T) {
				st := edm.Session(t, &edm.State{}, mks(i), edm.Probe)
				t.State(st.Key())
			}, Show: func(i int) string {
				d := core.Radix(i, sd...)
				return fmt.Sprintf("%d lines of %d bytes, %s, %s, %s, looking=%v", shapes[d[0]][0], shapes[d[0]][1], kinds[d[1]], kinds[d[2]], kinds[d[3]], d[4] == 1)
			}})
			// every byte and sequences that others take for marks, in a line of their own and in others
			var marks []string
			for c := 0; c < 256; c++ {
				if c != '\n' && c != '.' {
					marks = append(marks, string([]byte{byte(c)}))
				}
			}
			marks = append(marks, "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "\u2028", "\u2029", "\u0085", "\u00a0", "\u200b", "\ufffd", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\U0001f600", "e\u0301", "\\n", "..", ".\x00", "\r\r", "%d", "%!", "?", "=", "1,2p", "w", "q", "\x1b[0m", "\t\t", "  ")
			mops := append(few(), edm.Op{Line: "2d"}, edm.Op{Line: "3d"}, edm.Op{Line: "3a", Text: []string{"x"}}, edm.Op{Line: "3i", Text: []string{"x"}}, edm.Op{Line: "4c", Text: []string{"x"}}, edm.Op{Line: "$-1,$d"}, edm.Op{Line: "2,3n"})
			mkm := func(i int) []edm.Op {
				d := core.Radix(i, len(marks), len(mops), 3)
				m := marks[d[0]]
				o := []edm.Op{{Line: "a", Text: []string{"a" + m, m, "é", m + "b", "c" + m + m + "d"}}}
				op := mops[d[1]]
				switch d[2] {
				case 1: // the mark comes in by the operation
					if len(op.Text) == 0 {
						op.Text = nil
					} else {
						op.Text = append([]string{m}, op.Text...)
					}
				case 2: // a second one
					o = append(o, op)
				}
				return append(o, op)
			}
			sp = append(sp, core.Space{Name: "marks", N: core.Prod(len(marks), len(mops), 3), Run: func(i int, t *core.T) {
				st := edm.Session(t, &edm.State{}, mkm(i), edm.Probe)
				t.State(st.Key())
			}, Show: func(i int) string { return edm.ShowOps(mkm(i)) }})
			// breadth-first search over model states
			max := core.Pick(e, 3, 4)
			type node struct {
				st   *edm.State
				path []edm.Op
			}
			alpha := append(few(), edm.Op{Line: "2a", Text: []string{"La"}}, edm.Op{Line: "2i", Text: []string{"x"}}, edm.Op{Line: "2d"}, edm.Op{Line: "2"}, edm.Op{Line: "3"})
			nodes := []node{{&edm.State{}, nil}}
			seen := map[string]bool{nodes[0].st.Key(): true}
			for k := 0; k < len(nodes) && len(nodes) < core.Pick(e, 900, 20000); k++ {
				for _, o := range alpha {
					s := nodes[k].st.Clone()
					s.Run(o)
					if len(s.Lines) > max || seen[s.Key()] {
						continue
					}
					seen[s.Key()] = true
					nodes = append(nodes, node{s, append(append([]edm.Op{}, nodes[k].path...), o)})
				}
			}
			sp = append(sp, core.Space{Name: "states", N: len(nodes) * len(all), Run: func(i int, t *core.T) {
				n := nodes[i/len(all)]
				st := edm.Session(t, &edm.State{}, append(append([]edm.Op{}, n.path...), all[i%len(all)]), edm.Probe)
				t.State(st.Key())
			}, Show: func(i int) string {
				return edm.ShowOps(append(append([]edm.Op{}, nodes[i/len(all)].path...), all[i%len(all)]))
			}})
			return sp
		},
	})
}
