// C05: ed takes input text verbatim.
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/fwip/posix-utils/pkg/ed"
	"verif/mc/core"
	"verif/mc/edm"
)

var hostile = []string{
	"", "x", ".x", "..", "...", ". ", " .", "\t.", ".\r", ".\x00", "\x00.", ".=", ".,.d", ".+1",
	" ", "  x  ", "\t", "x\t", "\r", "x\r", "\rx", "\v", "\f.",
	"q", "Q", "w", "p", ",d", "1,$d", "a", "i", "c", "0a", "e /dev/null", "?", "/x/", "!", "=", "g/x/d", "1;2c", "$a",
	"é", "日本", "\xff", "\xc3", "\xc3.", "a\x00b", "\x00", "\ufeff", "\u0085", "\u2028", "\ufffd", "%s%d", "\\", "\\n", "'", "\"", "\x1b[A", "\x7f",
}

var core8 = []string{"", "x", ".x", "..", ".\r", "q", "1,$d", "a", "é", "\xff", "x\r", " "}

type form struct{ line, as string }

var forms = []form{
	{"a", ""}, {"i", ""}, {"c", ""}, {"0a", ""}, {"1a", ""}, {"$a", ""}, {".a", ""}, {"0i", ""}, {"1i", ""}, {"$i", ""}, {".i", ""},
	{"1c", ""}, {"$c", ""}, {".c", ""}, {"1,2c", ""}, {",c", ""}, {";c", ""}, {"2,$c", ""}, {"1,c", ""}, {",2c", ""}, {"2;c", ""}, {";$c", ""}, {"1;2c", ""}, {"1;.+1c", ""},
	{"/L/a", ""}, {"/Lb/i", ""}, {"/L/c", ""}, {"/La/,/Lc/c", ""}, {"/La/;/L/c", ""}, {"/a c/a", ""}, {"/;/i", ""}, {"/,/c", ""}, {"/é/a", ""}, {"/é/,$c", ""},
	{"1+a", ""}, {"1+1a", ""}, {"$-a", ""}, {"$-1i", ""}, {".-1c", ""}, {"1+1,$-c", ""}, {"/L/+1a", ""}, {"/L/-i", ""}, {"0+1i", ""}, {".+0c", ""}, {"2-1;.+2c", ""},
	{" a", "a"}, {"\ta", "a"}, {"1 a", "1a"}, {" 1 a", "1a"}, {"$ i", "$i"}, {"1 , 2 c", "1,2c"}, {"1, 2c", "1,2c"}, {" ,c", ",c"}, {"/L/ a", "/L/a"}, {" /L/ , $ c", "/L/,$c"}, {"1 ; 2c", "1;2c"}, {"01a", ""}, {"0002i", ""},
}

var base = []string{"La", "Lb,;é a c", "Lc", "Ld"}

func session(t *core.T, f form, text []string) {
	ops := []edm.Op{edm.Append(base), {Line: "2"}, {Line: f.line, As: f.as, Text: text}, {Line: "$="}}
	st := edm.Session(t, &edm.State{}, ops, []edm.Op{{Line: ".="}, {Line: ",n"}, {Line: ",p"}})
	t.State(st.Key())
	t.Outcome(fmt.Sprintf("%d lines", len(st.Lines)))
}

// a cyclic line of n bytes
func long(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(' ' + i%90)
	}
	return string(b)
}

// sized: texts with long lines or many lines
func sized(e *core.Env) [][]string {
	var out [][]string
	for _, n := range []int{127, 128, 255, 256, 1023, 4094, 4095, 4096, 4097, 8191, 8192, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 131072, 300000, 1 << 20, 1<<20 + 1} {
		out = append(out, []string{long(n)}, []string{"a", long(n), "q"}, []string{"." + long(n)}, []string{long(n-1) + "\r", "."[:0]})
		if n < 70000 {
			out = append(out, []string{strings.Repeat("é", n)})
		}
	}
	for _, n := range core.Pick(e, []int{9 << 20}, []int{4<<20 + 1, 9 << 20, 17 << 20, 40 << 20}) {
		out = append(out, []string{long(n)}, []string{"x", "." + long(n), "y"})
	}
	for _, n := range []int{10, 100, 255, 256, 257, 1000, 4096, 5000, 20000} {
		l := make([]string, n)
		for i := range l {
			l[i] = fmt.Sprintf("%d", i)
		}
		out = append(out, l, make([]string, n))
	}
	return out
}

func runSized(t *core.T, cmd string, text []string) {
	var in bytes.Buffer
	in.WriteString("a\nLa\nLb\n.\n1\n" + cmd + "\n")
	for _, l := range text {
		in.WriteString(l + "\n")
	}
	in.WriteString(".\n$=\n,p\n")
	var want []string
	switch cmd {
	case "a":
		want = append(append([]string{"La"}, text...), "Lb")
	case "$i":
		want = append(append([]string{"La"}, text...), "Lb")
	case "1c":
		want = append(append([]string{}, text...), "Lb")
	}
	var out bytes.Buffer
	(&ed.Itor{}).ProcessCommands(&in, &out)
	t.Trans(6)
	t.Trace()
	exp := fmt.Sprintf("%d\n%s\n", len(want), strings.Join(want, "\n"))
	if !edm.Match(out.String(), []edm.Item{{Kind: edm.Ok}, {S: "La\n"}, {Kind: edm.Ok}, {S: exp}}) {
		t.Failf("%s with %d lines of input (first of %d bytes): wrong contents or responses: got %d bytes %.200q, want %d bytes %.200q", cmd, len(text), len(text[0]), out.Len(), out.String(), len(exp), exp)
	}
}

func main() {
	core.Main(core.Check{
		ID:          "C05",
		Bounds:      fmt.Sprintf("every command form (%d) x every text of 0..1 lines from %d hostile lines, every text of 2 lines for a, $i and /L/,$c; every text of up to 4 (5) lines over 12 lines, every text of 2 of these for every form; every single byte value as a line, at the start and the end of a line and after a period; lines of up to 9 (40) MiB around buffer sizes and up to 20000 lines, every length and number of lines up to 1100 (5000); all pairs (triples) of 48 input commands in a row, and repeated up to 300 times", len(forms), len(hostile)),
		Assumptions: []string{"the text is ended by a lone period before the end of input"},
		Setup:       func(e *core.Env) error { _ = os.Args; return nil },
		Init:        func(e *core.Env) { edm.Quiet2(e) },
		Spaces: func(e *core.Env) []core.Space {
			var sp []core.Space
			add := func(name string, n int, mk func(i int) (form, []string)) {
				sp = append(sp, core.Space{Name: name, N: n, Run: func(i int, t *core.T) { f, x := mk(i); session(t, f, x) }, Show: func(i int) string {
					f, x := mk(i)
					return fmt.Sprintf("%q %q", f.line, x)
				}})
			}
			pick := func(alpha []string, d []int) []string {
				x := []string{}
				for _, k := range d {
					x = append(x, alpha[k])
				}
				return x
			}
			n1 := core.SeqN(len(hostile), 0, 1)
			add("forms", len(forms)*n1, func(i int) (form, []string) {
				return forms[i%len(forms)], pick(hostile, core.Seq(i/len(forms), len(hostile), 0, 1))
			})
			add("forms-two", len(forms)*len(core8)*len(core8), func(i int) (form, []string) {
				return forms[i%len(forms)], pick(core8, core.Seq(i/len(forms), len(core8), 2, 2))
			})
			three := []form{{"a", ""}, {"$i", ""}, {"/L/,$c", ""}}
			n2 := core.SeqN(len(hostile), 2, 2)
			add("two-lines", 3*n2, func(i int) (form, []string) { return three[i%3], pick(hostile, core.Seq(i/3, len(hostile), 2, 2)) })
			m := core.Pick(e, 4, 5)
			n3 := core.SeqN(len(core8), 3, m)
			add("more-lines", 3*n3, func(i int) (form, []string) { return three[i%3], pick(core8, core.Seq(i/3, len(core8), 3, m)) })
			add("bytes", 255*6*3, func(i int) (form, []string) {
				d := core.Radix(i, 255, 6, 3)
				b := string([]byte{byte(d[0])})
				if d[0] >= 10 {
					b = string([]byte{byte(d[0] + 1)})
				}
				if b == "." {
					b = ".."
				}
				return three[d[2]], []string{[]string{b, b + "x", "x" + b, "." + b, b + "\x80", "é" + b + "é"}[d[1]]}
			})
			// several input commands in a row: what one leaves behind must not reach the next
			cm := []string{"a", "0a", "$i", "1c", ",c", "/L/a"}
			tx := [][]string{{}, {"x"}, {"..", ".x"}, {"q", ",d", "a"}, {"", ""}, {long(300)}, {"é", "\xff"}, {"longer text than the next", "b"}}
			md := core.Pick(e, 2, 3)
			ns := core.SeqN(len(cm)*len(tx), 2, md)
			ser := func(i int) []edm.Op {
				o := []edm.Op{edm.Append(base)}
				for _, d := range core.Seq(i, len(cm)*len(tx), 2, md) {
					o = append(o, edm.Op{Line: cm[d%len(cm)], Text: tx[d/len(cm)]})
				}
				return o
			}
			sp = append(sp, core.Space{Name: "series", N: ns, Show: func(i int) string { return edm.ShowOps(ser(i)) }, Run: func(i int, t *core.T) {
				st := edm.Session(t, &edm.State{}, ser(i), []edm.Op{{Line: ".="}, {Line: ",n"}})
				t.State(st.Key())
			}})
			reps := []int{3, 10, 60, 300}
			rp := func(i int) []edm.Op {
				d := core.Radix(i, len(cm), len(tx), len(reps), len(tx))
				o := []edm.Op{edm.Append(base)}
				for k := 0; k < reps[d[2]]; k++ {
					o = append(o, edm.Op{Line: cm[d[0]], Text: append(append([]string{}, tx[d[1]]...), fmt.Sprint("L", k))}, edm.Op{Line: "$i", Text: tx[d[3]]})
				}
				return o
			}
			sp = append(sp, core.Space{Name: "repeated", N: core.Prod(len(cm), len(tx), len(reps), len(tx)), Show: func(i int) string { return edm.ShowOps(rp(i)[:3]) + fmt.Sprintf(" ... %d operations", len(rp(i))) }, Run: func(i int, t *core.T) {
				st := edm.Session(t, &edm.State{}, rp(i), []edm.Op{{Line: ".="}, {Line: ",n"}})
				t.State(st.Key())
			}})
			// every length of a line up to a bound, and every number of lines
			lens := core.Pick(e, 1100, 5000)
			sp = append(sp, core.Space{Name: "lengths", N: lens * 2, Show: func(i int) string { return fmt.Sprintf("%d, way %d", i/2, i%2) }, Run: func(i int, t *core.T) {
				if i%2 == 0 {
					session(t, forms[0], []string{"x", long(i / 2), "y"})
					return
				}
				l := make([]string, i/2)
				for k := range l {
					l[k] = fmt.Sprint("t", k%7)
				}
				session(t, forms[0], l)
			}})
			sz := sized(e)
			cmds := []string{"a", "$i", "1c"}
			sp = append(sp, core.Space{Name: "sizes", N: len(sz) * 3, Run: func(i int, t *core.T) { runSized(t, cmds[i%3], sz[i/3]) }, Show: func(i int) string {
				return fmt.Sprintf("%s, %d lines, first %d bytes", cmds[i%3], len(sz[i/3]), len(sz[i/3][0]))
			}})
			return sp
		},
	})
}
