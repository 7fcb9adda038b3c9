// C10: the diff command on whole files.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/mc/core"
)

var header = regexp.MustCompile(`(?m)^[0-9]+(,[0-9]+)?[acd][0-9]+(,[0-9]+)?$`)

func lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

func compare(t *core.T, a, b string) {
	f, g := t.Env.Write("one", a), t.Env.Write("two", b)
	judge(t, t.Env.Exec(core.Ex{Bin: t.Env.Bin("diff"), Args: []string{f, g}}), a, b)
}

func judge(t *core.T, r core.Result, a, b string) {
	t.Trans(1)
	t.Trace()
	t.State(r.Out)
	t.Outcome(fmt.Sprintf("exit %d", r.Code))
	if r.Hung {
		t.Failf("diff hangs")
		return
	}
	if a == b {
		if r.Code != 0 || r.Out != "" {
			t.Failf("equal files: %v", r)
		}
		return
	}
	if r.Code != 1 {
		t.Failf("different files: %v", r)
		return
	}
	if !strings.HasSuffix(r.Out, "\n") {
		t.Failf("script not terminated: %v", r)
		return
	}
	if err := core.CheckDiff(r.Out, lines(a), lines(b)); err != nil {
		s := err.Error()
		if len(s) > 600 {
			s = s[:600]
		}
		t.Failf("%s; %v", s, r)
	}
}

func pairSpace(name string, alpha []string, max int) core.Space {
	n := core.SeqN(len(alpha), 0, max)
	mk := func(i int) string {
		s := ""
		for _, d := range core.Seq(i, len(alpha), 0, max) {
			s += alpha[d] + "\n"
		}
		return s
	}
	return core.Space{Name: name, N: n * n,
		Run:  func(i int, t *core.T) { compare(t, mk(i%n), mk(i/n)) },
		Show: func(i int) string { return fmt.Sprintf("%q against %q", mk(i%n), mk(i/n)) }}
}

// big lines: a line of the given length, and variants differing in one place
func bigSpace(e *core.Env) core.Space {
	sizes := []int{1, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4094, 4095, 4096, 4097, 8192, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 1 << 20}
	if e.Thorough() {
		sizes = append(sizes, 4093, 8191, 8193, 65533, 65538, 1<<20+1, 5<<20)
	}
	kinds := 9
	ctx := []string{"", "before\n"}
	dims := []int{len(sizes), kinds, len(ctx), 2}
	mk := func(i int) (a, b string) {
		d := core.Radix(i, dims...)
		n := sizes[d[0]]
		l := strings.Repeat("x", n)
		v := l
		tail := "after\n"
		switch d[1] {
		case 0: // equal
		case 1:
			v = "y" + l[1:]
		case 2:
			v = l[:n-1] + "y"
		case 3:
			v = l + "x"
		case 4:
			v = l[1:]
		case 5:
			v = l + "\r"
		case 6: // difference after the long line
			return ctx[d[2]] + l + "\n" + tail, ctx[d[2]] + l + "\nAFTER\n"
		case 7: // nothing after the long line
			return ctx[d[2]] + l + "\n" + tail, ctx[d[2]] + l + "\n"
		case 8:
			v = l + "\x00"
		}
		if d[3] == 1 {
			tail = ""
		}
		return ctx[d[2]] + l + "\n" + tail, ctx[d[2]] + v + "\n" + tail
	}
	return core.Space{Name: "long-lines", N: core.Prod(dims...),
		Run: func(i int, t *core.T) { a, b := mk(i); compare(t, a, b); compare(t, b, a) },
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("line of %d bytes, variant %d, context %d, tail %d", sizes[d[0]], d[1], d[2], d[3])
		}}
}

// many lines
func manySpace(e *core.Env) core.Space {
	counts := []int{9, 10, 15, 16, 17, 63, 64, 65, 99, 100, 999, 1000, 4096, 20000}
	kinds := 5
	dims := []int{len(counts), kinds}
	return core.Space{Name: "many-lines", N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			var a, b strings.Builder
			n := counts[d[0]]
			if d[1] == 4 && n > 1000 {
				return // many small hunks: the algorithm is quadratic there
			}
			for k := 0; k < n; k++ {
				fmt.Fprintf(&a, "line %d\n", k)
				switch {
				case d[1] == 1 && k == n-1:
					b.WriteString("last\n")
				case d[1] == 2 && k == n/2:
				case d[1] == 3 && k == 0:
					b.WriteString("first\nline 0\n")
				case d[1] == 4 && k%3 == 0:
					b.WriteString("third\r\n")
				default:
					fmt.Fprintf(&b, "line %d\n", k)
				}
			}
			compare(t, a.String(), b.String())
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("%d lines, variant %d", counts[d[0]], d[1])
		}}
}

// files of several lines which differ in one line by as little as possible
func nearSpace(e *core.Env) core.Space {
	sizes := core.Pick(e, []int{1, 2, 3, 5, 9, 10, 17, 33, 70, 300}, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 33, 64, 65, 70, 129, 257, 300, 1000})
	dims := []int{len(sizes), core.Near(), 6}
	mk := func(i int) (string, string) {
		d := core.Radix(i, dims...)
		n := sizes[d[0]]
		at := []int{0, 1, n / 3, n / 2, n - 2, n - 1}[d[2]]
		var a, b strings.Builder
		for k := 0; k < n; k++ {
			l, v := core.NearPair(d[1], fmt.Sprint(k))
			a.WriteString(l + "\n")
			if k != at {
				v = l
			}
			b.WriteString(v + "\n")
		}
		return a.String(), b.String()
	}
	return core.Space{Name: "near", N: core.Prod(dims...),
		Run: func(i int, t *core.T) { a, b := mk(i); compare(t, a, b); compare(t, b, a) },
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			a, b := core.NearPair(d[1], "1")
			return fmt.Sprintf("%d lines, %q for %q in one of them, place %d", sizes[d[0]], b, a, d[2])
		}}
}

// every byte value against others, at the start, in the middle and at the end of a line
func valueSpace(e *core.Env) core.Space {
	n := core.Pick(e, 16, 257)
	other := func(b, k int) string {
		if n == 257 {
			if k == 256 {
				return ""
			}
			return string([]byte{byte(k)})
		}
		return []string{"", " ", "?", "\t", "\r", "\x00", "\xff", "a", "\v", "\xef\xbf\xbd", string([]byte{byte(b ^ 0x20)}), string([]byte{byte(b ^ 0x80)}), string([]byte{byte(b + 1)}), string([]byte{byte(b), byte(b)}), string([]byte{byte(b), ' '}), string([]byte{byte(b)})}[k]
	}
	form := []string{"%s\n", "x%s\ny\n", "%sx\n", "w\nx%sy\n"}
	return core.Space{Name: "values", N: 256 * n * len(form),
		Run: func(i int, t *core.T) {
			f := form[i%len(form)]
			b := i / len(form) / n
			compare(t, fmt.Sprintf(f, string([]byte{byte(b)})), fmt.Sprintf(f, other(b, i/len(form)%n)))
		},
		Show: func(i int) string {
			b := i / len(form) / n
			return fmt.Sprintf("%q with %q against %q", form[i%len(form)], []byte{byte(b)}, other(b, i/len(form)%n))
		}}
}

func operandSpace() core.Space {
	names := []string{"", "equal", "other", "missing", "dir", "third $x"}
	n := core.SeqN(len(names), 0, 4)
	return core.Space{Name: "operands", N: n,
		Show: func(i int) string {
			var a []string
			for _, d := range core.Seq(i, len(names), 0, 4) {
				a = append(a, names[d])
			}
			return fmt.Sprintf("%q", a)
		},
		Run: func(i int, t *core.T) {
			w := filepath.Join(t.Env.Work, "ops")
			os.MkdirAll(filepath.Join(w, "dir"), 0777)
			for _, f := range []string{"equal", "other", "third $x"} {
				c := "same\n" + f + "\n"
				if f == "third $x" {
					c = "same\nequal\n"
				}
				core.Must(os.WriteFile(filepath.Join(w, f), []byte(c), 0666))
			}
			var args []string
			bad := false
			for _, d := range core.Seq(i, len(names), 0, 4) {
				args = append(args, names[d])
				if names[d] == "missing" || names[d] == "dir" {
					bad = true
				}
				if names[d] == "" {
					t.Outcome("skipped: empty operand")
					return
				}
			}
			r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("diff"), Args: args, Dir: w})
			t.Trans(1)
			t.Trace()
			t.State(r.Out + fmt.Sprint(r.Code))
			t.Outcome(fmt.Sprintf("operands: exit %d", r.Code))
			if len(args) != 2 || bad {
				if r.Code < 2 || r.Hung {
					t.Failf("args %q: %v, want a status above 1", args, r)
				}
				if header.MatchString(r.Out) {
					t.Failf("args %q: prints a script: %v", args, r)
				}
				return
			}
			same := args[0] == args[1] || args[0] != "other" && args[1] != "other"
			want := 1
			if same {
				want = 0
			}
			if r.Code != want || same != (r.Out == "") {
				t.Failf("args %q: %v, want status %d", args, r, want)
			}
		}}
}

// contents with equal checksums
func collisions() core.Space {
	forms := []string{"%s\n", "k\n%s\n", "%s\nk\n", "%s%s\n"}
	mk := func(i int) (a, b string) {
		c := core.Collisions[i/len(forms)]
		f := forms[i%len(forms)]
		return strings.ReplaceAll(f, "%s", c[0]), strings.ReplaceAll(f, "%s", c[1])
	}
	return core.Space{Name: "collisions", N: len(core.Collisions) * len(forms),
		Run:  func(i int, t *core.T) { a, b := mk(i); compare(t, a, b); compare(t, b, a) },
		Show: func(i int) string { a, b := mk(i); return fmt.Sprintf("%q against %q", a, b) }}
}

// line numbers that do not fit into 16 bits
func longSpace() core.Space {
	return core.Space{Name: "long-files", N: 1, Stall: 400 * time.Second, Show: func(int) string { return "66000 lines, two of them different" },
		Run: func(i int, t *core.T) {
			if !core.GiantOK() {
				t.Outcome("no room")
				return
			}
			var a, b strings.Builder
			for k := 1; k <= 66000; k++ {
				fmt.Fprintf(&a, "line %d\n", k)
				if k == 65530 {
					b.WriteString("other\nlines\n")
				} else if k != 65990 {
					fmt.Fprintf(&b, "line %d\n", k)
				}
			}
			f, g := t.Env.Write("f1", a.String()), t.Env.Write("f2", b.String())
			r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("diff"), Args: []string{f, g}, Timeout: core.GiantTime})
			if r.Unjudged() {
				t.Outcome("no answer in time")
				return
			}
			judge(t, r, a.String(), b.String())
		}}
}

// huge: files of several megabytes, few lines, the difference near the end
func hugeSpace(e *core.Env) core.Space {
	shape := core.Pick(e, [][2]int{{9, 1 << 20}, {1, 9 << 20}, {5000, 3000}, {20, 1 << 20}}, [][2]int{{3, 1 << 20}, {9, 1 << 20}, {1, 9 << 20}, {5000, 3000}, {20, 1 << 20}, {70, 1 << 20}, {1, 70 << 20}, {20000, 2000}})
	kinds := 5
	return core.Space{Name: "huge", N: len(shape) * kinds,
		Run: func(i int, t *core.T) {
			s := shape[i/kinds]
			var b strings.Builder
			for k := 0; k < s[0]; k++ {
				l := fmt.Sprint(k, " ")
				b.WriteString(l)
				b.WriteString(strings.Repeat("y", s[1]-len(l)))
				b.WriteByte('\n')
			}
			a := b.String()
			switch i % kinds {
			case 0:
				compare(t, a, a)
			case 1:
				compare(t, a, a[:len(a)-2]+"z\n")
			case 2:
				compare(t, a, a+"one more\n")
			case 3:
				compare(t, a+"last\n", a)
			case 4:
				compare(t, a+"last\n", a+"LAST\n")
			}
		},
		Show: func(i int) string {
			return fmt.Sprintf("%d lines of %d bytes, variant %d", shape[i/kinds][0], shape[i/kinds][1], i%kinds)
		}}
}

func main() {
	core.Main(core.Check{
		ID:          "C10",
		Bounds:      "all pairs of files of up to 2 lines from 14 hostile lines and up to 3 (4) from 3; lines of 1..1M bytes around buffer sizes in 9 variants; every byte value against 16 (256) others in 4 places; files of up to 20000 and of 66000 lines, and of 20 (70) MB; 21 pairs of lines with equal checksums; one of 39 minimal changes at 6 places in files of 1..300 (1000) lines; 10 x 10 kinds of files (links, pipes, files of /proc, equal size and time) x 3 contents x 5 relations; all operand lists of up to 4 incl. missing files and directories",
		Assumptions: []string{"files end in a newline", "no options are given"},
		Setup:       func(e *core.Env) error { return core.BuildCmd(e, "diff") },
		Spaces: func(e *core.Env) []core.Space {
			return []core.Space{
				operandSpace(),
				pairSpace("hostile", []string{"", "a", "a\r", "\r", "\x00", " a", "a ", "\xff\xfe", "é", "A", "a b", "a  b", "a\tb", "\\ No newline"}, 2),
				pairSpace("abc", []string{"a", "b", ""}, core.Pick(e, 3, 4)),
				valueSpace(e), bigSpace(e), manySpace(e), hugeSpace(e), longSpace(), nearSpace(e), collisions(),
				core.PlacedPairs("kinds-of-files", []string{"same\nsize\n", "x\n", strings.Repeat("0123456789abcde\n", 300)}, func(t *core.T, a, b, f, g string, run func(string, ...string) core.Result) {
					judge(t, run("diff", f, g), a, b)
				}),
			}
		},
	})
}
