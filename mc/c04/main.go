// C04: ed and invalid commands.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/mc/core"
	"verif/mc/edm"
)

// lines that cannot be parsed or are not implemented
var bad = []string{
	"z", "X", "#", "@", "_", "%", "&", "~", "(", ")", "[", "{", "|", "<", ">", ":", "\\", "\"", "é", "\xff", "\x00", "\x1b", "\x7f", "日本", "\r", "p\r", "1p\r",
	"m", "1m2", "m0", "1,2m$", "t", "1t.", "t0", "j", "1,2j", "kx", "1kx", "k", "kX", "'x", "'xp", "'x,$p", "1,'xp", "?x?", "?x?p", "?none?", "?x", "l", "1l", "u", "U", "g/x/p", "G/x/", "v/x/p", "V/x/", "s/a/b/", "s", "1,2s/L/M/", "r", "r x", "0r x", "f", "f x", "h", "H", "P", "E", "E x",
	"!", "!true", "!!", "/x", "/", "//p2", "1z", "$z", ".z", "1,2z", "/x/z", "zp", "pz", "dz", "=z", "1=z", "1q", "$q", "qz", "qq", "1e x", "wz", "wqz", "ez", "e", "1$", "$1", ".1", "..", "$$p", "1.p", "1'p",
	"p q", "p 1", "d d", "= =", "1 2", "1 2p", "12 34p",
}

// lines that are well formed but not valid in the given states
var semantic = []string{
	"0", "0p", "0n", "0d", "0c", "9", "9p", "9n", "9d", "9c", "9a", "9i", "9=", "9w", "1,9p", "1,9d", "1,9c", "9,9p", "2,1p", "2,1d", "3,1n", "2,1c", "3;1p", "$,1p", "$+1p", "$+p", "$+1=", "$+1a", ".+9", "0,1p", "0,0p", "0;1p", "0,$d", ",0p", ",0d", ";0p",
	"/none/", "/none/p", "/none/d", "/none/=", "/none/a", "/none/i", "/none/c", "/none/,$p", "1,/none/p", "1;/none/d", "/none/+1p", "/none/w", "1-1p", "1-2", ".-9d", "$-99p", "99999999999999999999", "99999999999999999999p", "9223372036854775807p", "9223372036854775808d", "18446744073709551617p", "4294967297p", "1+99999999999999999999p", "1+4294967296p", "1+9223372036854775807p", "9223372036854775807+9223372036854775807p", "$-9223372036854775807=", "1,18446744073709551617p", "1,2,w"[:3] + "9w", "2,1w",
}

func starts() [][]edm.Op {
	out := [][]edm.Op{{}}
	for n := 1; n <= 4; n++ {
		l := edm.Lines(n)
		if n == 4 {
			l[2] = ""
		}
		for c := 1; c <= n; c++ {
			out = append(out, []edm.Op{edm.Append(l), {Line: fmt.Sprint(c)}})
		}
	}
	out = append(out, []edm.Op{edm.Append([]string{"x", "Lb"}), {Line: "0a"}})
	return out
}

func invalid() []edm.Op {
	var out []edm.Op
	for _, l := range bad {
		out = append(out, edm.Op{Line: l, Bad: true})
	}
	for _, l := range semantic {
		out = append(out, edm.Op{Line: l, Text: []string{",d", "T", "q"}})
	}
	return out
}

// A session on files in the worker's own directory.
func fileSession(t *core.T, names []string, ops []edm.Op) {
	dir := filepath.Join(t.Env.Work, "files")
	os.RemoveAll(dir)
	core.Must(os.MkdirAll(filepath.Join(dir, "sub"), 0755))
	core.Must(os.Chdir(dir))
	fs := map[string]string{}
	for _, n := range names {
		fs[n] = "file " + n + "\nx\n"
		core.Must(os.WriteFile(n, []byte(fs[n]), 0644))
	}
	before := list(dir)
	st := &edm.State{FS: fs}
	edm.Session(t, st, ops, edm.Probe)
	for n, want := range st.FS {
		got, err := os.ReadFile(n)
		if err != nil || string(got) != want {
			t.Failf("%s: file %s is %q (%v), want %q", edm.ShowOps(ops), n, got, err, want)
		}
		before[n] = true
	}
	for n := range list(dir) {
		if !before[n] {
			t.Failf("%s: unexpected file %s", edm.ShowOps(ops), n)
		}
	}
	t.State(st.Key())
}

func list(dir string) map[string]bool {
	out := map[string]bool{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		r, _ := filepath.Rel(dir, p)
		out[r] = true
		return nil
	})
	return out
}

// short runs a line made of arbitrary tokens.
func short(t *core.T, line string) {
	core.Must(os.Chdir(t.Env.Work))
	c, ok := edm.Parse(line)
	if ok && c.Name == 'w' && c.Has || !ok && strings.ContainsAny(line, "weErfqQ!") {
		t.Outcome("skipped")
		return
	}
	prefix := []edm.Op{edm.Append([]string{"La", "x", "Lc"}), {Line: "2"}}
	if ok {
		st := edm.Session(t, &edm.State{}, append(prefix, edm.Op{Line: line, Text: []string{"T"}}), edm.Probe)
		t.State(st.Key())
		t.Outcome("defined")
		return
	}
	script := ""
	for _, o := range prefix {
		script += o.Script()
	}
	script += line + "\n.\ne " + filepath.Join(t.Env.Scratch, "sentinel") + "\n,p\n.=\n"
	out := edm.Exec(script)
	t.Trans(6)
	t.Trace()
	t.Outcome("left open")
	if !strings.HasSuffix(out, "\nSENTINEL\n1\n") {
		t.Failf("script %q: output %q does not end with the answers to the last commands", script, out)
	}
	t.State(out)
}

// box runs the program on a script; every line but q is invalid or harmless
func box(t *core.T, script string, want []edm.Item) {
	dir := filepath.Join(t.Env.Work, "box")
	core.Must(os.MkdirAll(dir, 0755))
	r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("ed"), Stdin: script, Dir: dir})
	t.Trans(1)
	t.Trace()
	if r.Hung || r.Code != 0 || !edm.Match(r.Out, want) {
		t.Failf("script %q: exit %d hung %v output %q, want %s", script, r.Code, r.Hung, r.Out, edm.ShowItems(want))
	}
}

func main() {
	inv := invalid()
	st := starts()
	core.Main(core.Check{
		ID:          "C04",
		Bounds:      fmt.Sprintf("%d invalid command lines x %d states (0..4 lines, every current line), alone and (thorough) in all pairs, each followed by valid commands and probes; sequences of 3 from 24 mixed operations with files; all strings of up to 4 (5) tokens from an alphabet of 22; 52 names of unreadable files in 4 states, up to 3 in a row; command lines of up to 200000 bytes; each invalid line up to 300 times in a row and in buffers of up to 257 lines; each invalid line on the ed binary", len(inv), len(st)),
		Assumptions: []string{"command lines whose meaning the property leaves open (blanks between parts, suffixes, several separators) need only leave the session alive"},
		Setup: func(e *core.Env) error {
			core.Must(os.WriteFile(filepath.Join(e.Scratch, "sentinel"), []byte("SENTINEL\n"), 0644))
			return core.BuildCmd(e, "ed")
		},
		Init: func(e *core.Env) { edm.Quiet2(e) },
		Spaces: func(e *core.Env) []core.Space {
			var sp []core.Space
			add := func(name string, n int, mk func(i int) []edm.Op, probe []edm.Op) {
				sp = append(sp, core.Space{Name: name, N: n, Run: func(i int, t *core.T) {
					s := edm.Session(t, &edm.State{}, mk(i), probe)
					t.State(s.Key())
				}, Show: func(i int) string { return edm.ShowOps(mk(i)) }})
			}
			join := func(a []edm.Op, b ...edm.Op) []edm.Op { return append(append([]edm.Op{}, a...), b...) }
			add("invalid", len(inv)*len(st), func(i int) []edm.Op { return join(st[i/len(inv)], inv[i%len(inv)]) }, edm.Probe)
			// the next command works on the unchanged state
			next := []edm.Op{{Line: "a", Text: []string{"N"}}, {Line: "d"}, {Line: ""}, {Line: "p"}, {Line: ".-1,.c"}, {Line: "$a"}, {Line: "i", Text: []string{"N"}}, {Line: "/L/"}}
			add("then-valid", len(inv)*len(st)*len(next), func(i int) []edm.Op {
				d := core.Radix(i, len(inv), len(next), len(st))
				return join(st[d[2]], inv[d[0]], next[d[1]])
			}, edm.Probe)
			few := core.Pick(e, []int{0, 2, 9}, []int{0, 1, 2, 4, 6, 9, 11})
			add("pairs", len(inv)*len(inv)*len(few), func(i int) []edm.Op {
				d := core.Radix(i, len(inv), len(inv), len(few))
				return join(st[few[d[2]]], inv[d[0]], inv[d[1]])
			}, edm.Probe)
			// files and the remembered name
			mixed := []edm.Op{
				{Line: "e f1"}, {Line: "e f2"}, {Line: "e none"}, {Line: "e sub"}, {Line: "e f1/x"}, {Line: "e none/x"}, {Line: "w"}, {Line: "9w"}, {Line: "2,1w"}, {Line: "/none/w"}, {Line: "1w"}, {Line: "w f2"},
				{Line: "a", Text: []string{"A"}}, {Line: "9a", Text: []string{"w f1", "e f2"}}, {Line: "d"}, {Line: "9d"}, {Line: "z", Bad: true}, {Line: "f f2", Bad: true}, {Line: "r f2", Bad: true}, {Line: "E f2", Bad: true}, {Line: "", As: ""}, {Line: "1p"}, {Line: "0p"}, {Line: ",d"},
			}
			m := core.Pick(e, 3, 4)
			mk := func(i int) []edm.Op {
				var o []edm.Op
				for _, d := range core.Seq(i, len(mixed), 0, m) {
					o = append(o, mixed[d])
				}
				return append(o, edm.Op{Line: "0a", Text: []string{"last"}}, edm.Op{Line: "w"})
			}
			sp = append(sp, core.Space{Name: "files", N: core.SeqN(len(mixed), 0, m), Run: func(i int, t *core.T) { fileSession(t, []string{"f1", "f2"}, mk(i)) }, Show: func(i int) string { return edm.ShowOps(mk(i)) }})
			// names that cannot be read
			var worse []string
			for _, n := range []string{"f1/", "f1//", "f1/.", "f1/..", "./f1/", "f2/../f1", "sub/", "sub/.", ".", "..", "./", "/", "//", "sub/f1", "sub/../none", "f", "f11", "F1", "f1.swp", "f1~", ".f1", "f1.", "*", "f?", "$f1", "~", "~/f1", "-", "--", "a\x00b", "f1\x00", "\x00", "\xff", "é", strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 5000), strings.Repeat("n/", 3000), strings.Repeat("../", 3) + "none", "/none/none", "http://none/f1", "file:f1", "file://f1", "'f1'", "\"f1\"", "f1\\", "f1,f2", "f1:1", "f1;f2", "f1|f2", "!f1", "%", "#"} {
				worse = append(worse, "e "+n)
			}
			wst := [][]edm.Op{{}, {{Line: "a", Text: []string{"A", "B"}}}, {{Line: "e f1"}}, {{Line: "e f2"}, {Line: "1d"}, {Line: "a", Text: []string{"N"}}, {Line: "1"}}}
			wops := func(i int) []edm.Op {
				d := core.Radix(i, len(worse), len(wst), 3)
				o := append([]edm.Op{}, wst[d[1]]...)
				for k := 0; k <= d[2]; k++ {
					o = append(o, edm.Op{Line: worse[(d[0]+k*7)%len(worse)]})
				}
				return append(o, edm.Op{Line: ".="}, edm.Op{Line: "a", Text: []string{"last"}}, edm.Op{Line: "w"})
			}
			sp = append(sp, core.Space{Name: "names", N: len(worse) * len(wst) * 3, Run: func(i int, t *core.T) { fileSession(t, []string{"f1", "f2"}, wops(i)) }, Show: func(i int) string { return edm.ShowOps(wops(i)) }})
			// arbitrary strings
			toks := []string{"0", "1", "3", "9", ".", "$", ",", ";", "/x/", "/", "?", "+", "-", "p", "d", "a", "c", "=", " ", "k", "'", "\\"}
			ml := core.Pick(e, 4, 5)
			line := func(i int) string {
				s := ""
				for _, d := range core.Seq(i, len(toks), 0, ml) {
					s += toks[d]
				}
				return s
			}
			sp = append(sp, core.Space{Name: "strings", N: core.SeqN(len(toks), 0, ml), Run: func(i int, t *core.T) { short(t, line(i)) }, Show: func(i int) string { return fmt.Sprintf("%q", line(i)) }})
			// bytes as command lines
			sp = append(sp, core.Space{Name: "bytes", N: 256 * 3, Run: func(i int, t *core.T) {
				b := string([]byte{byte(i % 256)})
				if b == "\n" {
					return
				}
				short(t, []string{b, "1" + b, b + "p"}[i/256])
			}, Show: func(i int) string { return fmt.Sprintf("byte %d, place %d", i%256, i/256) }})
			// long command lines, and many invalid ones in a row
			var longs []string
			for _, n := range []int{64, 127, 128, 255, 256, 1000, 1023, 4095, 4096, 4097, 65535, 65536, 65537, 200000} {
				for _, s := range []string{"z", "1", "é", "\xff", " ", ".", "1,", "x p"} {
					longs = append(longs, "z"+strings.Repeat(s, n))
				}
				longs = append(longs, "1p"+strings.Repeat("p", n), "1,"+strings.Repeat("1", n)+"p", "kx"+strings.Repeat("x", n), "p "+strings.Repeat("x", n), "/none"+strings.Repeat("e", n)+"/p", "/"+strings.Repeat("e", n), strings.Repeat("9", n)+"d", "$+"+strings.Repeat("9", n)+"d", "m"+strings.Repeat("1", n))
			}
			sem := func(l string) edm.Op {
				if _, ok := edm.Parse(l); ok {
					return edm.Op{Line: l}
				}
				return edm.Op{Line: l, Bad: true}
			}
			add("long-lines", len(longs)*len(few), func(i int) []edm.Op {
				d := core.Radix(i, len(longs), len(few))
				return join(st[few[d[1]]], sem(longs[d[0]]), edm.Op{Line: "$a", Text: []string{"N"}})
			}, edm.Probe)
			reps := []int{3, 4, 7, 16, 33, 100, 300}
			add("repeated", len(inv)*len(reps), func(i int) []edm.Op {
				d := core.Radix(i, len(inv), len(reps))
				o := append([]edm.Op{}, st[8]...)
				for k := 0; k < reps[d[1]]; k++ {
					o = append(o, inv[d[0]])
				}
				return append(o, edm.Op{Line: "a", Text: []string{"N"}}, inv[d[0]], edm.Op{Line: "d"})
			}, edm.Probe)
			// every invalid line in larger buffers
			sizes := []int{9, 10, 16, 33, 99, 100, 101, 257}
			add("large-buffers", len(inv)*len(sizes), func(i int) []edm.Op {
				d := core.Radix(i, len(inv), len(sizes))
				var l []string
				for k := 1; k <= sizes[d[1]]; k++ {
					l = append(l, fmt.Sprintf("L%d", k))
				}
				return []edm.Op{edm.Append(l), {Line: "7"}, inv[d[0]], {Line: "i", Text: []string{"N"}}, inv[d[0]], {Line: fmt.Sprintf("%dp", len(l)+2)}, {Line: fmt.Sprintf("%d,%dd", len(l)+1, len(l)+2)}, {Line: fmt.Sprintf("%d,%dc", len(l), len(l)-1)}, {Line: "$+1a", Text: []string{"no"}}}
			}, edm.Probe)
			// the program itself
			sp = append(sp, core.Space{Name: "program", N: len(inv) * 3, Run: func(i int, t *core.T) {
				o := inv[i/3]
				s := &edm.State{}
				ops := []edm.Op{edm.Append([]string{"La", "Lb"}), o}
				if i%3 == 1 {
					ops = []edm.Op{o, o, edm.Append([]string{"La", "Lb"})}
				}
				ops = append(ops, edm.Probe...)
				script, items := "", []edm.Item{}
				for _, o := range ops {
					script += o.Script()
					items = append(items, s.Run(o))
				}
				if i%3 == 2 {
					script += "q\n,d\n"
				}
				box(t, script, items)
			}, Show: func(i int) string { return fmt.Sprintf("%v way %d", inv[i/3], i%3) }})
			return sp
		},
	})
}
