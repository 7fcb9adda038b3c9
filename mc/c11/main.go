// C11: the cmp command.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/mc/core"
)

// mode: 0 none, 1 -l, 2 -s; in: 0 both files, 1 first is stdin, 2 second is stdin
func compare(t *core.T, a, b string, mode, in int) {
	f, g := t.Env.Write("one", a), t.Env.Write("two", b)
	stdin := ""
	if in == 1 {
		f, stdin = "-", a
	} else if in == 2 {
		g, stdin = "-", b
	}
	var args []string
	if mode > 0 {
		args = append(args, []string{"", "-l", "-s"}[mode])
	}
	args = append(args, f, g)
	r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("cmp"), Args: args, Stdin: stdin})
	judge(t, r, a, b, f, g, mode)
}

func judge(t *core.T, r core.Result, a, b, f, g string, mode int) {
	t.Trans(1)
	t.Trace()
	t.State(fmt.Sprint(mode, r.Out, r.Code, len(r.Err) > 0))
	n := len(a)
	short := f
	if len(b) < n {
		n = len(b)
		short = g
	}
	var diffs []int
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			diffs = append(diffs, i)
		}
	}
	bad := func(what string) { t.Failf("mode %d: %s: %v", mode, what, r) }
	if r.Hung {
		bad("hangs")
		return
	}
	if a == b {
		t.Outcome("identical")
		if r.Code != 0 || r.Out != "" || r.Err != "" {
			bad("identical inputs")
		}
		return
	}
	if r.Code != 1 {
		bad("different inputs")
		return
	}
	if mode == 2 {
		t.Outcome("silent")
		if r.Out != "" || r.Err != "" {
			bad("-s prints something")
		}
		return
	}
	eof := len(a) != len(b)
	if mode == 1 {
		t.Outcome(fmt.Sprintf("-l eof=%v", eof))
		got := []string{}
		if r.Out != "" {
			if !strings.HasSuffix(r.Out, "\n") {
				bad("unterminated line")
				return
			}
			got = strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n")
		}
		if len(got) != len(diffs) {
			bad(fmt.Sprintf("%d differences listed, want %d", len(got), len(diffs)))
			return
		}
		for k, i := range diffs {
			fl := strings.Fields(got[k])
			if len(fl) != 3 || fl[0] != strconv.Itoa(i+1) || !oct(fl[1], a[i]) || !oct(fl[2], b[i]) {
				bad(fmt.Sprintf("line %q, want %d %o %o", got[k], i+1, a[i], b[i]))
				return
			}
		}
		if eof != (r.Err != "") || eof && !strings.Contains(r.Err, short) {
			bad("end-of-file message for " + short)
		}
		return
	}
	if len(diffs) > 0 {
		t.Outcome("first difference")
		i := diffs[0]
		line := 1 + strings.Count(a[:i], "\n")
		if r.Out != fmt.Sprintf("%s %s differ: char %d, line %d\n", f, g, i+1, line) &&
			r.Out != fmt.Sprintf("%s %s differ: byte %d, line %d\n", f, g, i+1, line) {
			bad(fmt.Sprintf("want byte %d, line %d", i+1, 1+strings.Count(a[:i], "\n")))
		}
		return
	}
	t.Outcome("end of file")
	if r.Out != "" || !strings.Contains(r.Err, short) || !strings.Contains(r.Err, "EOF") {
		bad("want only an end-of-file message for " + short)
	}
}

func oct(s string, b byte) bool {
	n, err := strconv.ParseUint(s, 8, 16)
	return err == nil && n == uint64(b)
}

func pairSpace(name string, cs []string) core.Space {
	n := len(cs)
	dims := []int{n, n, 3, 3}
	return core.Space{Name: name, N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			compare(t, cs[d[0]], cs[d[1]], d[2], d[3])
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("%q and %q, option %d, stdin %d", cs[d[0]], cs[d[1]], d[2], d[3])
		}}
}

// one difference at a chosen place of large inputs
func bigSpace(e *core.Env) core.Space {
	sizes := []int{4095, 4096, 4097, 8192, 65535, 65536, 65537, 200000}
	at := []int{0, 1, 4094, 4095, 4096, 4097, 8191, 8192, 65535, 65536, -1, -2}
	kinds := 4 // same length; first longer; second longer; no difference
	dims := []int{len(sizes), len(at), kinds, 3, 3}
	return core.Space{Name: "big", N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			n := sizes[d[0]]
			p := at[d[1]]
			if p < 0 {
				p += n
			}
			if p >= n {
				return
			}
			unit := "abcdefg\n"
			if d[1]%2 == 1 {
				unit = "0123456789abcde\n\n"
			}
			a := []byte(strings.Repeat(unit, n/len(unit)+1)[:n])
			b := append([]byte{}, a...)
			if d[2] != 3 {
				b[p] ^= 0x80
			}
			switch d[2] {
			case 1:
				a = append(a, "tail"...)
			case 2:
				b = append(b, '\n')
			}
			compare(t, string(a), string(b), d[3], d[4])
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("size %d, difference at %d, kind %d, option %d, stdin %d", sizes[d[0]], at[d[1]], d[2], d[3], d[4])
		}}
}

// one difference near the end of inputs of megabytes, with few and with many lines
func hugeSpace(e *core.Env) core.Space {
	sizes := core.Pick(e, []int{1<<20 + 5, 3 << 20, 40 << 20}, []int{1<<20 + 5, 3 << 20, 17<<20 + 1, 40 << 20, 300 << 20})
	units := []string{"abcdefg\n", "\n", "xyz"}
	dims := []int{len(sizes), len(units), 4, 3, 3}
	return core.Space{Name: "huge", N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			n := sizes[d[0]]
			if n > 4<<20 && (d[3] == 1 && d[2] == 1 || d[4] > 0 && d[3] > 0 || n > 200<<20 && d[3]+d[4] > 0) {
				return
			}
			a := strings.Repeat(units[d[1]], n/len(units[d[1]])+1)[:n]
			b := a
			switch d[2] {
			case 0:
				b = a[:n-3] + "?" + a[n-2:]
			case 1:
				b = a[:n-1]
			case 2:
				b = a + "tail"
			}
			compare(t, a, b, d[3], d[4])
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("%d bytes of %q, kind %d, option %d, stdin %d", sizes[d[0]], units[d[1]], d[2], d[3], d[4])
		}}
}

// positions that do not fit into 32 bits
func giantSpace() core.Space {
	const size = 1<<32 + 20
	return core.Space{Name: "giant", N: 2, Stall: 400 * time.Second,
		Show: func(i int) string { return fmt.Sprintf("files of %d bytes, option %d", int64(size), i) },
		Run: func(i int, t *core.T) {
			if !core.GiantOK() {
				t.Outcome("no room for giant files")
				return
			}
			f, g := filepath.Join(t.Env.Work, "f"), filepath.Join(t.Env.Work, "g")
			defer os.Remove(f)
			defer os.Remove(g)
			core.Sparse(f, size, nil)
			args := []string{"-l", f, g}
			want := []string{"2147483650 0 170", "4294967300 0 12"}
			marks := map[int64]byte{1<<31 + 1: 'x', 1<<32 + 3: '\n'}
			if i == 1 {
				args = args[1:]
				delete(marks, 1<<31+1)
			}
			core.Sparse(g, size, marks)
			r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("cmp"), Args: args, Timeout: core.GiantTime})
			t.Trans(1)
			t.Trace()
			if r.Unjudged() {
				t.Outcome("giant: no answer in time")
				return
			}
			bad := r.Code != 1
			if i == 0 {
				got := strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n")
				bad = bad || len(got) != len(want)
				for k := 0; k < len(want) && !bad; k++ {
					fl, w := strings.Fields(got[k]), strings.Fields(want[k])
					bad = len(fl) != 3 || fl[0] != w[0]
					for c := 1; c < 3 && !bad; c++ {
						x, err1 := strconv.ParseInt(fl[c], 8, 64)
						y, _ := strconv.ParseInt(w[c], 8, 64)
						bad = err1 != nil || x != y
					}
				}
			} else {
				w := fmt.Sprintf("%s %s differ: char 4294967300, line 1\n", f, g)
				bad = bad || r.Out != w && r.Out != strings.Replace(w, "char", "byte", 1)
			}
			if bad {
				t.Failf("differences at %v: %v", marks, r)
			}
		}}
}

// every pair of byte values
func valueSpace() core.Space {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	return core.Space{Name: "values", N: 256 * 2,
		Run: func(i int, t *core.T) {
			k := i % 256
			b := append(append([]byte{}, all[k:]...), all[:k]...)
			compare(t, string(all), string(b), i/256, 0)
		},
		Show: func(i int) string {
			return fmt.Sprintf("all bytes against all bytes rotated by %d, option %d", i%256, i/256)
		}}
}

// every byte value against related ones, alone and behind a line
func relatedSpace(e *core.Env) core.Space {
	n := core.Pick(e, 14, 256)
	other := func(b, k int) byte {
		if n == 256 {
			return byte(k)
		}
		return []byte{0, 1, 7, 8, 63, 64, 255, '\n', ' ', byte(b ^ 0x20), byte(b ^ 0x80), byte(b + 1), byte(b >> 1), byte(b)}[k]
	}
	pre := []string{"", "x\n"}
	dims := []int{256, n, len(pre), 3}
	return core.Space{Name: "related-values", N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			compare(t, pre[d[2]]+string([]byte{byte(d[0]), 'q'}), pre[d[2]]+string([]byte{other(d[0], d[1]), 'q'}), d[3], 0)
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("byte %d against %d behind %q, option %d", d[0], other(d[0], d[1]), pre[d[2]], d[3])
		}}
}

// many differences and many lines
func manySpace(e *core.Env) core.Space {
	counts := []int{2, 7, 8, 9, 10, 11, 15, 16, 17, 63, 64, 65, 99, 100, 101, 255, 256, 257, 511, 512, 999, 1000, 1001, 4097, 9999, 10000, 65537}
	strides := []int{1, 2, 3, 10}
	dims := []int{len(counts), len(strides), 3, 3, 3}
	return core.Space{Name: "many", N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			n := counts[d[0]]
			a, b := make([]byte, n), make([]byte, n)
			for k := range a {
				a[k] = "\n"[0]
				if k%3 == 1 {
					a[k] = byte(k)
				}
				b[k] = a[k]
				// mode 0: one difference, at the end, behind as many lines; else every so many bytes
				if d[3] > 0 && k%strides[d[1]] == 0 || d[3] == 0 && k >= n-strides[d[1]] {
					b[k] = a[k] + 1 + byte(k%250)
				}
			}
			x, y := string(a), string(b)
			if d[2] == 1 {
				x += "more"
			} else if d[2] == 2 {
				y = y[:len(y)-1]
			}
			compare(t, x, y, d[3], d[4])
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("%d bytes with a difference every %d, kind %d, option %d, stdin %d", counts[d[0]], strides[d[1]], d[2], d[3], d[4])
		}}
}

// the names of the operands in the reports
func nameSpace() core.Space {
	names := []string{"plain", "with space", "p%d%s", "é", "a,b", "$HOME ${a}", "~", "x differ: char 1, line 1", "-x", "./plain", strings.Repeat("n", 200)}
	cs := []string{"a\n", "a\nb\n", "x\n"}
	dims := []int{len(names), len(names), len(cs), len(cs), 3}
	return core.Space{Name: "names", N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			f, g := names[d[0]], names[d[1]]
			if f == g || f[0] == '-' || g[0] == '-' || filepath.Clean(f) == filepath.Clean(g) {
				return
			}
			t.Env.Write(f, cs[d[2]])
			t.Env.Write(g, cs[d[3]])
			var args []string
			if d[4] > 0 {
				args = append(args, []string{"", "-l", "-s"}[d[4]])
			}
			r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("cmp"), Args: append(args, f, g), Dir: t.Env.Work})
			judge(t, r, cs[d[2]], cs[d[3]], f, g, d[4])
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("%q (%q) and %q (%q), option %d", names[d[0]], cs[d[2]], names[d[1]], cs[d[3]], d[4])
		}}
}

// standard input arriving in every division
func chunkSpace() core.Space {
	a := "ab\ncd\n"
	others := []string{"ab\ncd\n", "ab\ncx\n", "ab\nc", "ab\ncd\n!"}
	cs := core.Compositions(a)
	dims := []int{len(cs), len(others), 3}
	return core.Space{Name: "stdin-chunks", N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			g := t.Env.Write("two", others[d[1]])
			var args []string
			if d[2] > 0 {
				args = append(args, []string{"", "-l", "-s"}[d[2]])
			}
			r := t.Env.ExecChunks(core.Ex{Bin: t.Env.Bin("cmp"), Args: append(args, "-", g)}, cs[d[0]], false)
			judge(t, r, a, others[d[1]], "-", g, d[2])
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("stdin %q against %q, option %d", cs[d[0]], others[d[1]], d[2])
		}}
}

func operandSpace() core.Space {
	names := []string{"one", "copy", "other", "missing", "dir", "-l", "-s"}
	const m = 4
	mk := func(i int) (a []string) {
		for _, d := range core.Seq(i, len(names), 0, m) {
			a = append(a, names[d])
		}
		return a
	}
	return core.Space{Name: "operands", N: core.SeqN(len(names), 0, m),
		Show: func(i int) string { return fmt.Sprintf("%q", mk(i)) },
		Run: func(i int, t *core.T) {
			args := mk(i)
			var ops []string
			opt := map[string]int{}
			for _, a := range args {
				if a[0] == '-' {
					if len(ops) > 0 {
						t.Outcome("skipped: option after operand")
						return
					}
					opt[a]++
				} else {
					ops = append(ops, a)
				}
			}
			mode := 0
			if opt["-l"] > 0 {
				mode = 1
			}
			if opt["-s"] > 0 {
				mode = 2 // also together with -l: nothing at all
			}
			w := filepath.Join(t.Env.Work, "ops")
			os.MkdirAll(filepath.Join(w, "dir"), 0777)
			content := map[string]string{"one": "same\n", "copy": "same\n", "other": "some\n"}
			for f, c := range content {
				core.Must(os.WriteFile(filepath.Join(w, f), []byte(c), 0666))
			}
			r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("cmp"), Args: args, Dir: w})
			bad := len(ops) != 2
			for _, o := range ops {
				if _, ok := content[o]; !ok {
					bad = true
				}
			}
			if bad {
				t.Trans(1)
				t.Trace()
				t.Outcome("operand error")
				if r.Code < 2 || r.Hung || r.Out != "" {
					t.Failf("args %q: %v, want a status above 1", args, r)
				}
				return
			}
			judge(t, r, content[ops[0]], content[ops[1]], ops[0], ops[1], mode)
		}}
}

// contents with equal checksums
func collisions() core.Space {
	forms := []string{"%s", "%s\n", "k\n%s\n", "%s%s"}
	mk := func(i int) (a, b string) {
		c := core.Collisions[i/len(forms)]
		f := forms[i%len(forms)]
		return strings.ReplaceAll(f, "%s", c[0]), strings.ReplaceAll(f, "%s", c[1])
	}
	return core.Space{Name: "collisions", N: len(core.Collisions) * len(forms) * 3,
		Run:  func(i int, t *core.T) { a, b := mk(i / 3); compare(t, a, b, i%3, 0); compare(t, b, a, i%3, 0) },
		Show: func(i int) string { a, b := mk(i / 3); return fmt.Sprintf("%q against %q", a, b) }}
}

func main() {
	core.Main(core.Check{
		ID:          "C11",
		Bounds:      "all pairs of files of up to 3 bytes over {a,b,newline} (thorough 4) and up to 5 (6) over {a,newline}, and of 12 other contents x {none,-l,-s} x {files, stdin first, stdin second}; all 256x256 byte pairs with -l, each byte against 14 (256) others; up to 65537 differences and lines; 8 kinds of names; one difference at buffer boundaries of inputs up to 200000 bytes, and near the end of inputs up to 40 (300) MB; differences at bytes 2^31 and 2^32 of files of 4 GiB; all divisions of a 6-byte stdin; 21 pairs of contents with equal checksums; 10 x 10 kinds of files (links, pipes, files of /proc, equal size and time) x 3 contents x 5 relations; all operand lists of up to 4",
		Assumptions: []string{"one option at most, before the operands", "both operands are not - at once"},
		Setup:       func(e *core.Env) error { return core.BuildCmd(e, "cmp") },
		Spaces: func(e *core.Env) []core.Space {
			odd := []string{"", "\x00", "\x07", "\x08", "\xff", "\x40", "\r\n", "\n\n\n\n\n\n\n\n\n\n\n\nx", "\n\n\n\n\n\n\n\n\n\n\n\ny", strings.Repeat("l\n", 120) + "a", strings.Repeat("l\n", 120) + "b\n", "\x3f\x1a\x01"}
			return []core.Space{
				operandSpace(),
				pairSpace("small", core.Strs([]string{"a", "b", "\n"}, 0, core.Pick(e, 3, 4))),
				pairSpace("an", core.Strs([]string{"a", "\n"}, 0, core.Pick(e, 5, 6))),
				pairSpace("odd", odd), valueSpace(), relatedSpace(e), nameSpace(), manySpace(e), chunkSpace(), bigSpace(e), hugeSpace(e), giantSpace(), collisions(),
				core.PlacedPairs("kinds-of-files", []string{"same\nsize\n", "x", strings.Repeat("0123456789abcde\n", 300)}, func(t *core.T, a, b, f, g string, run func(string, ...string) core.Result) {
					judge(t, run("cmp", f, g), a, b, f, g, 0)
					judge(t, run("cmp", "-l", f, g), a, b, f, g, 1)
					judge(t, run("cmp", "-s", f, g), a, b, f, g, 2)
				}),
			}
		},
	})
}
