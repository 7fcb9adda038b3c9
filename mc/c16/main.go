// C16: cat.
package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/mc/core"
)

func allBytes() string {
	b := make([]byte, 512)
	for i := range b {
		b[i] = byte(i)
	}
	return string(b)
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

var contents = map[string]string{
	"empty": "", "line": "a line\n", "noeol": "no newline", "bytes": allBytes(), "crlf": "x\r\n\r\n\n", "big": strings.Repeat("0123456789\n", 12000),
	"%s$HOME~": "percent\n", "with space": "sp", "-x": "dash x\n",
}

func setup(e *core.Env) string {
	w := filepath.Join(e.Work, "ops")
	if _, err := os.Stat(w); err == nil {
		return w
	}
	core.Must(os.MkdirAll(filepath.Join(w, "dir"), 0777))
	for f, c := range contents {
		core.Must(os.WriteFile(filepath.Join(w, f), []byte(c), 0666))
	}
	return w
}

// outKind: 0 file, 1 pipe, 2 file opened for appending
func run(t *core.T, args []string, stdin string, outKind int, files map[string]string, dir string) {
	want := ""
	bad := ""
	left := stdin
	ops := args
	for len(ops) > 0 && ops[0] == "-u" {
		ops = ops[1:]
	}
	list := ops
	if len(list) == 0 {
		list = []string{"-"}
	}
	for _, o := range list {
		if o == "-" {
			want += left
			left = ""
		} else if c, ok := files[o]; ok {
			want += c
		} else {
			bad = o
		}
	}
	x := core.Ex{Bin: t.Env.Bin("cat"), Args: args, Stdin: stdin, Dir: dir}
	if len(args) >= 200 {
		x.Files = 100
	}
	var r core.Result
	switch outKind {
	case 0:
		r = t.Env.Exec(x)
	case 1:
		r = t.Env.ExecOutPipe(x)
	case 2:
		p := filepath.Join(t.Env.Work, "appended")
		core.Must(os.WriteFile(p, []byte("before|"), 0666))
		f, err := os.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0)
		core.Must(err)
		x.OutF = f
		r = t.Env.Exec(x)
		f.Close()
		b, _ := os.ReadFile(p)
		r.Out = strings.TrimPrefix(string(b), "before|")
	}
	t.Trans(1)
	t.Trace()
	t.State(r.Out)
	t.Outcome(fmt.Sprintf("exit %d", r.Code))
	if r.Hung || r.Crashed() {
		t.Failf("args %q: %v", args, r)
		return
	}
	if r.Out != want {
		t.Failf("args %q, stdin %q, output kind %d: %d bytes %q, want %d bytes %q (%v)", args, clip(stdin), outKind, len(r.Out), clip(r.Out), len(want), clip(want), r)
		return
	}
	if bad == "" && (r.Code != 0 || r.Err != "") {
		t.Failf("args %q: %v, want success", args, r)
	}
	if bad != "" && (r.Code == 0 || r.Err == "") {
		t.Failf("args %q: %v, want failure and a diagnostic about %s", args, r, bad)
	}
}

func main() {
	core.Main(core.Check{
		ID:          "C16",
		Bounds:      "all operand lists of up to 3 (4) from 12 (files of several kinds, -, missing, directory) behind up to one -u, with 3 stdins and 3 kinds of output; sizes around 4K..64K..1M and their pairs, 17 to 70 (300) MB, and 4 GiB; all divisions of an 8-byte stdin; 10 kinds of files (links, pipes, files of /proc); every byte and pair of bytes; 19 sizes x 4 fillings x 91 ends or beginnings; up to 300 operands (300 with at most 100 open files)",
		Assumptions: []string{"-u comes before the operands"},
		Setup:       func(e *core.Env) error { return core.BuildCmd(e, "cat") },
		Spaces: func(e *core.Env) []core.Space {
			names := []string{"empty", "line", "noeol", "bytes", "crlf", "-", "missing", "dir", "big", "%s$HOME~", "with space", "-x"}
			m := core.Pick(e, 3, 4)
			stdins := []string{"", "from\nstdin", "\x00\xff\r\n"}
			mk := func(i int) ([]string, string) {
				var a []string
				if i%2 == 1 {
					a = append(a, "-u")
				}
				i /= 2
				s := stdins[i%len(stdins)]
				for _, d := range core.Seq(i/len(stdins), len(names), 0, m) {
					a = append(a, names[d])
				}
				return a, s
			}
			lists := core.Space{Name: "operands", N: 2 * len(stdins) * core.SeqN(len(names), 0, m),
				Show: func(i int) string { a, s := mk(i); return fmt.Sprintf("%q, stdin %q", a, s) },
				Run: func(i int, t *core.T) {
					a, s := mk(i)
					run(t, a, s, 0, contents, setup(t.Env))
				}}
			kinds := core.Space{Name: "outputs", N: 2 * 2 * len(stdins) * core.SeqN(len(names), 0, 2),
				Show: func(i int) string { a, s := mk(i / 2); return fmt.Sprintf("%q, stdin %q, output kind %d", a, s, i%2+1) },
				Run: func(i int, t *core.T) {
					a, s := mk(i / 2)
					run(t, a, s, i%2+1, contents, setup(t.Env))
				}}
			sizes := []int{0, 1, 511, 512, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 1<<20 + 1}
			hs := core.Pick(e, []int{17<<20 + 1, 70 << 20}, []int{17<<20 + 1, 70 << 20, 300 << 20})
			huge := core.Space{Name: "huge", N: len(hs) * 6,
				Show: func(i int) string { return fmt.Sprintf("%d bytes, stdin %v, output kind %d", hs[i/6], i%2 == 1, i/2%3) },
				Run: func(i int, t *core.T) {
					c := strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyz\n", hs[i/6]/37) + "end"
					if i%2 == 1 {
						run(t, nil, c, i/2%3, nil, t.Env.Work)
						return
					}
					t.Env.Write("one", c)
					run(t, []string{"one", "small"}, "", i/2%3, map[string]string{"one": c, "small": "s"}, filepath.Dir(t.Env.Write("small", "s")))
				}}
			dims := []int{len(sizes), len(sizes), 3, 3}
			big := core.Space{Name: "sizes", N: core.Prod(dims...),
				Show: func(i int) string {
					d := core.Radix(i, dims...)
					return fmt.Sprintf("sizes %d and %d, arrangement %d, output kind %d", sizes[d[0]], sizes[d[1]], d[2], d[3])
				},
				Run: func(i int, t *core.T) {
					d := core.Radix(i, dims...)
					mk := func(n int, salt byte) string {
						b := make([]byte, n)
						for k := range b {
							b[k] = byte(k*31) + byte(k>>8) + salt
						}
						return string(b)
					}
					a, b := mk(sizes[d[0]], 1), mk(sizes[d[1]], 99)
					fs := map[string]string{"one": a, "two": b}
					t.Env.Write("one", a)
					t.Env.Write("two", b)
					switch d[2] {
					case 0:
						run(t, []string{"one", "two"}, "", d[3], fs, t.Env.Work)
					case 1:
						run(t, []string{"one", "-"}, b, d[3], fs, t.Env.Work)
					case 2:
						run(t, []string{"-", "two", "one"}, a, d[3], fs, t.Env.Work)
					}
				}}
			// every byte and every pair of bytes as a file; the pair space is split over its first byte
			pairs := core.Space{Name: "pairs", N: 257 * 16,
				Show: func(i int) string {
					if i/16 == 256 {
						return fmt.Sprintf("each single byte %d..%d", i%16*16, i%16*16+15)
					}
					return fmt.Sprintf("byte %d followed by each of %d..%d", i/16, i%16*16, i%16*16+15)
				},
				Run: func(i int, t *core.T) {
					fs := map[string]string{}
					var args []string
					for k := i % 16 * 16; k < i%16*16+16; k++ {
						c := string([]byte{byte(i / 16), byte(k)})
						if i/16 == 256 {
							c = string([]byte{byte(k)})
						}
						n := fmt.Sprintf("p%d", k%16)
						t.Env.Write(n, c)
						fs[n] = c
						args = append(args, n)
					}
					run(t, args, "", 0, fs, t.Env.Work)
					run(t, nil, fs["p0"], 0, fs, t.Env.Work)
				}}
			// a body of one kind with every short end and beginning
			ends := []string{""}
			for _, a := range []byte("\x00\n\r\x1a\x04\xff a\xef") {
				ends = append(ends, string([]byte{a}))
				for _, b := range []byte("\x00\n\r\x1a\x04\xff a\xef") {
					ends = append(ends, string([]byte{a, b}))
				}
			}
			bodies := []int{3, 63, 510, 511, 512, 513, 1023, 1024, 4094, 4095, 4096, 8190, 32766, 32767, 32768, 65534, 65535, 65536, 131071}
			fills := []byte("\x00\n\xffx")
			ed := []int{len(bodies), len(fills), len(ends), 2}
			edge := core.Space{Name: "edges", N: core.Prod(ed...),
				Show: func(i int) string {
					d := core.Radix(i, ed...)
					return fmt.Sprintf("%d bytes %q with %q at the %s", bodies[d[0]], fills[d[1]], ends[d[2]], []string{"end", "start"}[d[3]])
				},
				Run: func(i int, t *core.T) {
					d := core.Radix(i, ed...)
					c := strings.Repeat(string(fills[d[1]:d[1]+1]), bodies[d[0]])
					if d[3] == 0 {
						c += ends[d[2]]
					} else {
						c = ends[d[2]] + c
					}
					t.Env.Write("one", c)
					fs := map[string]string{"one": c}
					run(t, []string{"one"}, "", 1, fs, t.Env.Work)
					if len(ends[d[2]]) < 2 {
						run(t, []string{"one", "-", "one"}, c, 0, fs, t.Env.Work)
					}
				}}
			// many operands
			cnt := []int{5, 8, 9, 16, 17, 64, 100, 300}
			manyOps := core.Space{Name: "many-operands", N: len(cnt) * 4,
				Show: func(i int) string { return fmt.Sprintf("%d operands, arrangement %d", cnt[i/4], i%4) },
				Run: func(i int, t *core.T) {
					fs := map[string]string{}
					var args []string
					for k := 0; k < cnt[i/4]; k++ {
						n := fmt.Sprintf("m%d", k)
						fs[n] = fmt.Sprintf("file %d\n", k)
						t.Env.Write(n, fs[n])
						switch {
						case i%4 == 1 && k%3 == 1:
							n = "-"
						case i%4 == 2 && k%3 == 1:
							n = "missing"
						case i%4 == 3:
							n = "m0"
						}
						args = append(args, n)
					}
					run(t, args, "IN", 0, fs, t.Env.Work)
				}}
			in := "a\n\x00b\r\n\xffc"
			cs := core.Compositions(in)
			chunks := core.Space{Name: "stdin-chunks", N: len(cs) * 3,
				Show: func(i int) string { return fmt.Sprintf("stdin arrives as %q, arrangement %d", cs[i/3], i%3) },
				Run: func(i int, t *core.T) {
					t.Env.Write("one", "ONE\n")
					args := [][]string{nil, {"-"}, {"one", "-", "one"}}[i%3]
					want := []string{in, in, "ONE\n" + in + "ONE\n"}[i%3]
					r := t.Env.ExecChunks(core.Ex{Bin: t.Env.Bin("cat"), Args: args}, cs[i/3], false)
					t.Trans(1)
					t.Trace()
					if r.Out != want || r.Code != 0 {
						t.Failf("%v, want %q", r, want)
					}
				}}
			pc := []string{"", "x", "one\ntwo\n", strings.Repeat("0123456789abcde\n", 700), strings.Repeat("z", 70000)}
			pd := []int{core.PlaceKinds, len(pc), 4}
			placed := core.Space{Name: "kinds-of-files", N: core.Prod(pd...),
				Show: func(i int) string {
					d := core.Radix(i, pd...)
					return fmt.Sprintf("%s, %q, arrangement %d", core.PlaceName(d[0]), clip(pc[d[1]]), d[2])
				},
				Run: func(i int, t *core.T) {
					d := core.Radix(i, pd...)
					f, c := t.Env.Place(d[0], "placed1", pc[d[1]])
					t.Env.Write("one", "ONE\n")
					args := [][]string{{f}, {"-u", f}, {"one", f, "one"}, {f, "one"}}[d[2]]
					want := []string{c, c, "ONE\n" + c + "ONE\n", c + "ONE\n"}[d[2]]
					r := t.Env.ExecPlaced(core.Ex{Bin: t.Env.Bin("cat"), Args: args}, core.PlacePipe(d[0]), c)
					t.Trans(1)
					t.Trace()
					if r.Out != want || r.Code != 0 || r.Err != "" {
						t.Failf("%s: exit=%d stdout=%q stderr=%q, want %q", core.PlaceName(d[0]), r.Code, clip(r.Out), clip(r.Err), clip(want))
					}
				}}
			giant := core.Space{Name: "giant", N: 2, Stall: 400 * time.Second,
				Show: func(i int) string { return fmt.Sprintf("4 GiB, as standard input: %v", i == 1) },
				Run: func(i int, t *core.T) {
					if !core.GiantOK() {
						t.Outcome("no room for giant files")
						return
					}
					const size = 1<<32 + 70001
					marks := map[int64]byte{0: 'a', 1<<31 - 1: 'b', 1 << 31: 'c', 1<<32 - 1: 'd', 1 << 32: 'e', size - 1: 'f'}
					f := filepath.Join(t.Env.Work, "giant")
					defer os.Remove(f)
					core.Sparse(f, size, marks)
					x := core.Ex{Bin: t.Env.Bin("cat"), Args: []string{f}, Timeout: core.GiantTime}
					if i == 1 {
						in, err := os.Open(f)
						core.Must(err)
						defer in.Close()
						x.Args, x.StdinF = nil, in
					}
					r, err := t.Env.ExecStream(x, nil, func(o io.Reader) error { return core.CheckSparse(o, size, marks) })
					t.Trans(1)
					t.Trace()
					if r.Unjudged() {
						t.Outcome("giant: no answer in time")
						return
					}
					if err != nil || r.Code != 0 || r.Err != "" {
						t.Failf("input of %d bytes: exit %d, stderr %q, %v", int64(size), r.Code, clip(r.Err), err)
					}
				}}
			return []core.Space{lists, kinds, chunks, placed, big, huge, pairs, edge, manyOps, giant}
		},
	})
}
