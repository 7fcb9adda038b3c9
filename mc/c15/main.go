// C15: cksum against the POSIX CRC computed bit by bit.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/mc/core"
)

// crc is the remainder of contents followed by the length octets, complemented;
// one bit at a time, straight from the polynomial.
func crc(data string) uint32 {
	var r uint32
	feed := func(b byte) {
		for k := 7; k >= 0; k-- {
			top := r >> 31
			r = r << 1
			if top != uint32(b>>uint(k)&1) {
				r ^= 0x04C11DB7
			}
		}
	}
	for i := 0; i < len(data); i++ {
		feed(data[i])
	}
	for n := len(data); n > 0; n >>= 8 {
		feed(byte(n))
	}
	return ^r
}

func line(data, name string) string {
	s := fmt.Sprintf("%d %d", crc(data), len(data))
	if name != "" {
		s += " " + name
	}
	return s + "\n"
}

// batch: one execution with many operands
func batch(t *core.T, contents []string) {
	var args []string
	var want strings.Builder
	for i, c := range contents {
		n := fmt.Sprintf("f%d", i)
		t.Env.Write(n, c)
		args = append(args, n)
		want.WriteString(line(c, n))
	}
	r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("cksum"), Args: args, Files: 100})
	t.Trans(len(contents))
	t.Trace()
	if r.Code != 0 || r.Hung {
		t.Failf("%v", r)
		return
	}
	if r.Out != want.String() {
		g, w := strings.Split(r.Out, "\n"), strings.Split(want.String(), "\n")
		for i := range w {
			if i >= len(g) || g[i] != w[i] {
				c := ""
				if i < len(contents) {
					c = contents[i]
				}
				if len(c) > 50 {
					c = c[:50] + "..."
				}
				t.Failf("operand %d, contents %q: got %q, want %q", i, c, at(g, i), w[i])
				return
			}
		}
		t.Failf("extra output %q", r.Out)
		return
	}
	for _, l := range strings.Split(r.Out, "\n") {
		t.State(l)
	}
	t.Outcome(fmt.Sprintf("%d operands", len(contents)))
}

func at(s []string, i int) string {
	if i < len(s) {
		return s[i]
	}
	return "(nothing)"
}

func gen(n, kind int) string {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xff
		case 2:
			b[i] = byte(i*7 + i>>8)
		default:
			b[i] = '\n'
		}
	}
	return string(b)
}

func main() {
	core.Main(core.Check{
		ID:          "C15",
		Bounds:      "all contents of 0, 1 and 2 bytes (thorough: and 2^20 of 3 bytes); every length 0..2100 (0..9000) in 4 fillings; lengths around every power of 2 up to 2^21 (2^23) around 2^24, and 40 (200) MB; all operand lists of up to 3 (4) from 7 incl. - and missing files; all divisions of a short stdin; 10 kinds of files (links, pipes, files of /proc)",
		Assumptions: []string{"contents longer than 3 bytes are covered by length and filling only (the CRC is linear over GF(2) in the table-driven form)"},
		Setup:       func(e *core.Env) error { return core.BuildCmd(e, "cksum") },
		Spaces: func(e *core.Env) []core.Space {
			two := core.Space{Name: "two-bytes", N: 256,
				Run: func(i int, t *core.T) {
					cs := []string{"", string([]byte{byte(i)})}
					for b := 0; b < 256; b++ {
						cs = append(cs, string([]byte{byte(i), byte(b)}))
					}
					batch(t, cs)
				},
				Show: func(i int) string { return fmt.Sprintf("byte %d alone and followed by every byte", i) }}
			maxLen := core.Pick(e, 2100, 9000)
			const per = 40
			lens := core.Space{Name: "lengths", N: 4 * (maxLen/per + 1),
				Run: func(i int, t *core.T) {
					var cs []string
					for k := 0; k < per; k++ {
						cs = append(cs, gen(i/4*per+k, i%4))
					}
					batch(t, cs)
				},
				Show: func(i int) string { return fmt.Sprintf("lengths %d..%d, filling %d", i/4*per, i/4*per+per-1, i%4) }}
			sizes := []int{4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 1<<20 - 1, 1 << 20, 1<<24 - 1, 1 << 24, 1<<24 + 1}
			for p := 12; p < core.Pick(e, 22, 24); p++ {
				sizes = append(sizes, 1<<p-2, 1<<p-1, 1<<p, 1<<p+1, 1<<p+2, 1<<p+3, 3<<(p-1))
			}
			sizes = append(sizes, 40<<20)
			if e.Thorough() {
				sizes = append(sizes, 1<<25+3, 200<<20)
			}
			big := core.Space{Name: "sizes", N: len(sizes) * 3,
				Run: func(i int, t *core.T) {
					c := gen(sizes[i/3], i%3)
					batch(t, []string{c})
					r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("cksum"), Stdin: c})
					t.Trans(1)
					if r.Code != 0 || r.Out != line(c, "") {
						t.Failf("standard input of %d bytes: %v, want %q", len(c), r, line(c, ""))
					}
				},
				Show: func(i int) string { return fmt.Sprintf("%d bytes, filling %d, as file and as stdin", sizes[i/3], i%3) }}
			names := []string{"a", "b", "e", "-", "missing", "dir", "./with space", "p%d%s$HOME ~"}
			m := core.Pick(e, 3, 4)
			stdins := []string{"", "std\nin\x00"}
			ops := core.Space{Name: "operands", N: core.SeqN(len(names), 0, m) * len(stdins),
				Show: func(i int) string {
					var a []string
					for _, d := range core.Seq(i/len(stdins), len(names), 0, m) {
						a = append(a, names[d])
					}
					return fmt.Sprintf("%q, stdin %q", a, stdins[i%len(stdins)])
				},
				Run: func(i int, t *core.T) {
					in := stdins[i%len(stdins)]
					w := filepath.Join(t.Env.Work, "ops")
					os.MkdirAll(filepath.Join(w, "dir"), 0777)
					content := map[string]string{"a": "alpha\n", "b": "beta", "e": "", "./with space": "s", "p%d%s$HOME ~": "pct"}
					for f, c := range content {
						core.Must(os.WriteFile(filepath.Join(w, f), []byte(c), 0666))
					}
					var args []string
					want := ""
					bad := false
					left := in
					for _, d := range core.Seq(i/len(stdins), len(names), 0, m) {
						n := names[d]
						args = append(args, n)
						if n == "-" {
							want += line(left, "-")
							left = ""
						} else if c, ok := content[n]; ok {
							want += line(c, n)
						} else {
							bad = true
						}
					}
					if len(args) == 0 {
						want = line(in, "")
					}
					r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("cksum"), Args: args, Dir: w, Stdin: in})
					t.Trans(1)
					t.Trace()
					t.State(r.Out)
					t.Outcome(fmt.Sprintf("exit %d", r.Code))
					if bad {
						if r.Code == 0 || r.Err == "" || r.Hung {
							t.Failf("args %q: %v, want a failure with a diagnostic", args, r)
						}
						return
					}
					if r.Code != 0 || r.Out != want || r.Hung {
						t.Failf("args %q, stdin %q: %v, want %q", args, in, r, want)
					}
				}}
			cs := core.Compositions("a\nb\x00c\n\xff")
			chunks := core.Space{Name: "stdin-chunks", N: len(cs) * 2,
				Show: func(i int) string { return fmt.Sprintf("stdin arrives as %q", cs[i/2]) },
				Run: func(i int, t *core.T) {
					x := core.Ex{Bin: t.Env.Bin("cksum")}
					name := ""
					if i%2 == 1 {
						x.Args = []string{"-"}
						name = "-"
					}
					r := t.Env.ExecChunks(x, cs[i/2], false)
					t.Trans(1)
					t.Trace()
					if want := line("a\nb\x00c\n\xff", name); r.Code != 0 || r.Out != want {
						t.Failf("%v, want %q", r, want)
					}
				}}
			// one byte other than the rest, at every place around the ends and block limits
			at := []int{0, 1, 2, 3, 4, 7, 8, 15, 16, 63, 64, 511, 512, 4095, 4096, -1, -2, -3, -4, -5, -8, -9}
			hsz := []int{5, 17, 100, 513, 4096, 4099, 8192, 65537}
			hd := []int{len(hsz), 4}
			holes := core.Space{Name: "odd-bytes", N: core.Prod(hd...),
				Run: func(i int, t *core.T) {
					d := core.Radix(i, hd...)
					var cs []string
					for _, p := range at {
						n := hsz[d[0]]
						if p < 0 {
							p += n
						}
						if p < 0 || p >= n {
							continue
						}
						for _, v := range []byte{0, 1, 0x80, 0xff, '\n'} {
							b := []byte(gen(n, d[1]))
							b[p] = v
							cs = append(cs, string(b))
						}
					}
					batch(t, cs)
				},
				Show: func(i int) string { return fmt.Sprintf("%d bytes with one odd byte", hsz[i/4]) }}
			kc := []string{"", "x", "one\ntwo\n", gen(11000, 2), gen(70000, 1)}
			kd := []int{core.PlaceKinds, len(kc), 2}
			placed := core.Space{Name: "kinds-of-files", N: core.Prod(kd...),
				Show: func(i int) string {
					d := core.Radix(i, kd...)
					return fmt.Sprintf("%s, %d bytes, arrangement %d", core.PlaceName(d[0]), len(kc[d[1]]), d[2])
				},
				Run: func(i int, t *core.T) {
					d := core.Radix(i, kd...)
					f, c := t.Env.Place(d[0], "placed1", kc[d[1]])
					args := []string{f}
					want := line(c, f)
					if d[2] == 1 {
						t.Env.Write("one", "ONE\n")
						args = []string{"one", f, "one"}
						want = line("ONE\n", "one") + want + line("ONE\n", "one")
					}
					r := t.Env.ExecPlaced(core.Ex{Bin: t.Env.Bin("cksum"), Args: args}, core.PlacePipe(d[0]), c)
					t.Trans(1)
					t.Trace()
					if r.Code != 0 || r.Out != want || r.Hung {
						t.Failf("%s: %v, want %q", core.PlaceName(d[0]), r, want)
					}
				}}
			out := []core.Space{ops, two, lens, chunks, placed, holes, big}
			if e.Thorough() {
				out = append(out, core.Space{Name: "three-bytes", N: 256 * 16,
					Run: func(i int, t *core.T) {
						var cs []string
						for b := 0; b < 256; b++ {
							cs = append(cs, string([]byte{byte(i / 16), byte(b), byte(i%16*17 + b%3)}))
						}
						batch(t, cs)
					},
					Show: func(i int) string { return fmt.Sprintf("three bytes, first %d, last %d..", i/16, i%16*17) }})
			}
			return out
		},
	})
}
