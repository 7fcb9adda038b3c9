// C17: head.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/mc/core"
)

func headOf(s string, n int) string {
	i := 0
	for ; n > 0; n-- {
		j := strings.IndexByte(s[i:], '\n')
		if j < 0 {
			return s
		}
		i += j + 1
	}
	return s[:i]
}

func clip(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("%s... (%d bytes)", s[:80], len(s))
	}
	return s
}

func verify(t *core.T, r core.Result, want, what string) {
	t.Trans(1)
	t.Trace()
	t.State(r.Out)
	t.Outcome(fmt.Sprintf("exit %d", r.Code))
	if r.Hung || r.Code != 0 || r.Out != want {
		t.Failf("%s: exit=%d hung=%v stdout=%q stderr=%q, want %q", what, r.Code, r.Hung, clip(r.Out), clip(r.Err), clip(want))
	}
}

// content k: k lines; kind decides their shape and whether the last is terminated
func content(k, kind int) string {
	var b strings.Builder
	for i := 0; i < k; i++ {
		switch kind / 2 {
		case 0:
			fmt.Fprintf(&b, "line %d", i)
		case 1: // blank
		case 2:
			fmt.Fprintf(&b, " \x00%d\xff\r", i)
		}
		b.WriteByte('\n')
	}
	s := b.String()
	if kind%2 == 1 {
		if kind/2 == 1 {
			return s + "x"
		}
		return strings.TrimSuffix(s, "\n")
	}
	return s
}

func main() {
	core.Main(core.Check{
		ID:          "C17",
		Bounds:      "files of 0..17 (32) lines in 6 shapes x 28 n (1..13, around 16 and 32, 100, 1000, 65536, 2^31, over 2^32, 2^63-1, none), as file, stdin and -; lines of 4K..1M bytes; up to 100000 lines; four inputs of 9 to 36 MB or up to 3 million lines, 4 GiB of lines of 1 MiB; all operand lists of up to 4 (5) from 7 x 10 n; all pairs of files of n-2..n+1 or no lines in 6 shapes for 11 n; up to 300 operands with at most 100 open files; every byte value; 10 kinds of files (links, pipes, files of /proc); invalid -n, -n with leading zeros and -n given twice; stdin delivering exactly the wanted lines in every division and then staying open",
		Assumptions: []string{"n is a positive decimal number given as a separate argument before the operands", "standard input is named at most once"},
		Setup:       func(e *core.Env) error { return core.BuildCmd(e, "head") },
		Spaces: func(e *core.Env) []core.Space {
			ns := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 99, 100, 1000, 65536, 1 << 31, 1<<32 + 1, 1<<32 + 3, math.MaxInt64} // 0: no -n
			opt := func(n int) ([]string, int) {
				if n == 0 {
					return nil, 10
				}
				return []string{"-n", strconv.Itoa(n)}, n
			}
			cd := []int{core.Pick(e, 18, 33), 6, len(ns), 3}
			counts := core.Space{Name: "counts", N: core.Prod(cd...),
				Show: func(i int) string {
					d := core.Radix(i, cd...)
					return fmt.Sprintf("%q, -n %d, source %d", content(d[0], d[1]), ns[d[2]], d[3])
				},
				Run: func(i int, t *core.T) {
					d := core.Radix(i, cd...)
					c := content(d[0], d[1])
					args, n := opt(ns[d[2]])
					x := core.Ex{Bin: t.Env.Bin("head")}
					switch d[3] {
					case 0:
						x.Args = append(args, t.Env.Write("f", c))
					case 1:
						x.Args, x.Stdin = args, c
					case 2:
						x.Args, x.Stdin = append(args, "-"), c
					}
					verify(t, t.Env.Exec(x), headOf(c, n), fmt.Sprintf("%q of %q", x.Args, c))
				}}
			many := []int{14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 5000, 65535, 65536, 65537, 100000}
			large := core.Space{Name: "many-lines", N: len(many) * len(ns),
				Show: func(i int) string { return fmt.Sprintf("%d lines, -n %d", many[i%len(many)], ns[i/len(many)]) },
				Run: func(i int, t *core.T) {
					c := content(many[i%len(many)], 0)
					args, n := opt(ns[i/len(many)])
					verify(t, t.Env.Exec(core.Ex{Bin: t.Env.Bin("head"), Args: append(args, t.Env.Write("f", c))}), headOf(c, n), "many lines")
				}}
			sizes := []int{15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, 4094, 4095, 4096, 4097, 8192, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 1 << 20}
			ld := []int{len(sizes), 4, 2, 4}
			long := core.Space{Name: "long-lines", N: core.Prod(ld...),
				Show: func(i int) string {
					d := core.Radix(i, ld...)
					return fmt.Sprintf("line of %d bytes at position %d, terminated=%v, -n %d", sizes[d[0]], d[1], d[2] == 0, d[3]+1)
				},
				Run: func(i int, t *core.T) {
					d := core.Radix(i, ld...)
					c := strings.Repeat("short\n", d[1]) + strings.Repeat("L", sizes[d[0]])
					if d[2] == 0 {
						c += "\nafter\nend"
					}
					args, n := opt(d[3] + 1)
					verify(t, t.Env.Exec(core.Ex{Bin: t.Env.Bin("head"), Args: append(args, t.Env.Write("f", c))}), headOf(c, n), "long line, file")
					verify(t, t.Env.Exec(core.Ex{Bin: t.Env.Bin("head"), Args: args, Stdin: c}), headOf(c, n), "long line, stdin")
				}}
			hd := []int{4, 3, 2}
			huge := core.Space{Name: "huge", N: core.Prod(hd...),
				Show: func(i int) string { return fmt.Sprint("huge input ", core.Radix(i, hd...)) },
				Run: func(i int, t *core.T) {
					d := core.Radix(i, hd...)
					var c string
					n := 2
					switch d[0] {
					case 0:
						c = "first\n" + strings.Repeat("L", 9<<20) + "\nthird\n"
					case 1:
						c, n = content(600000, 0), 599999
					case 2:
						c, n = strings.Repeat(strings.Repeat("M", 3<<20)+"\n", 12), 11
					case 3:
						c, n = strings.Repeat("\n", 3<<20)+"x", 3<<20
					}
					args := []string{"-n", fmt.Sprint(n + d[1] - 1)}
					x := core.Ex{Bin: t.Env.Bin("head"), Args: args, Stdin: c}
					if d[2] == 1 {
						x.Stdin, x.Args = "", append(args, t.Env.Write("f", c))
					}
					verify(t, t.Env.Exec(x), headOf(c, n+d[1]-1), "huge input")
				}}
			files := map[string]string{"empty": "", "twelve": content(12, 0), "./noeol": "a\nb", "blank": "\n\n\n", "%d $x": "p\n"}
			names := []string{"empty", "twelve", "./noeol", "blank", "%d $x", "-", "missing"}
			on := []int{0, 1, 2, 3, 9, 10, 11, 12, 13, 100}
			m := core.Pick(e, 4, 5)
			ops := core.Space{Name: "operands", N: len(on) * core.SeqN(len(names), 0, m),
				Show: func(i int) string {
					var a []string
					for _, d := range core.Seq(i/len(on), len(names), 0, m) {
						a = append(a, names[d])
					}
					return fmt.Sprintf("-n %d %q", on[i%len(on)], a)
				},
				Run: func(i int, t *core.T) {
					args, n := opt(on[i%len(on)])
					w := filepath.Join(t.Env.Work, "ops")
					os.MkdirAll(w, 0777)
					for f, c := range files {
						core.Must(os.WriteFile(filepath.Join(w, f), []byte(c), 0666))
					}
					in := "s1\ns2\ns3"
					seq := core.Seq(i/len(on), len(names), 0, m)
					want := ""
					bad, std := false, 0
					for k, d := range seq {
						name := names[d]
						args = append(args, name)
						if len(seq) > 1 {
							if k > 0 {
								want += "\n"
							}
							want += "==> " + name + " <==\n"
						}
						if name == "-" {
							if std == 0 {
								want += headOf(in, n)
							}
							std++
						} else if name == "missing" {
							bad = true
						} else {
							want += headOf(files[name], n)
						}
					}
					if len(seq) == 0 {
						want = headOf(in, n)
					}
					// after all of it has been printed there is nothing left;
					// otherwise it depends on how far ahead head reads
					if std > 1 && n <= 3 {
						t.Outcome("skipped: stdin twice")
						return
					}
					r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("head"), Args: args, Dir: w, Stdin: in})
					if bad {
						t.Trans(1)
						t.Trace()
						t.Outcome("missing file")
						if r.Code == 0 || r.Hung || r.Err == "" {
							t.Failf("args %q: %v, want failure", args, r)
						}
						return
					}
					verify(t, r, want, fmt.Sprintf("%q", args))
				}}
			// pairs and triples of files around the number of lines wanted, in every shape
			pn := []int{1, 2, 3, 5, 9, 10, 11, 12, 17, 33, 100}
			pd := []int{len(pn), 5, 6, 5, 6}
			pairs := core.Space{Name: "pairs", N: core.Prod(pd...),
				Show: func(i int) string {
					d := core.Radix(i, pd...)
					return fmt.Sprintf("-n %d on files of %d and %d more lines, kinds %d and %d", pn[d[0]], d[1]-2, d[3]-2, d[2], d[4])
				},
				Run: func(i int, t *core.T) {
					d := core.Radix(i, pd...)
					n := pn[d[0]]
					count := func(k int) int {
						if k == 4 || n+k-2 < 0 {
							return 0
						}
						return n + k - 2
					}
					a, b := content(count(d[1]), d[2]), content(count(d[3]), d[4])
					t.Env.Write("a", a)
					t.Env.Write("b", b)
					args, _ := opt(n)
					verify(t, t.Env.Exec(core.Ex{Bin: t.Env.Bin("head"), Args: append(args, "a", "b", "a"), Dir: t.Env.Work}),
						"==> a <==\n"+headOf(a, n)+"\n==> b <==\n"+headOf(b, n)+"\n==> a <==\n"+headOf(a, n), fmt.Sprintf("-n %d of %q, %q", n, clip(a), clip(b)))
				}}
			opCounts := []int{5, 8, 9, 10, 11, 16, 17, 64, 100, 300}
			manyOps := core.Space{Name: "many-operands", N: len(opCounts) * 3,
				Show: func(i int) string { return fmt.Sprintf("%d operands, -n %d", opCounts[i/3], i%3) },
				Run: func(i int, t *core.T) {
					args, n := opt(i % 3)
					want := ""
					for k := 0; k < opCounts[i/3]; k++ {
						c := content(k%13, k%6)
						name := fmt.Sprintf("m%d", k)
						t.Env.Write(name, c)
						args = append(args, name)
						if k > 0 {
							want += "\n"
						}
						want += "==> " + name + " <==\n" + headOf(c, n)
					}
					verify(t, t.Env.Exec(core.Ex{Bin: t.Env.Bin("head"), Args: args, Dir: t.Env.Work, Files: 100}), want, "many operands")
				}}
			// every byte value in every part of a line
			values := core.Space{Name: "values", N: 256,
				Show: func(i int) string { return fmt.Sprintf("lines with byte %d", i) },
				Run: func(i int, t *core.T) {
					b := string([]byte{byte(i)})
					for _, c := range []string{b, b + b, b + "\n", "\n" + b, "x" + b + "\n" + b + "y\nz\n" + b, b + "\n" + b + "\n" + b + "\n"} {
						args, n := opt(2)
						verify(t, t.Env.Exec(core.Ex{Bin: t.Env.Bin("head"), Args: append(args, t.Env.Write("f", c))}), headOf(c, n), fmt.Sprintf("-n 2 of %q", c))
						verify(t, t.Env.Exec(core.Ex{Bin: t.Env.Bin("head"), Stdin: c}), headOf(c, 10), fmt.Sprintf("%q", c))
					}
				}}
			badArgs := [][]string{{"-n"}, {"-n", ""}, {"-n", "x"}, {"-n", "1x"}, {"-n", "1.5"}, {"-n", "f"}, {"-n", " 1"}, {"-n", "é"}, {"-n", "3", "-n"}, {"-n", "--"}}
			invalid := core.Space{Name: "invalid-n", N: len(badArgs) * 2,
				Show: func(i int) string { return fmt.Sprintf("%q (operand follows: %v)", badArgs[i/2], i%2 == 1) },
				Run: func(i int, t *core.T) {
					args := append([]string{}, badArgs[i/2]...)
					t.Env.Write("f", "x\n")
					if i%2 == 1 {
						if args[len(args)-1] == "-n" {
							return
						}
						args = append(args, "f")
					}
					r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("head"), Args: args, Stdin: "in\n"})
					t.Trans(1)
					t.Trace()
					t.Outcome("invalid -n")
					if r.Code == 0 || r.Hung {
						t.Failf("args %q: %v, want failure", args, r)
					}
				}}
			// other ways to write the number, and -n given twice: the last one counts
			type num struct {
				args []string
				n    int
			}
			var nums []num
			for _, x := range []string{"010", "08", "0012", "00", "0", "000000000000000000000003", "0100", "012", "017", "0000010"} {
				v := 0
				fmt.Sscanf(strings.TrimLeft(x, "0"), "%d", &v)
				if v > 0 {
					nums = append(nums, num{[]string{"-n", x}, v})
				}
			}
			for _, a := range []int{1, 2, 9, 10, 11, 40} {
				for _, b := range []int{1, 2, 9, 10, 11, 40} {
					nums = append(nums, num{[]string{"-n", fmt.Sprint(a), "-n", fmt.Sprint(b)}, b})
				}
			}
			forms := core.Space{Name: "numbers", N: len(nums) * 3,
				Show: func(i int) string { return fmt.Sprint(nums[i/3].args) },
				Run: func(i int, t *core.T) {
					for _, lines := range []int{0, 1, 3, 12, 120} {
						c := content(lines, 0)
						x := core.Ex{Bin: t.Env.Bin("head"), Args: append([]string{}, nums[i/3].args...)}
						switch i % 3 {
						case 0:
							x.Stdin = c
						case 1:
							x.Args, x.Stdin = append(x.Args, "-"), c
						case 2:
							x.Args = append(x.Args, t.Env.Write("f", c))
						}
						verify(t, t.Env.Exec(x), headOf(c, nums[i/3].n), fmt.Sprintf("%q of %d lines", x.Args, lines))
					}
				}}
			// input arrives in every division and the writer stays connected
			type arr struct {
				n      int
				chunks []string
			}
			var arrs []arr
			for _, c := range core.Compositions("ab\nc\n\nd\n") {
				arrs = append(arrs, arr{4, c})
			}
			for _, c := range core.Compositions("ab\nc\n") {
				for _, extra := range []string{"", "x", "more\n", "\n"} {
					cc := append([]string{}, c...)
					if extra != "" {
						cc[len(cc)-1] += extra
					}
					arrs = append(arrs, arr{2, cc})
				}
			}
			arrs = append(arrs, arr{0, []string{content(10, 0)}}, arr{0, []string{content(9, 0), "last\n"}}, arr{1, []string{strings.Repeat("y", 70000) + "\n"}}, arr{1, []string{strings.Repeat("y", 4095), "\n"}}, arr{1, []string{strings.Repeat("y", 4096), "\n"}})
			hold := core.Space{Name: "arrival", N: len(arrs) * 2,
				Show: func(i int) string {
					return fmt.Sprintf("-n %d, stdin arrives as %q and then %s", arrs[i/2].n, arrs[i/2].chunks, []string{"stays open", "ends"}[i%2])
				},
				Run: func(i int, t *core.T) {
					a := arrs[i/2]
					args, n := opt(a.n)
					r := t.Env.ExecChunks(core.Ex{Bin: t.Env.Bin("head"), Args: args}, a.chunks, i%2 == 0)
					verify(t, r, headOf(strings.Join(a.chunks, ""), n), "arrival")
				}}
			kc := []string{"", "x", "one\ntwo\n", content(12, 0), content(700, 1), strings.Repeat("z", 70000) + "\nz"}
			kn := []int{0, 1, 2, 11, 600}
			kd := []int{core.PlaceKinds, len(kc), len(kn), 2}
			placed := core.Space{Name: "kinds-of-files", N: core.Prod(kd...),
				Show: func(i int) string {
					d := core.Radix(i, kd...)
					return fmt.Sprintf("%s, %q, -n %d, arrangement %d", core.PlaceName(d[0]), clip(kc[d[1]]), kn[d[2]], d[3])
				},
				Run: func(i int, t *core.T) {
					d := core.Radix(i, kd...)
					f, c := t.Env.Place(d[0], "placed1", kc[d[1]])
					args, n := opt(kn[d[2]])
					args = append(args, f)
					want := headOf(c, n)
					if d[3] == 1 {
						t.Env.Write("one", "ONE\n")
						args = append(args, "one")
						want = "==> " + f + " <==\n" + want + "\n==> one <==\nONE\n"
					}
					r := t.Env.ExecPlaced(core.Ex{Bin: t.Env.Bin("head"), Args: args}, core.PlacePipe(d[0]), c)
					verify(t, r, want, core.PlaceName(d[0]))
				}}
			giant := core.Space{Name: "giant", N: 1, Stall: 400 * time.Second,
				Show: func(i int) string { return "4 GiB in lines of 1 MiB on standard input" },
				Run: func(i int, t *core.T) {
					if !core.GiantOK() {
						t.Outcome("no room for giant files")
						return
					}
					const n, k = 4150, 1 << 20
					line := bytes.Repeat([]byte("0123456789abcdef"), k/16)
					line[k-1] = '\n'
					tag := func(j int) { copy(line, fmt.Sprintf("%08d", j)) }
					mine := append([]byte{}, line...)
					r, err := t.Env.ExecStream(core.Ex{Bin: t.Env.Bin("head"), Args: []string{"-n", fmt.Sprint(n)}, Timeout: core.GiantTime},
						func(w *bufio.Writer) {
							for j := 0; j < n+5; j++ {
								tag(j)
								if _, err := w.Write(line); err != nil {
									return
								}
							}
						}, func(o io.Reader) error {
							got := make([]byte, k)
							for j := 0; j < n; j++ {
								if m, err := io.ReadFull(o, got); err != nil {
									return fmt.Errorf("line %d of %d: %d bytes, %v", j+1, n, m, err)
								}
								copy(mine, fmt.Sprintf("%08d", j))
								if !bytes.Equal(mine, got) {
									return fmt.Errorf("line %d differs: %q...", j+1, got[:20])
								}
							}
							if m, _ := io.ReadFull(o, got); m > 0 {
								return fmt.Errorf("more than %d lines", n)
							}
							return nil
						})
					t.Trans(1)
					t.Trace()
					if r.Unjudged() {
						t.Outcome("giant: no answer in time")
						return
					}
					if err != nil || r.Code != 0 {
						t.Failf("head -n %d of lines of %d bytes: exit %d, stderr %q, %v", n, k, r.Code, clip(r.Err), err)
					}
				}}
			return []core.Space{counts, ops, invalid, forms, pairs, manyOps, values, placed, long, large, huge, hold, giant}
		},
	})
}
