// C14: option parsing against a getopt model.
package main

import (
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/fwip/posix-utils/pkg/flag"
	"verif/mc/core"
)

type dest struct {
	A, B, E  bool
	P, S     string
	N, M     int64
	Operands []string
	Err      bool
}

func initial() dest { return dest{P: "p0", S: "s0", N: -77, M: 88} }

func real_(args []string) dest {
	d := initial()
	p := flag.Parser{Input: args}
	p.BoolVar(&d.A, 'a')
	p.BoolVar(&d.B, 'b')
	p.BoolVar(&d.E, 'é')
	p.StringVar(&d.P, 'p')
	p.StringVar(&d.S, 'ß')
	p.IntVar(&d.N, 'n')
	p.IntVar(&d.M, 'm')
	ops, err := p.Parse()
	d.Operands, d.Err = ops, err != nil
	return d
}

func model(args []string) dest {
	d := initial()
	i := 0
	for i < len(args) {
		a := args[i]
		if a == "" || a[0] != '-' || a == "-" {
			break
		}
		i++
		if a == "--" {
			break
		}
		rest := a[1:]
		for rest != "" {
			c, w := utf8.DecodeRuneInString(rest)
			rest = rest[w:]
			switch c {
			case 'a':
				d.A = true
				continue
			case 'b':
				d.B = true
				continue
			case 'é':
				d.E = true
				continue
			case 'p', 'ß', 'n', 'm':
			default:
				d.Err = true
				return d
			}
			v := rest
			rest = ""
			if v == "" {
				if i >= len(args) {
					d.Err = true
					return d
				}
				v = args[i]
				i++
			}
			switch c {
			case 'p':
				d.P = v
			case 'ß':
				d.S = v
			default:
				n, err := strconv.ParseInt(v, 10, 64)
				if err != nil {
					d.Err = true
					return d
				}
				if c == 'n' {
					d.N = n
				} else {
					d.M = n
				}
			}
		}
	}
	d.Operands = args[i:]
	return d
}

// tryArgs does the same with Input unset, which means os.Args.
func tryArgs(t *core.T, args []string) {
	old := os.Args
	os.Args = append([]string{"prog"}, args...)
	defer func() { os.Args = old }()
	tryOn(t, args, nil)
}

func try(t *core.T, args []string) { tryOn(t, args, args) }

func tryOn(t *core.T, args, input []string) {
	in := append([]string{}, args...)
	want := model(in)
	got := real_(input)
	t.Trans(1)
	t.Trace()
	if want.Err != got.Err {
		t.Failf("args %q: error=%v, want %v", in, got.Err, want.Err)
		return
	}
	if want.Err {
		t.Outcome("error")
		// what was not mentioned keeps its value
		i := initial()
		all := strings.Join(in, " ")
		if !strings.Contains(all, "p") && got.P != i.P || !strings.Contains(all, "n") && got.N != i.N || !strings.Contains(all, "a") && got.A || !strings.Contains(all, "b") && got.B || !strings.Contains(all, "m") && got.M != i.M {
			t.Failf("args %q: an option that was not given changed: %+v", in, got)
		}
		return
	}
	if len(want.Operands) == 0 && len(got.Operands) == 0 {
		want.Operands, got.Operands = nil, nil
	}
	if !reflect.DeepEqual(want, got) {
		t.Failf("args %q: %+v, want %+v", in, got, want)
		return
	}
	t.State(fmt.Sprintf("%+v", got))
	t.Outcome(fmt.Sprintf("%d operands", len(got.Operands)))
}

// letter: one letter of each kind among others, registered in some order
func letter(t *core.T, c rune, kind, order int) {
	for _, form := range []int{0, 1, 2, 3, 4, 5} {
		var a, z bool
		var p, q string = "p0", "q0"
		var n, m int64 = -7, 8
		var pr flag.Parser
		reg := []func(){
			func() { pr.BoolVar(&a, 'x') }, func() { pr.StringVar(&p, 'y') }, func() { pr.IntVar(&n, 'w') },
			func() {
				switch kind {
				case 0:
					pr.BoolVar(&z, c)
				case 1:
					pr.StringVar(&q, c)
				case 2:
					pr.IntVar(&m, c)
				}
			}}
		for k := range reg {
			reg[(k*[]int{1, 3}[order%2]+order)%4]()
		}
		var args []string
		l := string(c)
		wa, wp, wn := false, "p0", int64(-7)
		switch form {
		case 0:
			args = []string{"-" + l, "12", "op"}
		case 1:
			args = []string{"-x" + l, "12", "op"}
			wa = true
		case 2:
			args = []string{"-" + l + "12", "op"}
		case 3:
			args = []string{"-yv", "-w5", "-x", "-" + l, "12"}
			wa, wp, wn = true, "v", 5
		case 4:
			args = []string{"-y", "-" + l, "-w", "6", "-" + l, "12", "-x"}
			wp, wn = "-"+l, 6
		case 5:
			args = []string{"--", "-" + l, "12"}
		}
		wz, wq, wm := false, "q0", int64(8)
		var ops []string
		bad := false
		switch {
		case form == 5:
			ops = args[1:]
		case kind == 0 && form == 2:
			bad = true // 1 is no option
		case kind == 0:
			wz = true
			ops = args[len(args)-1:]
			switch form {
			case 0, 1:
				ops = args[1:]
			case 4:
				ops = args[5:]
			}
		default:
			if kind == 1 {
				wq = "12"
			} else {
				wm = 12
			}
			switch form {
			case 0, 1:
				ops = args[2:]
			case 2:
				ops = args[1:]
			case 4:
				wa = true
			}
		}
		pr.Input = append([]string{}, args...)
		for round := 0; round < 2; round++ {
			got, err := pr.Parse()
			t.Trans(1)
			if (err != nil) != bad {
				t.Failf("%q, round %d: error %v", args, round, err)
				return
			}
			if !bad && (a != wa || z != wz || p != wp || q != wq || n != wn || m != wm || strings.Join(got, "|") != strings.Join(ops, "|") || len(got) != len(ops)) {
				t.Failf("%q (%c is of kind %d), round %d: %v %v %q %q %d %d %q, want %v %v %q %q %d %d %q", args, c, kind, round, a, z, p, q, n, m, got, wa, wz, wp, wq, wn, wm, ops)
				return
			}
			if strings.Join(pr.Input, "|") != strings.Join(args, "|") {
				t.Failf("%q: the arguments became %q", args, pr.Input)
				return
			}
		}
		t.State(fmt.Sprint(form, kind, order, bad))
	}
	t.Trace()
}

func main() {
	var runes []rune
	for c := rune('!'); c < 0x250; c++ {
		if c != '-' && c != 'x' && c != 'y' && c != 'w' && c != 0x7f && !(c >= 0x80 && c < 0xa0) {
			runes = append(runes, c)
		}
	}
	runes = append(runes, 0x3b1, 0x416, 0x5d0, 0x7ff, 0x800, 0x65e5, 0xffdd, 0xffff-2, 0x10000, 0x1f600, 0x10fffd)
	alpha := []string{"", "-", "--", "-a", "-ab", "-p", "-px", "-pa", "-ap", "-apn", "-n", "-n5", "-an5", "-nx", "-z", "-az", "x", "5", "-3", "--a", "-é", "-ßx", "-aß", "-a-", "-m12", "-p-", "-p--"}
	core.Main(core.Check{
		ID:          "C14",
		Bounds:      "all lists of up to 4 (5) arguments from 27 (booleans, values, bundles, unknown letters, -, --, empty, multi-byte letters); all single arguments of up to 5 (6) characters over -abpn5zé followed by each of 6 next arguments; up to 257 arguments, letters in a bundle and operands; all lists of up to 3 through os.Args; every letter below U+0250 and 11 others, of 3 kinds, registered in 8 orders, in 6 places, parsed twice; every byte and every pair of 38 special characters in 14 places of values and operands; all integer texts of up to 4 (5) characters over 190-+x and blank",
		Assumptions: []string{"integer texts with a base prefix, a leading zero or underscores are outside the property", "a letter is registered once"},
		Spaces: func(e *core.Env) []core.Space {
			m := core.Pick(e, 4, 5)
			chars := core.Strs([]string{"-", "a", "b", "p", "n", "5", "z", "é"}, 1, core.Pick(e, 5, 6))
			next := [][]string{{}, {"7"}, {"-a"}, {"--"}, {"x", "-b"}, {"-", "y"}}
			ints := []string{"0", "1", "-1", "+1", "10", "-10", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "", " 1", "1 ", "1x", "x", "-", "+", "--1", "1.0", "é"}
			forms := []string{"-n", "-an", "-m", "-bm"}
			counts := []int{5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 64, 65, 100, 257}
			long := func(i int) []string {
				d := core.Radix(i, len(counts), len(alpha), len(alpha))
				var args []string
				for k := 0; k < counts[d[0]]; k++ {
					args = append(args, alpha[d[1]])
				}
				return append(args, alpha[d[2]], "-b", "--", "-a", "last")
			}
			letters := []string{"a", "b", "é", "ab", "aé", "bbb"}
			bundle := func(i int) []string {
				d := core.Radix(i, len(counts), len(letters), 8, len(next))
				a := "-" + strings.Repeat(letters[d[1]], counts[d[0]]) + []string{"", "p", "n", "z", "pvalue", "n12", "ßx", "-"}[d[2]]
				return append([]string{a}, next[d[3]]...)
			}
			many := func(i int) []string {
				d := core.Radix(i, len(counts), len(alpha))
				args := []string{"-a", alpha[d[1]], "--"}
				for k := 0; k < counts[d[0]]; k++ {
					args = append(args, fmt.Sprintf("op%d", k), "-p")
				}
				return args
			}
			texts := []string{}
			for _, x := range core.Strs([]string{"1", "9", "0", "-", "+", "x", " "}, 1, core.Pick(e, 4, 5)) {
				if v := strings.TrimLeft(x, "+-"); len(v) > 1 && v[0] == '0' {
					continue // a base prefix
				}
				texts = append(texts, x)
			}
			gen := func(name string, n int, mk func(i int) []string) core.Space {
				return core.Space{Name: name, N: n, Run: func(i int, t *core.T) { try(t, mk(i)) }, Show: func(i int) string { return fmt.Sprintf("%.300q", mk(i)) }}
			}
			// every byte, and every pair of special ones, in values and operands
			var bits []string
			for b := 0; b < 256; b++ {
				bits = append(bits, string([]byte{byte(b)}))
			}
			punct := " !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~\t\n\x00\xffé"
			for _, x := range punct {
				for _, y := range punct {
					bits = append(bits, string(x)+string(y))
				}
			}
			shapes := []func(b string) []string{
				func(b string) []string { return []string{"-p" + b, "op"} },
				func(b string) []string { return []string{"-p" + b + "x", "op"} },
				func(b string) []string { return []string{"-abpx" + b, "-a"} },
				func(b string) []string { return []string{"-p" + b + "x" + b, "op"} },
				func(b string) []string { return []string{"-p", b, "op"} },
				func(b string) []string { return []string{"-ap", b + "value", "-b", "op"} },
				func(b string) []string { return []string{"-p", "value" + b, "op"} },
				func(b string) []string { return []string{"-a", "--", b, b + "x", "x" + b} },
				func(b string) []string { return []string{"-a", "x", b, b + "x", "x" + b} },
				func(b string) []string { return []string{"-aé" + b} },
				func(b string) []string { return []string{"-ß" + b + "long value", "op", b} },
				func(b string) []string {
					if b[0] == '-' {
						return nil
					}
					return []string{"-a", b + "op", "-b"}
				},
				func(b string) []string {
					if strings.ContainsAny(b, "0_") {
						return nil
					}
					return []string{"-n", b + "5", "op"}
				},
				func(b string) []string {
					if strings.ContainsAny(b, "_") {
						return nil
					}
					return []string{"-an5" + b, "op"}
				},
			}
			return []core.Space{
				{Name: "values", N: len(bits) * len(shapes), Run: func(i int, t *core.T) {
					if args := shapes[i%len(shapes)](bits[i/len(shapes)]); args != nil {
						try(t, args)
					}
				}, Show: func(i int) string { return fmt.Sprintf("%q", shapes[i%len(shapes)](bits[i/len(shapes)])) }},
				{Name: "letters", N: len(runes) * 3 * 8, Run: func(i int, t *core.T) { letter(t, runes[i/24], i/8%3, i%8) },
					Show: func(i int) string { return fmt.Sprintf("letter %q of kind %d, order %d", runes[i/24], i/8%3, i%8) }},
				gen("long-lists", core.Prod(len(counts), len(alpha), len(alpha)), long),
				gen("long-bundles", core.Prod(len(counts), len(letters), 8, len(next)), bundle),
				gen("many-operands", core.Prod(len(counts), len(alpha)), many),
				gen("numbers", len(texts)*2, func(i int) []string {
					if i%2 == 0 {
						return []string{"-n", texts[i/2], "op"}
					}
					return []string{"-am" + texts[i/2], "op"}
				}),
				{Name: "os-args", N: core.SeqN(len(alpha), 0, 3),
					Run: func(i int, t *core.T) {
						var args []string
						for _, d := range core.Seq(i, len(alpha), 0, 3) {
							args = append(args, alpha[d])
						}
						tryArgs(t, args)
					},
					Show: func(i int) string { return fmt.Sprintf("os.Args, list %d", i) }},
				{Name: "lists", N: core.SeqN(len(alpha), 0, m),
					Run: func(i int, t *core.T) {
						args := []string{}
						for _, d := range core.Seq(i, len(alpha), 0, m) {
							args = append(args, alpha[d])
						}
						try(t, args)
					},
					Show: func(i int) string {
						args := []string{}
						for _, d := range core.Seq(i, len(alpha), 0, m) {
							args = append(args, alpha[d])
						}
						return fmt.Sprintf("%q", args)
					}},
				{Name: "bundles", N: len(chars) * len(next),
					Run: func(i int, t *core.T) {
						try(t, append([]string{chars[i/len(next)]}, next[i%len(next)]...))
					},
					Show: func(i int) string {
						return fmt.Sprintf("%q", append([]string{chars[i/len(next)]}, next[i%len(next)]...))
					}},
				{Name: "ints", N: len(ints) * len(forms) * 2,
					Run: func(i int, t *core.T) {
						v, f := ints[i/2%len(ints)], forms[i/2/len(ints)]
						if i%2 == 0 {
							try(t, []string{f, v, "op"})
						} else if v != "" {
							try(t, []string{f + v, "op"})
						}
					},
					Show: func(i int) string { return forms[i/2/len(ints)] + " " + ints[i/2%len(ints)] }},
			}
		},
	})
}
