// C12: tsort.
package main

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/fwip/posix-utils/pkg/tsort"
)

type pair [2]string

func words(ps []pair) []string {
	seen := map[string]bool{}
	var out []string
	for _, p := range ps {
		for _, w := range p {
			if !seen[w] {
				seen[w] = true
				out = append(out, w)
			}
		}
	}
	return out
}

// cyclic: repeatedly remove words without predecessors
func cyclic(ps []pair) bool {
	left := map[string]bool{}
	for _, w := range words(ps) {
		left[w] = true
	}
	for len(left) > 0 {
		has := map[string]bool{}
		for _, p := range ps {
			if p[0] != p[1] && left[p[0]] && left[p[1]] {
				has[p[1]] = true
			}
		}
		n := len(left)
		for w := range left {
			if !has[w] {
				delete(left, w)
			}
		}
		if len(left) == n {
			return true
		}
	}
	return false
}

// cyclicBig does the same for large inputs
func cyclicBig(ps []pair) bool {
	in := map[string]int{}
	succ := map[string][]string{}
	seen := map[pair]bool{}
	for _, p := range ps {
		for _, w := range p {
			if _, ok := in[w]; !ok {
				in[w] = 0
			}
		}
		if p[0] != p[1] && !seen[p] {
			seen[p] = true
			in[p[1]]++
			succ[p[0]] = append(succ[p[0]], p[1])
		}
	}
	var q []string
	for w, n := range in {
		if n == 0 {
			q = append(q, w)
		}
	}
	done := 0
	for len(q) > 0 {
		w := q[len(q)-1]
		q = q[:len(q)-1]
		done++
		for _, s := range succ[w] {
			if in[s]--; in[s] == 0 {
				q = append(q, s)
			}
		}
	}
	return done < len(in)
}

func valid(ps []pair, out []string) string {
	at := map[string]int{}
	for i, w := range out {
		if _, ok := at[w]; ok {
			return fmt.Sprintf("%.80q printed twice", w)
		}
		at[w] = i
	}
	ws := words(ps)
	for _, w := range ws {
		if _, ok := at[w]; !ok {
			return fmt.Sprintf("%.80q not printed", w)
		}
	}
	if len(out) != len(ws) {
		return fmt.Sprintf("%d words printed for %d", len(out), len(ws))
	}
	for _, p := range ps {
		if p[0] != p[1] && at[p[0]] > at[p[1]] {
			return fmt.Sprintf("%.80q printed after %.80q", p[0], p[1])
		}
	}
	return ""
}

func order(ps []pair) ([]string, error) {
	var s tsort.Sorter
	for _, p := range ps {
		if p[0] == p[1] {
			s.Add([]string{p[0]})
		} else {
			s.Add([]string{p[0], p[1]})
		}
	}
	return s.Order()
}

func judge(t *core.T, ps []pair, cyc bool, out []string, err error, how string) {
	if cyc != (err != nil) {
		t.Failf("%v%s: cycle %v, but got %q, error %v", ps, how, cyc, out, err)
		return
	}
	if cyc {
		if len(out) > 0 {
			t.Failf("%v%s: ordering %q given for a cycle", ps, how, out)
		}
		t.Outcome("cycle")
		return
	}
	if msg := valid(ps, out); msg != "" {
		t.Failf("%v%s: got %q: %s", ps, how, out, msg)
	}
	t.Outcome("ordered")
}

func lib(t *core.T, ps []pair) {
	out, err := order(ps)
	t.Trans(len(ps) + 1)
	t.Trace()
	t.State(fmt.Sprint(out, err != nil))
	judge(t, ps, cyclic(ps), out, err, "")
}

// perms of n elements, identity first
var permCache = map[int][][]int{}

func perms(n int) [][]int {
	if p, ok := permCache[n]; ok {
		return p
	}
	var out [][]int
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	permCache[n] = out
	return out
}

// orders runs ps under every choice of iteration orders in which at most
// bound iterations deviate from the default (increasing or decreasing) order.
func orders(t *core.T, ps []pair, bound int) {
	cyc := cyclic(ps)
	for def := 0; def < 2; def++ {
		type dev struct{ at, perm int }
		var rec func(devs []dev)
		rec = func(devs []dev) {
			var sizes []int
			setPerm(func(n int) []int {
				i := len(sizes)
				sizes = append(sizes, n)
				p := perms(n)
				for _, d := range devs {
					if d.at == i {
						return p[d.perm]
					}
				}
				if def == 0 {
					return p[0]
				}
				return p[len(p)-1]
			})
			out, err := order(ps)
			setPerm(nil)
			t.Trans(len(sizes))
			t.Trace()
			judge(t, ps, cyc, out, err, fmt.Sprintf(" default %d deviations %v", def, devs))
			if t.Failed() || len(devs) == bound {
				return
			}
			from := 0
			if len(devs) > 0 {
				from = devs[len(devs)-1].at + 1
			}
			n := sizes
			for at := from; at < len(n); at++ {
				f := len(perms(n[at]))
				for k := 0; k < f; k++ {
					if def == 0 && k == 0 || def == 1 && k == f-1 {
						continue
					}
					rec(append(append([]dev{}, devs...), dev{at, k}))
					if t.Failed() {
						return
					}
				}
			}
		}
		rec(nil)
		if t.Failed() || !instrumented {
			return
		}
	}
}

var names = []string{"a", "b", "c", "d", "e", "f"}

func relation(k, bits int) []pair {
	var ps []pair
	for i := 0; i < k; i++ {
		for j := 0; j < k; j++ {
			if i == j {
				continue
			}
			if bits&1 == 1 {
				ps = append(ps, pair{names[i], names[j]})
			}
			bits >>= 1
		}
	}
	return ps
}

func rev(ps []pair) []pair {
	out := make([]pair, len(ps))
	for i, p := range ps {
		out[len(ps)-1-i] = p
	}
	return out
}

// black box -------------------------------------------------------------

type input struct {
	name string
	text string
	odd  bool
	ps   []pair
}

func (in input) show() string {
	if len(in.text) < 200 {
		return fmt.Sprintf("%s: %q", in.name, in.text)
	}
	return fmt.Sprintf("%s: %d bytes", in.name, len(in.text))
}

func box(t *core.T, in input, how int) {
	x := core.Ex{Bin: t.Env.Bin("tsort")}
	switch how {
	case 0:
		x.Stdin = in.text
	case 1:
		x.Args = []string{t.Env.Write("in $x ~", in.text)}
	case 2:
		x.Args, x.Stdin = []string{"-"}, in.text
	}
	boxed(t, in, t.Env.Exec(x), how)
}

func boxed(t *core.T, in input, r core.Result, how int) {
	t.Trans(1)
	t.Trace()
	cyc := !in.odd && cyclicBig(in.ps)
	if in.odd || cyc {
		t.Outcome("refused")
		if r.Hung || r.Crashed() || r.Code == 0 || r.Out != "" || r.Err == "" {
			t.Failf("%s (way %d): %v, want a diagnostic, no output and a non-zero status", in.show(), how, r)
		}
		return
	}
	t.Outcome("ordered")
	if r.Hung || r.Code != 0 {
		t.Failf("%s (way %d): %v, want status 0", in.show(), how, r)
		return
	}
	var out []string
	if r.Out != "" {
		if !strings.HasSuffix(r.Out, "\n") {
			t.Failf("%s (way %d): output does not end with a newline: %v", in.show(), how, r)
			return
		}
		out = strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n")
	}
	if msg := valid(in.ps, out); msg != "" {
		t.Failf("%s (way %d): %s: %v", in.show(), how, msg, r)
	}
	t.State(r.Out)
}

func mk(name string, seps []string, ws []string) input {
	var b strings.Builder
	b.WriteString(seps[0])
	for i, w := range ws {
		b.WriteString(w)
		b.WriteString(seps[1+i%(len(seps)-1)])
	}
	in := input{name: name, text: b.String(), odd: len(ws)%2 == 1}
	for i := 0; i+1 < len(ws); i += 2 {
		in.ps = append(in.ps, pair{ws[i], ws[i+1]})
	}
	return in
}

func special(e *core.Env) []input {
	sp, nl := []string{"", " ", "\n"}, []string{"", "\n"}
	var out []input
	add := func(name string, ws ...string) {
		out = append(out, mk(name, sp, ws), mk(name+" (lines)", nl, ws), mk(name+" (blanks)", []string{"\n \t\n", "  ", "\t\n\n", "   \n"}, ws))
	}
	L := func(n int, c string) string { return strings.Repeat(c, n) }
	for _, n := range []int{4095, 4096, 4097, 65535, 65536, 65537, 200000} {
		add(fmt.Sprintf("word of %d", n), L(n, "x"), "b", "b", "c")
		add(fmt.Sprintf("second word of %d", n), "a", L(n, "y"))
		add(fmt.Sprintf("words of %d differing at the end", n), L(n, "x")+"1", L(n, "x")+"2", L(n, "x")+"2", L(n, "x")+"3")
		add(fmt.Sprintf("odd with a word of %d", n), "a", "b", L(n, "z"))
	}
	for _, w := range []string{"\x00", "\xff", "é", "%s", "%d%", "-", "--", "a\x00b", "\x1b[0m", "日本", "'", "\"", "\\n", "0", "-1"} {
		add("odd word "+w, w, "b", "b", "c")
		add("odd word last "+w, "b", w, "a", "b")
		add("cycle through "+w, w, "b", "b", w)
		add("alone "+w, w, w)
		add("odd count "+w, w)
	}
	chain := func(n, step int) []string {
		var ws []string
		for i := 0; i < n; i++ {
			j := (i*step + 1) % n
			if j+1 < n {
				ws = append(ws, fmt.Sprintf("w%d", j), fmt.Sprintf("w%d", j+1))
			}
		}
		return ws
	}
	for _, n := range []int{9, 17, 100, 257, 1000, 2600} {
		add(fmt.Sprintf("chain of %d", n), chain(n, 1)...)
		add(fmt.Sprintf("chain of %d, scattered", n), chain(n, 7)...)
		c := chain(n, 7)
		add(fmt.Sprintf("cycle of %d", n), append(append([]string{}, c...), fmt.Sprintf("w%d", n-1), "w0")...)
		add(fmt.Sprintf("chain of %d with a cycle of 2 apart", n), append(append([]string{}, c...), "p", "q", "q", "p")...)
		add(fmt.Sprintf("chain of %d ending in a cycle", n), append(append([]string{}, c...), fmt.Sprintf("w%d", n-1), "p", "p", "q", "q", "p")...)
		var star, rstar, alone []string
		for i := 0; i < n; i++ {
			star = append(star, "hub", fmt.Sprintf("s%d", i))
			rstar = append(rstar, fmt.Sprintf("s%d", i), "hub")
			alone = append(alone, fmt.Sprintf("s%d", i), fmt.Sprintf("s%d", i))
		}
		add(fmt.Sprintf("star of %d", n), star...)
		add(fmt.Sprintf("inverse star of %d", n), rstar...)
		var dstar, drstar []string
		for i := len(star) - 2; i >= 0; i -= 2 {
			dstar = append(dstar, star[i], star[i+1])
			drstar = append(drstar, rstar[i], rstar[i+1])
		}
		add(fmt.Sprintf("star of %d, backwards", n), dstar...)
		add(fmt.Sprintf("inverse star of %d, backwards", n), drstar...)
		add(fmt.Sprintf("%d words alone", n), alone...)
		add(fmt.Sprintf("star of %d repeated", n), append(append([]string{}, star...), star...)...)
		add(fmt.Sprintf("both stars of %d", n), append(append([]string{}, star...), rstar...)...)
		add(fmt.Sprintf("%d words alone, then a chain", n), append(append([]string{}, alone...), chain(n, 3)...)...)
	}
	// complete orders and layers, and the same with one pair turned round
	for _, n := range []int{6, 7, 8, 9, 16, 17, 33} {
		var full []string
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				full = append(full, fmt.Sprintf("k%d", i*5%n), fmt.Sprintf("k%d", j*5%n))
			}
		}
		if n%5 == 0 {
			continue
		}
		var back []string
		for i := len(full) - 2; i >= 0; i -= 2 {
			back = append(back, full[i], full[i+1])
		}
		add(fmt.Sprintf("complete order of %d", n), full...)
		add(fmt.Sprintf("complete order of %d, backwards", n), back...)
		add(fmt.Sprintf("complete order of %d with a cycle", n), append(append([]string{}, full...), fmt.Sprintf("k%d", (n-1)*5%n), fmt.Sprintf("k%d", (n-2)*5%n))...)
		var layers []string
		for i := 0; i < n; i++ {
			for a := 0; a < 3; a++ {
				for b := 0; b < 3; b++ {
					layers = append(layers, fmt.Sprintf("m%d.%d", i, a), fmt.Sprintf("m%d.%d", i+1, b))
				}
			}
		}
		add(fmt.Sprintf("%d layers", n), layers...)
		add(fmt.Sprintf("%d layers with a cycle", n), append(append([]string{}, layers...), fmt.Sprintf("m%d.1", n), "m0.2")...)
	}
	// cycles of every length, with and without a way in and a way out
	for n := 2; n <= 40; n++ {
		var c []string
		for i := 0; i < n; i++ {
			c = append(c, fmt.Sprintf("c%d", i), fmt.Sprintf("c%d", (i+1)%n))
		}
		add(fmt.Sprintf("cycle of %d", n), c...)
		add(fmt.Sprintf("cycle of %d with a way in", n), append([]string{"in", "c0", "a", "in"}, c...)...)
		add(fmt.Sprintf("cycle of %d with a way out", n), append(append([]string{}, c...), "c1", "out", "out", "z")...)
		add(fmt.Sprintf("chain of %d and its parts repeated", n), append(append([]string{}, c[:len(c)-2]...), c[:n/2*2]...)...)
		add(fmt.Sprintf("chain of %d with each word alone", n), append(append([]string{}, c[:len(c)-2]...), "c0", "c0", "c1", "c1", "x", "x")...)
	}
	add("word of a megabyte", L(1<<20, "x"), "b", "b", L(1<<20+1, "x"))
	add("word of five megabytes", "a", L(5<<20, "y"))
	// every byte in a word
	for c := 0; c < 256; c++ {
		if c == ' ' || c >= '\t' && c <= '\r' || c == 0x85 || c == 0xa0 {
			continue
		}
		w := string([]byte{byte(c)})
		out = append(out, mk(fmt.Sprintf("byte %d", c), sp, []string{w + "1", "2" + w, "2" + w, "x" + w + "y", "x" + w + "y", w + w, "x", "x" + w, "xy", "x" + w + "y"}))
	}
	for _, c := range core.Collisions {
		if strings.ContainsAny(c[0]+c[1], " \t\n\v\f\r") || len(strings.Fields(c[0])) != 1 || len(strings.Fields(c[1])) != 1 {
			continue
		}
		add("words with equal checksums", c[0], c[1], c[1], "z", "a", c[0])
		add("words with equal checksums", c[1], c[0], "a", c[1], c[0], "z")
		add("words with equal checksums", c[0], "a", "a", c[1])
		add("words with equal checksums", c[0], "a", "a", c[1], c[1], c[0])
	}
	// words that are parts of each other, differ in case or by one byte
	add("related words", "a", "aa", "aa", "aaa", "aaa", "A", "A", "Aa", "Aa", "aA", "a", "a.", "a.", ".a", "é", "è", "e", "é", "1", "01", "01", "10", "10", "1.0")
	out = append(out, input{name: "empty"}, input{name: "blanks only", text: " \n\t\n"}, input{name: "no final newline", text: "a b b c", ps: []pair{{"a", "b"}, {"b", "c"}}},
		input{name: "odd, no final newline", text: "a b c", odd: true, ps: nil}, input{name: "carriage returns", text: "a b\r\nb c\r\n", ps: []pair{{"a", "b"}, {"b", "c"}}})
	return out
}

func main() {
	core.Main(core.Check{
		ID:          "C12",
		Bounds:      "all sequences of up to 4 (5) pairs over 4 words incl. equal pairs; all relations on 5 words in two orders; all acyclic relations on 6 words in three labellings, with and without a closing pair; all pairs of lists of 1..4 words and lists of up to 1000; words that each of 266 texts joins alike, all lists of 2 and 3 pairs over 50 pairs of look-alikes; for all relations on 3 words every choice of up to 6, on 4 words up to 2 (3), map iterations deviating from the default order; command: all sequences of up to 7 (8) words over 3, long words, large graphs, odd separators, words up to 5 MB, inputs of 13 (40) MB and with every byte, three ways of input, 10 kinds of files",
		Assumptions: []string{"words are separated by ASCII white space and contain no other Unicode space", "map iteration orders are controlled by rewriting range statements in pkg/tsort at build time (go build -overlay); if the rewrite does not apply, the runtime's own orders are used"},
		Setup: func(e *core.Env) error {
			if !instrumented {
				fmt.Println("note: map iteration is not instrumented on this tree")
			}
			return core.BuildCmd(e, "tsort")
		},
		Spaces: func(e *core.Env) []core.Space {
			var kinds []pair
			for i := 0; i < 4; i++ {
				for j := 0; j < 4; j++ {
					kinds = append(kinds, pair{names[i], names[j]})
				}
			}
			sp := special(e)
			m := core.Pick(e, 4, 5)
			// a case is a prefix of 2 pairs (or less); it explores all continuations
			seqs := func(i int) []pair {
				var ps []pair
				for _, d := range core.Seq(i, len(kinds), 0, m) {
					ps = append(ps, kinds[d])
				}
				return ps
			}
			bw := []string{"a", "b", "c"}
			bm := core.Pick(e, 7, 8)
			boxes := func(i int) input {
				var ws []string
				for _, d := range core.Seq(i, len(bw), 0, bm) {
					ws = append(ws, bw[d])
				}
				return mk("words", []string{"", " ", "\n"}, ws)
			}
			tri := func(i int) []pair {
				var ps []pair
				lab := [][]int{{0, 1, 2, 3, 4, 5}, {5, 4, 3, 2, 1, 0}, {3, 0, 5, 1, 4, 2}}[i%3]
				bits := i / 3
				for a := 0; a < 6; a++ {
					for b := a + 1; b < 6; b++ {
						if bits&1 == 1 {
							ps = append(ps, pair{names[lab[a]], names[lab[b]]})
						}
						bits >>= 1
					}
				}
				return ps
			}
			s := []core.Space{
				{Name: "orders6", N: 3 << 15, Run: func(i int, t *core.T) {
					ps := tri(i)
					lib(t, ps)
					lib(t, append(rev(ps), pair{"f", "f"}, pair{"a", "a"}))
					if len(ps) > 0 {
						// close the longest way round
						lib(t, append(append([]pair{}, ps...), pair{ps[len(ps)-1][1], ps[0][0]}))
					}
				}, Show: func(i int) string { return fmt.Sprint(tri(i)) }},
				{Name: "sequences", N: core.SeqN(len(kinds), 0, m), Run: func(i int, t *core.T) { lib(t, seqs(i)) }, Show: func(i int) string { return fmt.Sprint(seqs(i)) }},
				{Name: "relations5", N: 1 << 20, Run: func(i int, t *core.T) {
					ps := relation(5, i)
					lib(t, ps)
					lib(t, rev(ps))
				}, Show: func(i int) string { return fmt.Sprint(relation(5, i)) }},
				{Name: "iteration3", N: 1 << 6, Run: func(i int, t *core.T) { orders(t, relation(3, i), 6) }, Show: func(i int) string { return fmt.Sprint(relation(3, i)) }},
				{Name: "iteration4", N: 1 << 12, Run: func(i int, t *core.T) { orders(t, relation(4, i), core.Pick(e, 2, 3)) }, Show: func(i int) string { return fmt.Sprint(relation(4, i)) }},
				{Name: "command", N: core.SeqN(len(bw), 0, bm), Run: func(i int, t *core.T) { box(t, boxes(i), 0) }, Show: func(i int) string { return boxes(i).show() }},
				{Name: "special", N: len(sp) * 3, Run: func(i int, t *core.T) { box(t, sp[i/3], i%3) }, Show: func(i int) string { return sp[i/3].show() }},
			}
			hg := func(i int) input {
				in := mk("huge", []string{"", " ", "\n"}, []string{"b", "c", "a", "b"})
				in.text = strings.Repeat(in.text, core.Pick(e, 13<<20, 40<<20)/len(in.text))
				switch i {
				case 0:
					in.text, in.ps = in.text+"c d\n", append(in.ps, pair{"c", "d"})
				case 1:
					in.text, in.ps = in.text+"c a\n", append(in.ps, pair{"c", "a"})
				case 2:
					in.text, in.odd = in.text+"c", true
				case 3:
					in.text, in.ps = in.text+"0 a\n", append(in.ps, pair{"0", "a"})
				}
				return in
			}
			s = append(s, core.Space{Name: "huge", N: 8, Run: func(i int, t *core.T) { box(t, hg(i/2), i%2) }, Show: func(i int) string { return fmt.Sprintf("many megabytes, end %d", i/2) }})
			ki := []input{mk("chain", []string{"", " ", "\n"}, []string{"b", "c", "a", "b"}), mk("cycle", []string{"", "\n"}, []string{"b", "c", "c", "b"}),
				mk("odd", []string{"", "\n"}, []string{"b", "c", "c"}), {name: "empty"}, mk("large", []string{"", " ", "\n"}, strings.Fields(strings.Repeat("n1 n2 n0 n1 ", 2000)))}
			// lists of more than two words in the library
			var wl [][]string
			for k := 0; k < core.SeqN(4, 1, 4); k++ {
				var l []string
				ok := true
				for j, d := range core.Seq(k, 4, 1, 4) {
					l = append(l, names[d])
					ok = ok && (j == 0 || l[j-1] != l[j])
				}
				if ok {
					wl = append(wl, l)
				}
			}
			longer := []int{5, 6, 9, 10, 17, 33, 100, 1000}
			lists := func(i int) [][]string {
				if i < len(wl)*len(wl) {
					return [][]string{wl[i/len(wl)], wl[i%len(wl)]}
				}
				i -= len(wl) * len(wl)
				var l []string
				for k := 0; k < longer[i%len(longer)]; k++ {
					l = append(l, fmt.Sprintf("w%d", k))
				}
				switch i / len(longer) {
				case 1:
					l = append(l, "w0")
				case 2:
					return [][]string{{l[len(l)-1], "y", "z"}, l}
				case 3:
					return [][]string{l, {l[len(l)-1], "y", l[0]}}
				}
				return [][]string{l}
			}
			s = append(s, core.Space{Name: "lists", N: len(wl)*len(wl) + 4*len(longer),
				Show: func(i int) string { return fmt.Sprintf("%.300q", fmt.Sprint(lists(i))) },
				Run: func(i int, t *core.T) {
					var so tsort.Sorter
					var ps []pair
					for _, l := range lists(i) {
						so.Add(append([]string{}, l...))
						if len(l) == 1 {
							ps = append(ps, pair{l[0], l[0]})
						}
						for k := 0; k+1 < len(l); k++ {
							ps = append(ps, pair{l[k], l[k+1]})
						}
					}
					out, err := so.Order()
					t.Trans(1)
					t.Trace()
					judge(t, ps, cyclicBig(ps), out, err, " (lists)")
				}})
			// words that a careless comparison or joining confuses
			var seps []string
			for _, j := range core.Joints() {
				if j != "" {
					seps = append(seps, j)
				}
			}
			var alike [][2]string
			for i := 0; i < core.Near(); i++ {
				a, b := core.NearPair(i, "q")
				if a != "" && b != "" {
					alike = append(alike, [2]string{a, b})
				}
			}
			alike = append(alike, core.Collisions...)
			both := func(t *core.T, ps []pair, run bool) {
				lib(t, ps)
				var ws []string
				for _, p := range ps {
					ws = append(ws, p[0], p[1])
				}
				if run && strings.IndexFunc(strings.Join(ws, ""), unicode.IsSpace) < 0 && utf8.ValidString(strings.Join(ws, "")) {
					box(t, mk("look-alikes", []string{"", " ", "\n"}, ws), 0)
				}
			}
			s = append(s, core.Space{Name: "joined", N: len(seps), Show: func(i int) string { return fmt.Sprintf("words with %q", seps[i]) }, Run: func(i int, t *core.T) {
				k := seps[i]
				a, b := pair{"x" + k, "y"}, pair{"x", k + "y"}
				c, d := pair{k + "y", "x"}, pair{"y", "x" + k}
				for _, ps := range [][]pair{{a, b}, {b, a}, {a, b, a, b}, {a, b, c}, {b, a, d}, {a, c, b}, {a, {"x" + k + "y", "x" + k + k + "y"}, b}} {
					both(t, ps, true)
				}
			}})
			ad := []int{len(alike), 6, 6, 7}
			s = append(s, core.Space{Name: "alike", N: core.Prod(ad...), Show: func(i int) string { return fmt.Sprintf("%.200q", fmt.Sprint(alike[core.Radix(i, ad...)[0]])) }, Run: func(i int, t *core.T) {
				d := core.Radix(i, ad...)
				u, v := alike[d[0]][0], alike[d[0]][1]
				ps := []pair{{u, v}, {v, u}, {u, "m"}, {"m", u}, {v, "m"}, {"m", v}}
				l := []pair{ps[d[1]], ps[d[2]]}
				if d[3] < 6 {
					l = append(l, ps[d[3]])
				}
				both(t, l, d[3] == 6)
			}})
			s = append(s, core.Space{Name: "kinds-of-files", N: core.PlaceKinds * len(ki),
				Show: func(i int) string { return core.PlaceName(i/len(ki)) + ": " + ki[i%len(ki)].show() },
				Run: func(i int, t *core.T) {
					in := ki[i%len(ki)]
					f, c := t.Env.Place(i/len(ki), "placed1", in.text)
					if c != in.text {
						in = mk("file of /proc", []string{"", " "}, strings.Fields(c))
					}
					boxed(t, in, t.Env.ExecPlaced(core.Ex{Bin: t.Env.Bin("tsort"), Args: []string{f}}, core.PlacePipe(i/len(ki)), c), 1)
				}})
			return s
		},
	})
}
