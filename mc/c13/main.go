// C13: basic regular expressions against a position-set matcher.
package main

import (
	"fmt"
	"strings"
	"unicode"

	"verif/mc/core"

	"github.com/fwip/posix-utils/pkg/regexes"
)

type atom struct {
	text string
	has  func(r rune) bool
}

func lit(r rune) atom { return atom{string(r), func(x rune) bool { return x == r }} }
func set(s string) atom {
	return atom{"[" + s + "]", func(x rune) bool { return strings.ContainsRune(s, x) }}
}

var any_ = atom{".", func(rune) bool { return true }}

type rep struct {
	text     string
	min, max int
}

const inf = 1 << 30

var one = rep{"", 1, 1}

type elem struct {
	a atom
	r rep
}

type pattern struct {
	left, right bool
	el          []elem
}

func (p pattern) String() string {
	var b strings.Builder
	if p.left {
		b.WriteByte('^')
	}
	for _, e := range p.el {
		b.WriteString(e.a.text)
		b.WriteString(e.r.text)
	}
	if p.right {
		b.WriteByte('$')
	}
	return b.String()
}

// wellDefined tells whether the rendered text means this structure.
func (p pattern) wellDefined() bool {
	for i, e := range p.el {
		if e.a.text == "*" && i > 0 {
			return false // would be a repetition
		}
		if e.a.text == "^" && i == 0 && !p.left {
			return false // would be an anchor
		}
		if e.a.text == "$" && i == len(p.el)-1 && !p.right && e.r.text == "" {
			return false // would be an anchor
		}
	}
	return true
}

// match runs the set of positions through the elements.
func (p pattern) match(in []rune) bool {
	cur := make([]bool, len(in)+1)
	for i := range cur {
		cur[i] = i == 0 || !p.left
	}
	for _, e := range p.el {
		next := make([]bool, len(in)+1)
		for s, ok := range cur {
			if !ok {
				continue
			}
			for n := 0; ; n++ {
				if n >= e.r.min && n <= e.r.max {
					next[s+n] = true
				}
				if n >= e.r.max || s+n >= len(in) || !e.a.has(in[s+n]) {
					break
				}
			}
		}
		cur = next
	}
	for i, ok := range cur {
		if ok && (!p.right || i == len(in)) {
			return true
		}
	}
	return false
}

func space(name string, atoms []atom, reps []rep, maxEl int, inputs []string) core.Space {
	k := len(atoms) * len(reps)
	n := core.SeqN(k, 0, maxEl)
	runes := make([][]rune, len(inputs))
	for i, s := range inputs {
		runes[i] = []rune(s)
	}
	mk := func(i int) pattern {
		p := pattern{left: i%2 == 1, right: i/2%2 == 1}
		for _, d := range core.Seq(i/4, k, 0, maxEl) {
			p.el = append(p.el, elem{atoms[d%len(atoms)], reps[d/len(atoms)]})
		}
		return p
	}
	return core.Space{Name: name, N: n * 4,
		Show: func(i int) string { return fmt.Sprintf("pattern %q against %d inputs", mk(i).String(), len(inputs)) },
		Run: func(i int, t *core.T) {
			p := mk(i)
			if !p.wellDefined() {
				t.Outcome("pattern skipped (text means something else)")
				return
			}
			text := p.String()
			re, err := regexes.ParseBre(text)
			if err != nil {
				t.Failf("ParseBre(%q): %v", text, err)
				return
			}
			yes := 0
			for j, in := range inputs {
				got := re.Matches(in)
				want := p.match(runes[j])
				if got != want {
					t.Failf("pattern %q on %q: %v, want %v", text, in, got, want)
					return
				}
				if got {
					yes++
				}
			}
			// earlier matches must not matter
			for j := len(inputs) - 1; j >= 0 && j > len(inputs)-6; j-- {
				if re.Matches(inputs[j]) != p.match(runes[j]) {
					t.Failf("pattern %q on %q changes its answer when repeated", text, inputs[j])
					return
				}
			}
			t.Trans(len(inputs))
			t.Trace()
			t.State(text)
			switch yes {
			case 0:
				t.Outcome("matches nothing")
			case len(inputs):
				t.Outcome("matches everything")
			default:
				t.Outcome("matches some")
			}
		}}
}

// one: a pattern against some inputs.
func one_(t *core.T, p pattern, inputs []string) {
	text := p.String()
	re, err := regexes.ParseBre(text)
	if err != nil {
		t.Failf("ParseBre(%q): %v", text, err)
		return
	}
	for _, in := range inputs {
		if got, want := re.Matches(in), p.match([]rune(in)); got != want {
			t.Failf("pattern %.300q on %.300q: %v, want %v", text, in, got, want)
			return
		}
	}
	t.Trans(len(inputs))
	t.Trace()
	t.State(text)
}

// joined: patterns and inputs that are the same when joined by some text
func joined() core.Space {
	js := []string{"", "->", "=>", "::", "--", "||", "é", "\U0001f600"}
	for r := rune(0); r < 256; r++ {
		if !strings.ContainsRune(".*[]^$\\{}()\n", r) {
			js = append(js, string(r))
		}
	}
	return core.Space{Name: "joined", N: len(js), Show: func(i int) string { return fmt.Sprintf("joint %q", js[i]) }, Run: func(i int, t *core.T) {
		j := js[i]
		ins := []string{"x", j + "x", j + "y", "x" + j, "x" + j + "y", "y", j, "", j + j + "x", "y" + j + "x"}
		for _, text := range []string{"x", "x" + j, "x" + j + "y", "y", "y" + j + "x", "x" + j + j, j + "x"} {
			for k := 0; k < 4; k++ {
				p := pattern{left: k&1 > 0, right: k&2 > 0}
				for _, r := range text {
					p.el = append(p.el, elem{lit(r), one})
				}
				one_(t, p, ins)
			}
		}
	}}
}

// characters: every character as a literal and in a list, against itself and relatives.
func characters(e *core.Env) core.Space {
	var rs []rune
	for r := rune(0); r < rune(core.Pick(e, 0x500, 0x3000)); r++ {
		if !strings.ContainsRune("*.[]\\(){}^$-", r) {
			rs = append(rs, r)
		}
	}
	rs = append(rs, 0x1e9e, 0x2028, 0x20ac, 0x212a, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff)
	return core.Space{Name: "characters", N: len(rs), Show: func(i int) string { return fmt.Sprintf("character %q", rs[i]) },
		Run: func(i int, t *core.T) {
			r := rs[i]
			var ins []string
			for _, x := range []rune{r, r + 1, r - 1, r ^ 0x20, r ^ 0x80, r & 0xff, r & 0x7f, 'a', unicode.ToUpper(r), unicode.ToLower(r), unicode.SimpleFold(r)} {
				if x < 0 || x > 0x10ffff || x >= 0xd800 && x < 0xe000 {
					continue
				}
				ins = append(ins, string(x), "x"+string(x), string(x)+"x", string([]rune{x, x}))
			}
			ins = append(ins, "")
			for _, a := range []atom{lit(r), set(string([]rune{'z', r})), set(string(r)), any_} {
				for _, rp := range []rep{one, {"*", 0, inf}, {"{2}", 2, 2}} {
					for k := 0; k < 4; k++ {
						one_(t, pattern{k%2 == 1, k/2 == 1, []elem{{a, rp}}}, ins)
						one_(t, pattern{k%2 == 1, k/2 == 1, []elem{{a, rp}, {lit('x'), one}}}, ins)
					}
				}
			}
		}}
}

// optional: one element with a count among many that may match nothing
func optional(e *core.Env) core.Space {
	star := rep{"*", 0, inf}
	opts := [][]elem{
		{{lit('a'), star}},
		{{lit('a'), star}, {lit('b'), star}, {lit('x'), star}},
		{{any_, star}},
		{{set("ab"), rep{"{0,1}", 0, 1}}},
		{{lit('b'), rep{"{0,2}", 0, 2}}, {lit('a'), rep{"{0,}", 0, inf}}},
		{{lit('x'), rep{"{0}", 0, 0}}, {any_, rep{"{0,1}", 0, 1}}},
		{{lit('c'), star}},
	}
	var must []elem
	for _, a := range []atom{lit('c'), set("bc"), any_} {
		for m := 1; m <= 6; m++ {
			must = append(must, elem{a, rep{fmt.Sprintf("{%d}", m), m, m}}, elem{a, rep{fmt.Sprintf("{%d,}", m), m, inf}}, elem{a, rep{fmt.Sprintf("{%d,%d}", m, m+2), m, m + 2}})
		}
		must = append(must, elem{a, one})
	}
	max := core.Pick(e, 8, 10)
	var ins []string
	for j := 0; j < 10; j++ {
		for _, x := range []string{"", "a", "b", "x", "ab", "ba", "aab", "abab", "bbb"} {
			for _, y := range []string{"", "a", "b", "x", "ab", "abx"} {
				ins = append(ins, x+strings.Repeat("c", j)+y)
			}
		}
	}
	dims := []int{len(opts), len(must), max, max + 1, 4}
	mk := func(i int) (pattern, bool) {
		d := core.Radix(i, dims...)
		p := pattern{left: d[4]%2 == 1, right: d[4]/2 == 1}
		if d[3] > d[2]+1 {
			return p, false
		}
		for k := 0; k <= d[2]+1; k++ {
			if k == d[3] {
				p.el = append(p.el, must[d[1]])
			} else {
				p.el = append(p.el, opts[d[0]][k%len(opts[d[0]])])
			}
		}
		return p, p.wellDefined()
	}
	return core.Space{Name: "optional", N: core.Prod(dims...), Show: func(i int) string { p, _ := mk(i); return fmt.Sprintf("pattern %q", p.String()) },
		Run: func(i int, t *core.T) {
			p, ok := mk(i)
			if !ok {
				t.Outcome("pattern skipped")
				return
			}
			one_(t, p, ins)
		}}
}

// long patterns, long lists and long inputs
func long(e *core.Env) core.Space {
	ns := []int{5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1500, 5000}
	const kinds = 9
	return core.Space{Name: "long", N: len(ns) * kinds * 4, Show: func(i int) string {
		return fmt.Sprintf("%d elements, kind %d, anchors %d", ns[i/4/kinds], i/4%kinds, i%4)
	},
		Run: func(i int, t *core.T) {
			n := ns[i/4/kinds]
			if n > 1000 && i/4%kinds < 6 {
				return
			}
			p := pattern{left: i%2 == 1, right: i/2%2 == 1}
			a, b := strings.Repeat("a", n), strings.Repeat("b", n)
			var w []rune
			for k := 0; k < n; k++ {
				w = append(w, rune('a'+k%7))
			}
			word := string(w)
			ins := []string{"", a, b, word, a + "b", "b" + a, a[1:], a[1:] + "b", word[1:], word[:n-1], "a" + word, word + "a", a + b, b + a, word[:n-1] + "x", "x" + word[1:], word + word, a + a}
			switch i / 4 % kinds {
			case 0: // a word
				for _, r := range w {
					p.el = append(p.el, elem{lit(r), one})
				}
			case 1: // a list of many characters
				var l []rune
				for k := 0; k < n; k++ {
					l = append(l, rune(0x4e00+k))
				}
				p.el = []elem{{set(string(l)), one}, {lit('a'), one}}
				for _, k := range []int{0, 1, n / 2, n - 2, n - 1, n} {
					ins = append(ins, string(rune(0x4e00+k))+"a", string(rune(0x4e00+k)))
				}
			case 2: // wildcards
				for k := 0; k < n; k++ {
					p.el = append(p.el, elem{any_, one})
				}
			case 3: // an exact count
				p.el = []elem{{lit('a'), rep{fmt.Sprintf("{%d}", n), n, n}}}
			case 4:
				p.el = []elem{{set("ab"), rep{fmt.Sprintf("{%d,%d}", n-1, n+1), n - 1, n + 1}}, {lit('b'), one}}
			case 5:
				p.el = []elem{{lit('a'), rep{fmt.Sprintf("{%d,}", n), n, inf}}, {any_, rep{"*", 0, inf}}, {lit('b'), one}}
			}
			switch i / 4 % kinds {
			case 6:
				p.el = []elem{{lit('a'), rep{"*", 0, inf}}}
			case 7:
				p.el = []elem{{any_, rep{"*", 0, inf}}, {lit('b'), one}}
			case 8:
				p.el = []elem{{set("ab"), rep{"{1,}", 1, inf}}, {lit('a'), one}}
			}
			one_(t, p, ins)
		}}
}

// malformed tells whether a text holds an unclosed bracket or a bad repetition;
// open is set if its meaning is not judged here
func malformed(s string) (bad, open bool) {
	rs := []rune(strings.TrimSuffix(strings.TrimPrefix(s, "^"), "$"))
	find := func(from int, c rune) int {
		for i := from; i < len(rs); i++ {
			if rs[i] == c {
				return i
			}
		}
		return -1
	}
	for i := 0; i < len(rs); i++ {
		switch rs[i] {
		case '\\', '(', ')':
			return false, true
		case '[':
			if i+1 < len(rs) && (rs[i+1] == ']' || rs[i+1] == '^') {
				return false, true
			}
			j := find(i+1, ']')
			if j < 0 {
				return true, false
			}
			i = j
		case '{':
			return false, true // not behind an element
		}
		if i+1 < len(rs) && rs[i+1] == '*' {
			i++
		} else if i+1 < len(rs) && rs[i+1] == '{' {
			j := find(i+2, '}')
			if j < 0 {
				return true, false
			}
			m, n, two := strings.Cut(string(rs[i+2:j]), ",")
			if m == "" || strings.Trim(m, "0123456789") != "" || strings.Trim(n, "0123456789") != "" {
				return true, false
			}
			_ = two
			i = j
		} else {
			continue
		}
		if i+1 < len(rs) && (rs[i+1] == '*' || rs[i+1] == '{') {
			return false, true
		}
	}
	return false, false
}

func refusals(e *core.Env) core.Space {
	texts := core.Strs([]string{"a", "[", "]", "{", "}", "1", ",", "*", ".", "$", ""}, 0, core.Pick(e, 5, 6))
	for _, b := range []string{"{", "{}", "{ }", "{,}", "{,1}", "{1", "{1,", "{1,2", "{1 }", "{ 1}", "{1, 2}", "{1;2}", "{1,2,3}", "{-1}", "{+1}", "{1,-2}", "{a}", "{1a}", "{a1}", "{0x1}", "{1.0}", "{1,a}", "{1}a{", "{1}a{2,", "{1}a{x}", "{{1}", "{1e1}", "[", "[a", "[abc", "[a.*", "[[", "*[", "*a[b", "*b{", "{é}", "{1}[", "{1_0}"} {
		for _, p := range []string{"a", "ab", ".", "[ab]", "^a", "xyz", "a*b", "é", "a{2}b", "[a]b"} {
			for _, q := range []string{"", "a", "$", "b$", "bc"} {
				texts = append(texts, p+b+q)
			}
		}
	}
	return core.Space{Name: "refusals", N: len(texts), Show: func(i int) string { return fmt.Sprintf("pattern %q", texts[i]) }, Run: func(i int, t *core.T) {
		bad, open := malformed(texts[i])
		if open {
			t.Outcome("not judged")
			return
		}
		accepted := false
		func() {
			defer func() { recover() }()
			b, err := regexes.ParseBre(texts[i])
			accepted = err == nil && b != nil
		}()
		t.Trans(1)
		t.Trace()
		t.State(texts[i])
		t.Outcome(fmt.Sprint("accepted ", accepted))
		if accepted == bad {
			t.Failf("pattern %q: accepted=%v, want %v", texts[i], accepted, !bad)
		}
	}}
}

func main() {
	core.Main(core.Check{
		ID:          "C13",
		Bounds:      "all patterns of up to 3 (4) elements over literals, ., bracket lists and 8 repetitions, with and without each anchor, against all inputs of up to 6 (7) characters over a 2-3 letter alphabet; multi-byte, special and control characters; two-digit counts; all pairs of elements with 20 repetitions against inputs of up to 7; every character below U+0500 (U+3000) and 10 others; 28 patterns on 10 inputs made with each of 251 texts; patterns, lists and counts of up to 1000, inputs of up to 5000; one element of 57 among up to 9 (11) optional ones of 7 kinds, at every position, against 540 inputs; acceptance of all texts of up to 5 (6) symbols over 10 and of 1800 with bad repetitions and brackets",
		Assumptions: []string{"complemented brackets, ranges, backslashes and parentheses are outside the property", "patterns whose text would mean something else (a leading ^, a final $, a non-leading *) are skipped"},
		Spaces: func(e *core.Env) []core.Space {
			reps := []rep{one, {"*", 0, inf}, {"{2}", 2, 2}, {"{1,}", 1, inf}, {"{0,1}", 0, 1}, {"{1,2}", 1, 2}, {"{0}", 0, 0}, {"{2,3}", 2, 3}}
			few := []rep{one, {"*", 0, inf}, {"{2}", 2, 2}, {"{1,2}", 1, 2}}
			two := []rep{one, {"*", 0, inf}}
			ab := core.Strs([]string{"a", "b"}, 0, core.Pick(e, 6, 7))
			abc := core.Strs([]string{"a", "b", "c"}, 0, core.Pick(e, 4, 5))
			mb := core.Strs([]string{"a", "é", "平"}, 0, 4)
			sp := core.Strs([]string{"a", "^", "$", "*"}, 0, core.Pick(e, 4, 5))
			sp2 := core.Strs([]string{"a", ".", "\n", "+", "]", "}"}, 0, 3)
			var longs []string
			for n := 0; n <= 26; n++ {
				longs = append(longs, strings.Repeat("a", n), strings.Repeat("a", n)+"b", "b"+strings.Repeat("a", n), strings.Repeat("ab", n))
			}
			longs = append(longs, strings.Repeat("a", 150), strings.Repeat("b", 150)+"a")
			bigReps := []rep{one, {"*", 0, inf}, {"{9}", 9, 9}, {"{10}", 10, 10}, {"{11,}", 11, inf}, {"{9,12}", 9, 12}, {"{0,10}", 0, 10}, {"{12,20}", 12, 20}, {"{2,10}", 2, 10}}
			base := []atom{lit('a'), lit('b'), any_, set("ab")}
			out := []core.Space{
				space("base", base, reps, 3, ab),
				space("few-deep", []atom{lit('a'), lit('b'), any_}, few, 4, core.Strs([]string{"a", "b"}, 0, 6)),
				space("abc", []atom{lit('a'), set("bc"), any_, lit('c'), set("a"), set("cab")}, few, 3, abc),
				space("multibyte", []atom{lit('é'), lit('a'), set("é平"), any_, set("aé"), lit('平')}, few, 3, mb),
				space("special", []atom{lit('^'), lit('$'), lit('*'), lit('a'), any_, set("$*"), set("a^")}, few, 3, sp),
				space("special2", []atom{lit('+'), lit('?'), lit('|'), lit(']'), lit('}'), lit('\n'), any_, set(".*"), set("+["), lit('-'), lit('a')}, few, 2, sp2),
				space("counts", []atom{lit('a'), lit('b'), any_, set("ab")}, bigReps, 2, longs),
			}
			allReps := []rep{one, {"*", 0, inf}, {"{0}", 0, 0}, {"{1}", 1, 1}, {"{2}", 2, 2}, {"{3}", 3, 3}, {"{0,}", 0, inf}, {"{1,}", 1, inf}, {"{2,}", 2, inf}, {"{3,}", 3, inf}, {"{0,0}", 0, 0}, {"{0,1}", 0, 1}, {"{0,2}", 0, 2}, {"{0,3}", 0, 3}, {"{1,1}", 1, 1}, {"{1,2}", 1, 2}, {"{1,3}", 1, 3}, {"{2,2}", 2, 2}, {"{2,4}", 2, 4}, {"{3,5}", 3, 5}}
			out = append(out, space("repetitions", base, allReps, 2, core.Strs([]string{"a", "b"}, 0, 7)), characters(e), long(e), joined(), optional(e), refusals(e))
			if e.Thorough() {
				out = append(out, space("base-4", []atom{lit('a'), lit('b'), any_, set("ab")}, few, 4, core.Strs([]string{"a", "b"}, 0, 6)),
					space("plain-6", []atom{lit('a'), any_, set("b")}, two, 6, core.Strs([]string{"a", "b"}, 0, 6)))
			}
			return out
		},
	})
}
