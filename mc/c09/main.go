// C09: the diff script, applied, turns one sequence into the other.
package main

import (
	"fmt"
	"strings"

	"verif/mc/core"

	"github.com/fwip/posix-utils/pkg/diff"
)

func check(t *core.T, old, new []string) {
	o, n := append([]string{}, old...), append([]string{}, new...)
	s := diff.Format(diff.Diff(old, new))
	t.Trans(1)
	t.Trace()
	if err := core.CheckDiff(s, o, n); err != nil {
		t.Failf("diff of %q and %q: %v", clip(o), clip(n), err)
		return
	}
	t.State(s)
	h := ""
	for _, l := range strings.Split(s, "\n") {
		if l != "" && l[0] >= '0' && l[0] <= '9' {
			h += string(l[strings.IndexAny(l, "acd")])
		}
	}
	if len(h) > 6 {
		h = fmt.Sprintf("%d hunks", len(h))
	}
	t.Outcome("hunks " + h)
}

func clip(s []string) []string {
	if len(s) > 40 {
		return append(append([]string{}, s[:20]...), "...")
	}
	return s
}

// pairs: all pairs of sequences over the alphabet up to length max; prefix lines are common
func pairs(name string, alpha []string, max int, pre, post int) core.Space {
	n := core.SeqN(len(alpha), 0, max)
	mk := func(i int) []string {
		var out []string
		for k := 0; k < pre; k++ {
			out = append(out, fmt.Sprintf("p%d", k))
		}
		for _, d := range core.Seq(i, len(alpha), 0, max) {
			out = append(out, alpha[d])
		}
		for k := 0; k < post; k++ {
			out = append(out, fmt.Sprintf("q%d", k))
		}
		return out
	}
	return core.Space{Name: name, N: n,
		Run: func(i int, t *core.T) {
			a := mk(i)
			for j := 0; j < n && !t.Failed(); j++ {
				check(t, a, mk(j))
			}
		},
		Show: func(i int) string {
			return fmt.Sprintf("%q against all %d sequences of up to %d lines from %q (after %d and before %d common lines)", mk(i), n, max, alpha, pre, post)
		}}
}

// edits: a long file against every version of it with up to two edits of the given shapes
func edits(e *core.Env) core.Space {
	sizes := core.Pick(e, []int{9, 10, 11, 12, 99, 100, 101}, []int{8, 9, 10, 11, 12, 13, 98, 99, 100, 101, 102, 999, 1000, 1001})
	kinds := 7 // delete 1, delete 2, add 1, add 2, change 1, change 2->1, change 1->2
	apply := func(f []string, pos, kind, tag int) []string {
		del := []int{1, 2, 0, 0, 1, 2, 1}[kind]
		add := []int{0, 0, 1, 2, 1, 1, 2}[kind]
		if pos > len(f) {
			pos = len(f)
		}
		if pos+del > len(f) {
			del = len(f) - pos
		}
		out := append([]string{}, f[:pos]...)
		for k := 0; k < add; k++ {
			out = append(out, fmt.Sprintf("new%d", tag+k))
		}
		return append(out, f[pos+del:]...)
	}
	posOf := func(p, n int) int {
		ps := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, n - 1, n, n - 2, n / 2}
		return ps[p]
	}
	const np = 17
	dims := []int{len(sizes), 3, np, kinds, np, kinds}
	return core.Space{Name: "edits", N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			n := sizes[d[0]]
			f := make([]string, n)
			for k := range f {
				switch d[1] {
				case 0:
					f[k] = fmt.Sprintf("line %d", k)
				case 1:
					f[k] = fmt.Sprintf("line %d", k%3)
				default:
					f[k] = ""
				}
			}
			p1, p2 := posOf(d[2], n), posOf(d[4], n)
			if p1 < 0 || p2 < 0 {
				return
			}
			g := apply(f, p1, d[3], 0)
			h := apply(g, p2, d[5], 7)
			check(t, f, h)
			check(t, h, f)
			check(t, g, h)
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("file of %d lines (kind %d), edit %d at %d, edit %d at %d", sizes[d[0]], d[1], d[3], posOf(d[2], sizes[d[0]]), d[5], posOf(d[4], sizes[d[0]]))
		}}
}

// blocks: some lines at some place replaced by others, for all combinations of sizes
func blocks(e *core.Env) core.Space {
	ns := core.Pick(e, []int{0, 1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 15, 16, 17, 33, 65, 99, 100, 101, 257}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 65, 98, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001})
	pos := []int{0, 1, 7, 8, 9, 10, 89, 98, 99, 100}
	post := []int{0, 1, 2, 10}
	dims := []int{len(ns), len(ns), len(pos), len(post), 4}
	return core.Space{Name: "blocks", N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			var old, new []string
			both := func(n int, tag string) {
				for k := 0; k < n; k++ {
					l := fmt.Sprintf("%s%d", tag, k)
					old, new = append(old, l), append(new, l)
				}
			}
			both(pos[d[2]], "p")
			for k := 0; k < ns[d[0]]; k++ {
				l := fmt.Sprintf("old%d", k)
				if d[4] == 1 {
					l = "x"
				} else if d[4] == 2 {
					l = fmt.Sprintf("p%d", k) // the lines before once more
				}
				old = append(old, l)
			}
			for k := 0; k < ns[d[1]]; k++ {
				l := fmt.Sprintf("new%d", k)
				if d[4] == 1 {
					l = "y"
				} else if d[4] == 2 {
					l = fmt.Sprintf("q%d", k) // the lines after once more
				} else if d[4] == 3 && k%4 == 3 {
					l = fmt.Sprintf("old%d", k)
				}
				new = append(new, l)
			}
			both(post[d[3]], "q")
			check(t, old, new)
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("%d lines replaced by %d behind %d and before %d common lines, kind %d", ns[d[0]], ns[d[1]], pos[d[2]], post[d[3]], d[4])
		}}
}

// lines with equal checksums
func collisions() core.Space {
	n := core.SeqN(3, 0, 3)
	mk := func(c, i int) (out []string) {
		for _, d := range core.Seq(i, 3, 0, 3) {
			out = append(out, []string{core.Collisions[c][0], core.Collisions[c][1], "k"}[d])
		}
		return out
	}
	return core.Space{Name: "collisions", N: len(core.Collisions) * n * n,
		Run:  func(i int, t *core.T) { check(t, mk(i/n/n, i/n%n), mk(i/n/n, i%n)) },
		Show: func(i int) string { return fmt.Sprintf("%q against %q", mk(i/n/n, i/n%n), mk(i/n/n, i%n)) }}
}

// lines that are the same when joined by some text
func joined() core.Space {
	js := core.Joints()
	n := core.SeqN(6, 0, 2)
	mk := func(j string, i int) (out []string) {
		al := []string{"x", "y", "x" + j + "y", "x" + j, j + "y", j}
		for _, d := range core.Seq(i, len(al), 0, 2) {
			out = append(out, al[d])
		}
		return out
	}
	return core.Space{Name: "joined", N: len(js) * n * n,
		Run:  func(i int, t *core.T) { j := js[i/n/n]; check(t, mk(j, i/n%n), mk(j, i%n)) },
		Show: func(i int) string { j := js[i/n/n]; return fmt.Sprintf("%q against %q", mk(j, i/n%n), mk(j, i%n)) }}
}

// files of several lines which differ at one or two places by as little as possible
func near(e *core.Env) core.Space {
	sizes := core.Pick(e, []int{1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100, 101, 257}, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1025})
	dims := []int{len(sizes), core.Near(), 3}
	return core.Space{Name: "near", N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			n := sizes[d[0]]
			var one []string
			alt := make([]string, n)
			for k := 0; k < n; k++ {
				tag := fmt.Sprint(k)
				if d[2] == 1 {
					tag = ""
				}
				l, v := core.NearPair(d[1], tag)
				if d[2] == 2 && k%2 == 0 {
					l = fmt.Sprintf("other %d", k)
				}
				one, alt[k] = append(one, l), v
			}
			places := []int{}
			for k := 0; k < n; k++ {
				if n <= 20 || k < 4 || k > n-4 || k == n/2 || k == n/3 {
					places = append(places, k)
				}
			}
			for _, p := range places {
				for _, q := range places {
					if q < p {
						continue
					}
					two := append([]string{}, one...)
					two[p], two[q] = alt[p], alt[q]
					check(t, one, two)
					check(t, two, one)
				}
			}
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			a, b := core.NearPair(d[1], "1")
			return fmt.Sprintf("%d lines, %q for %q in one or two of them, kind %d", sizes[d[0]], b, a, d[2])
		}}
}

// many hunks of one or several kinds
func hunks(e *core.Env, many bool) core.Space {
	counts := []int{3, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 101}
	kinds := []string{"a", "d", "c", "ad", "ac", "dc", "adc", "aac", "ddca"}
	gaps := []int{1, 2, 3}
	size := []int{1, 2}
	same := 2
	name := "hunks"
	if many {
		counts = core.Pick(e, []int{255, 256, 257, 700, 1025, 4100}, []int{255, 256, 257, 511, 513, 700, 1025, 2050, 4100})
		gaps, size, same, name = []int{1}, []int{1}, 1, "many-hunks"
	}
	dims := []int{len(counts), len(kinds), len(gaps), len(size), same}
	return core.Space{Name: name, N: core.Prod(dims...),
		Run: func(i int, t *core.T) {
			d := core.Radix(i, dims...)
			if !e.Thorough() && counts[d[0]] > 2000 && d[1] != 2 && d[1] != 6 {
				return
			}
			var old, new []string
			for k := 0; k < counts[d[0]]; k++ {
				kind := kinds[d[1]][k%len(kinds[d[1]])]
				for j := 0; j < size[d[3]]; j++ {
					if kind != 'a' {
						old = append(old, fmt.Sprintf("old %d.%d", k, j))
					}
				}
				for j := 0; j < size[d[3]]; j++ {
					if kind != 'd' {
						new = append(new, fmt.Sprintf("new %d.%d", k, j))
					}
				}
				for j := 0; j < gaps[d[2]]; j++ {
					l := fmt.Sprintf("same %d.%d", k, j)
					if d[4] == 1 {
						l = fmt.Sprintf("same %d", (k+j)%5)
					}
					old, new = append(old, l), append(new, l)
				}
			}
			check(t, old, new)
		},
		Show: func(i int) string {
			d := core.Radix(i, dims...)
			return fmt.Sprintf("%d hunks %s of %d lines with %d lines between", counts[d[0]], kinds[d[1]], size[d[3]], gaps[d[2]])
		}}
}

func main() {
	hostile := []string{"", " ", "---", "> a", "< a", "1a2", "3d2", "1,2c3", "%d", "a\r", "a", "\\", "é", "\x00\xff"}
	core.Main(core.Check{
		ID:          "C09",
		Bounds:      "all pairs of line sequences: 2 symbols to length 8 (9), 3 to 6 (7), 4 to 4 (5), 14 hostile lines to 2 (3), behind 7..10 (97..99) common lines; files of 9..101 (1001) lines with every pair of edits; blocks of 0..257 (1001) lines replaced by others of 20 (36) sizes at 10 places before 4 numbers of common lines in 4 kinds; 3..1025 (4100) hunks of 9 mixtures, 4100 of 2; lines with equal checksums (21 pairs); all pairs of files of up to 2 of 6 lines made with each of 267 texts; files of 1..257 (1025) lines in which one or two lines have one of 39 minimal changes",
		Assumptions: []string{"lines contain no newline", "the script is what diff.Format(diff.Diff(old, new)) returns"},
		Spaces: func(e *core.Env) []core.Space {
			ab, abc, abcd := []string{"a", "b"}, []string{"a", "b", "c"}, []string{"a", "b", "c", "d"}
			if e.Thorough() {
				return []core.Space{
					pairs("hostile", hostile, 3, 0, 0), pairs("abc", abc, 7, 0, 0), pairs("ab", ab, 10, 0, 0), pairs("abcd", abcd, 6, 0, 0),
					pairs("abcdef", []string{"a", "b", "c", "d", "e", "f"}, 5, 0, 0),
					pairs("abc+7", abc, 5, 7, 0), pairs("abc+8", abc, 5, 8, 1), pairs("abc+9", abc, 5, 9, 12), pairs("abc+10", abc, 5, 10, 2),
					pairs("abc+97", abc, 5, 97, 0), pairs("abc+98", abc, 4, 98, 3), pairs("abc+998", abc, 3, 998, 3), edits(e), blocks(e), collisions(), joined(), near(e), hunks(e, false), hunks(e, true),
				}
			}
			return []core.Space{
				pairs("hostile", hostile, 2, 0, 0), pairs("ab", ab, 8, 0, 0), pairs("abc", abc, 6, 0, 0), pairs("abcd", abcd, 5, 0, 0),
				pairs("abc+7", abc, 4, 7, 0), pairs("abc+8", abc, 4, 8, 1), pairs("abc+9", abc, 4, 9, 0), pairs("abc+98", abc, 3, 98, 3), pairs("abcde", []string{"a", "b", "c", "d", "e"}, 4, 0, 0), edits(e), blocks(e), collisions(), joined(), near(e), hunks(e, false), hunks(e, true),
			}
		},
	})
}
