// C21: locale definitions.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/core"
)

type def struct {
	text string
	good bool
}

func judge(t *core.T, d def) {
	a, ok := parse(t, d.text)
	if !ok {
		return
	}
	t.Outcome(map[bool]string{true: "accepted", false: "rejected"}[a])
	t.State(d.text)
	if d.good && !mayAccept(d.text) {
		core.Must(fmt.Errorf("the recogniser refuses %q", d.text))
	}
	switch {
	case d.good && !a:
		t.Failf("well-formed but rejected: %q", d.text)
	case !d.good && a:
		t.Failf("malformed but accepted: %q", d.text)
	}
}

func keywords(cat string) (k []string) {
	for w := range table[cat] {
		k = append(k, w)
	}
	sort.Strings(k)
	return k
}

// a line that is right for the category
func filler(cat string) string {
	k := keywords(cat)[0]
	return k + " " + valid[table[cat][k]][0] + "\n"
}

func body(cat string) string {
	if cat == "LC_COLLATE" {
		return orderValid[1]
	}
	s := ""
	for i, k := range keywords(cat) {
		v := valid[table[cat][k]]
		s += k + "\t " + v[i%len(v)] + "\n"
		if i == 4 {
			break
		}
	}
	return s
}

func wrap(cat, lines string) string { return cat + "\n" + lines + "END " + cat + "\n" }

var all = append(append([]string{}, cats...), "LC_COLLATE")

func operands() (l []def) {
	for _, c := range cats {
		for _, k := range keywords(c) {
			kind := table[c][k]
			contexts := []func(s string) string{
				func(s string) string { return wrap(c, s) },
				func(s string) string { return wrap(c, filler(c)+s) },
				func(s string) string { return wrap(c, s+filler(c)) },
			}
			for i, ctx := range contexts {
				for _, v := range valid[kind] {
					l = append(l, def{ctx(k + " " + v + "\n"), true})
				}
				if i == 0 {
					l = append(l, def{strings.TrimSuffix(ctx(k+" "+valid[kind][0]+"\n"), "\n"), true}, def{ctx("  " + k + " \t " + valid[kind][0] + "\n"), true})
				}
				for _, b := range bad[kind] {
					l = append(l, def{ctx(k + " " + b + "\n"), false})
				}
				v := valid[kind][0]
				for _, s := range []string{k, k + " ", k + v, k + "= " + v, k + " " + v + " " + v, k + " " + k, strings.ToUpper(k) + " " + v, k + "x " + v, "x" + k + " " + v, k + " " + v + " " + k + " " + v, v, v + " " + k} {
					if _, known := table[c][strings.Fields(s + " x")[0]]; known && !strings.HasPrefix(s, k) {
						continue
					}
					if kind == names && strings.HasPrefix(s, k+" "+k) && s == k+" "+k {
						continue // a class may have that name
					}
					l = append(l, def{ctx(s + "\n"), false})
				}
			}
		}
	}
	for _, o := range orderValid {
		l = append(l, def{wrap("LC_COLLATE", o), true}, def{strings.TrimSuffix(wrap("LC_COLLATE", o), "\n"), true})
	}
	for _, o := range orderBad {
		l = append(l, def{wrap("LC_COLLATE", o), false}, def{"LC_COLLATE\n" + o, false})
	}
	return l
}

func foreign() (l []def) {
	for _, c := range all {
		for _, o := range cats {
			for _, k := range keywords(o) {
				if _, own := table[c][k]; own || o == c {
					continue
				}
				line := k + " " + valid[table[o][k]][0] + "\n"
				l = append(l, def{wrap(c, line), false}, def{wrap(c, body(c)+line), false}, def{wrap(c, line+body(c)), false})
			}
		}
		if c != "LC_COLLATE" {
			for _, o := range orderValid {
				l = append(l, def{wrap(c, o), false}, def{wrap(c, body(c)+o), false})
			}
		}
		for _, w := range []string{"foo", "END", "LC_TIME", "end", "LC_CTYPE", "x 3", "foo \"a\"", "<a>", "\"a\"", ";", "3", "%", "é 3"} {
			l = append(l, def{wrap(c, body(c)+w+"\n"), false}, def{wrap(c, w+"\n"+body(c)), false})
		}
	}
	return l
}

func ends() (l []def) {
	for _, c := range all {
		b := body(c)
		l = append(l, def{c + "\n" + b + "END " + c + " \n", c != "LC_COLLATE"}, def{c + "\n" + b + "END  \t" + c + "\n", true}, def{c + "\n" + b + "END " + c, true})
		if c == "LC_COLLATE" {
			l = l[:len(l)-3]
			l = append(l, def{c + "\n" + b + "END " + c, true}, def{c + "\n" + b + "END \t" + c + "\n", true})
		}
		for _, e := range []string{"", "END", "END ", "END\n", "END \n", "END" + c + "\n", "end " + c + "\n", "END " + strings.ToLower(c) + "\n", "END " + c + "X\n", "END X" + c + "\n", "END " + c + " x\n", "END " + c + " END " + c + "\n", "END " + c + "\nEND " + c + "\n", "END " + c + ";\n", "ENDX " + c + "\n", c + "\n", "END LC_ALL\n", "END LC_\n", "END \"" + c + "\"\n", "END " + c + " " + c + "\n"} {
			l = append(l, def{c + "\n" + b + e, false})
		}
		for _, o := range all {
			if o != c {
				l = append(l, def{c + "\n" + b + "END " + o + "\n", false}, def{c + "\n" + b + "END " + o + "\nEND " + c + "\n", false}, def{c + "\n" + b + o + "\n" + body(o) + "END " + o + "\nEND " + c + "\n", false}, def{c + "\n" + b + wrap(o, body(o)), false})
			}
		}
		for _, h := range []string{"", strings.ToLower(c), c + " x", c + " " + filler("LC_TIME"), c + "X", "X" + c, "LC_BUTT", "LC_", c + ";", c + " " + c, "END " + c, c + "\n" + c, "\"" + c + "\"", "foo"} {
			l = append(l, def{strings.TrimSuffix(h, "\n") + "\n" + b + "END " + c + "\n", false})
		}
		l = append(l, def{c + " " + b + "END " + c + "\n", false}, def{c, false}, def{c + "\n", false}, def{b, false}, def{"END " + c + "\n", false}, def{wrap("LC_BUTT", b), false})
	}
	return l
}

func several() (l []def) {
	for _, a := range all {
		for _, b := range all {
			if a == b {
				continue
			}
			x, y := wrap(a, body(a)), wrap(b, body(b))
			l = append(l, def{x + y, true})
			for _, junk := range []string{"LC_BUTT\nEND LC_BUTT\n", "foo\n", "END " + a + "\n", "END " + b + "\n", filler("LC_TIME"), "LC_BUTT\n" + body(b) + "END LC_BUTT\n", "3\n", "<a>\n", "\"\n", ";", a, "END", "lc_time\n", "%x\n"} {
				l = append(l, def{x + y + junk, false}, def{x + junk + y, false}, def{junk + x + y, false})
			}
			l = append(l, def{strings.TrimSuffix(x, "END "+a+"\n") + y, false}, def{x + strings.TrimSuffix(y, "END "+b+"\n"), false}, def{x + strings.TrimPrefix(y, b+"\n"), false}, def{strings.TrimSuffix(x, "\n") + " " + y, false})
			for _, c := range all {
				if c != a && c != b {
					l = append(l, def{x + y + wrap(c, body(c)), true})
				}
			}
		}
	}
	return l
}

// layouts: comments, redefinitions and continuations at every place
func layouts(thorough bool) (l []def) {
	type base struct {
		lines []string
		good  bool
	}
	var bases []base
	for _, c := range all {
		bases = append(bases, base{strings.Split(strings.TrimSuffix(wrap(c, body(c)), "\n"), "\n"), true})
	}
	bases = append(bases,
		base{[]string{"LC_TIME", "frac_digits 3", "END LC_TIME"}, false},
		base{[]string{"LC_TIME", `d_fmt "a`, "END LC_TIME"}, false},
		base{[]string{"LC_NUMERIC", "grouping 3;3", "END LC_TIME"}, false},
		base{[]string{"LC_BUTT", "grouping 3", "END LC_BUTT"}, false},
		base{[]string{"LC_NUMERIC", "grouping 3;3"}, false},
	)
	type redef struct {
		pre             string
		comment, escape string
	}
	redefs := []redef{{"", "#", `\`}}
	for _, c := range []string{"%", "*", "@", "/", "~"} {
		redefs = append(redefs, redef{"comment_char " + c + "\n", c, `\`}, redef{"escape_char " + c + "\n", "#", c})
		for _, e := range []string{"/", "&", "`"} {
			if c != e {
				redefs = append(redefs, redef{"comment_char " + c + "\nescape_char " + e + "\n", c, e}, redef{"escape_char " + e + "\ncomment_char " + c + "\n", c, e})
			}
		}
	}
	for _, r := range redefs {
		for _, b := range bases {
			plain := true
			for _, x := range b.lines {
				if strings.ContainsAny(x, r.comment+r.escape) || strings.Contains(x, `\`) || strings.Contains(x, "#") {
					plain = false
				}
			}
			if !plain {
				// strings with escapes or comment characters in them: other tests
				var n []string
				for _, x := range b.lines {
					if !strings.ContainsAny(x, `\#%*@/~&`+"`") {
						n = append(n, x)
					}
				}
				b.lines = n
			}
			whole := strings.Join(b.lines, "\n") + "\n"
			l = append(l, def{r.pre + whole, b.good})
			// a comment at every place, and two
			for i := 0; i <= len(b.lines); i++ {
				for _, c := range []string{"", " comment", " END LC_TIME", "# \"", "LC_TIME", " <a>;", "é", r.comment} {
					n := append(append(append([]string{}, b.lines[:i]...), r.comment+c), b.lines[i:]...)
					l = append(l, def{r.pre + strings.Join(n, "\n") + "\n", b.good})
				}
				n := append(append(append([]string{}, b.lines[:i]...), r.comment+" one", r.comment+" two"), b.lines[i:]...)
				l = append(l, def{r.pre + strings.Join(n, "\n"), b.good})
				// the old comment character is none any more
				if r.comment != "#" {
					n := append(append(append([]string{}, b.lines[:i]...), "# old"), b.lines[i:]...)
					l = append(l, def{r.pre + strings.Join(n, "\n") + "\n", false})
				}
				// the redefinition only counts from its line on
				if r.pre != "" && i == 0 {
					l = append(l, def{"# c\n" + r.pre + whole, b.good})
				}
			}
			// a continuation at every place
			for i, x := range b.lines {
				for k := 0; k <= len(x); k++ {
					if k < len(x) && (x[k] == ' ' || x[k] == '\t') || k == len(x) || k > 0 && x[k]&0xc0 == 0x80 {
						continue
					}
					for _, ind := range []string{"", "   ", "\t"} {
						n := append([]string{}, b.lines...)
						n[i] = x[:k] + r.escape + "\n" + ind + x[k:]
						l = append(l, def{r.pre + strings.Join(n, "\n") + "\n", b.good})
						if thorough || k%5 == 0 {
							for j := k + 1; j < len(x); j++ {
								if x[j] == ' ' || x[j] == '\t' || x[j]&0xc0 == 0x80 || x[j-1] == ' ' || x[j-1] == '\t' {
									continue
								}
								n[i] = x[:k] + r.escape + "\n" + ind + x[k:j] + r.escape + "\n" + x[j:]
								l = append(l, def{r.pre + strings.Join(n, "\n") + "\n", b.good})
							}
						}
					}
					// with the wrong escape character the line is broken
					if wrong := "/"; k > 0 && r.escape != wrong && r.comment != wrong && b.good {
						n := append([]string{}, b.lines...)
						n[i] = x[:k] + wrong + "\n" + x[k:]
						l = append(l, def{r.pre + strings.Join(n, "\n") + "\n", false})
					}
				}
			}
			l = append(l, def{r.pre + whole + r.escape, false}, def{r.pre + strings.TrimSuffix(whole, "\n") + r.escape, false})
		}
	}
	// what only looks like a redefinition, and redefinitions in the wrong place
	for _, b := range bases {
		for _, r := range []string{"comment_char %", "escape_char /", "comment_char\t%", "comment_charx %", "comment_chars %", "escape_charx /", "escape_char_ /", "comment_charset utf8", "escape_char0 0", "comment_char", "escape_char", "comment_char ", "comment_char % %", "escape_char / x", "comment_char %%", "comment_char %x", "escape_char //", "escape_char ab", "comment_char éé", "Comment_char %", "ESCAPE_CHAR /", "comment_chr %", "charcomment %", "comment_char;%", "comment_char=%"} {
			for i := 0; i <= len(b.lines); i++ {
				if i == 0 && (r == "comment_char %" || r == "escape_char /" || r == "comment_char\t%") {
					continue // a proper redefinition
				}
				n := append(append(append([]string{}, b.lines[:i]...), r), b.lines[i:]...)
				l = append(l, def{strings.Join(n, "\n") + "\n", false})
			}
		}
	}
	// the escape character in strings
	for _, e := range []string{`\`, "/", "&"} {
		pre := ""
		if e != `\` {
			pre = "escape_char " + e + "\n"
		}
		for _, s := range []string{`"a\\b"`, `"\;"`, `"\x41\x42"`, `"\101"`, `"\d065"`, `"\"`, `"\q"`, `"\x4"`, `"a\\"`, `"\\\\"`, `"\<a\>"`} {
			good := s != `"\"` && s != `"\q"` && s != `"\x4"`
			l = append(l, def{pre + wrap("LC_NUMERIC", "decimal_point "+strings.ReplaceAll(s, `\`, e)+"\n"), good})
			if e != `\` {
				// a backslash is an ordinary character now
				l = append(l, def{pre + wrap("LC_NUMERIC", "decimal_point "+strings.ReplaceAll(s, "\\\"", "\\ \"")+"\n"), true})
			}
		}
	}
	return l
}

var pieces = []string{"LC_TIME\n", "LC_COLLATE\n", "LC_MESSAGES\n", "LC_NUMERIC\n", "END ", "LC_TIME", "\n", "d_fmt ", `"a"`, `"`, "order_start\n", "<a>", "order_end\n", "yesexpr ", ";", `\`, "#", "grouping ", "3", "LC_BUTT\n", "END LC_TIME\n", "END LC_COLLATE\n", "END LC_NUMERIC\n", "(", ",", "order_start "}

func piece(i, max int) string {
	s := ""
	for _, k := range core.Seq(i, len(pieces), 0, max) {
		s += pieces[k]
	}
	return s
}

func main() {
	prefixes := []string{"", "LC_TIME\n", "LC_COLLATE\n", "LC_COLLATE\norder_start\n<a>\n", "LC_TIME\nd_fmt \"a\"\nEND LC_TIME\n", "LC_NUMERIC\ngrouping 3", "LC_MESSAGES\nyesexpr \"", "LC_CTYPE\ntoupper (<a>,<A>)", "LC_CTYPE\nupper <A>"}
	core.Main(core.Check{
		ID:          "C21",
		Bounds:      "every keyword of the five keyword categories x 2 to 21 right and 15 to 45 wrong operands in 3 contexts; 7 right and 30 wrong order lists; every keyword in every other category; 20 wrong END and 14 wrong header forms per category; all ordered pairs and triples of categories with junk at every boundary; comments, redefinitions (29 combinations) and continuations at every position; all strings of up to 2 (3) of 26 pieces after 9 prefixes and of up to 3 (4) pieces alone",
		Assumptions: []string{"acceptance is yyParse returning 0 on NewLexer's lexer; an error status, a panic or the death of the process is a rejection", "copy, ellipses, weights, collating-element, collating-symbol, user-defined classes as keywords, empty strings in LC_TIME, blanks at line ends and blank lines are not judged; accepted or not, they must end"},
		Setup: func(e *core.Env) error {
			j, _ := json.Marshal(map[string]any{"Replace": map[string]string{"/repo/pkg/locale/zz_verif_parse.go": filepath.Join(e.Verif, "mc/c21/parse.go.txt")}})
			of := filepath.Join(e.Scratch, "overlay.json")
			core.Must(os.WriteFile(of, j, 0666))
			cmd := exec.Command("go", "build", "-overlay", of, "-o", e.Bin("helper"), "./c21/helper")
			cmd.Dir = filepath.Join(e.Verif, "mc")
			cmd.Env = core.GoEnv()
			b, err := cmd.CombinedOutput()
			if err != nil {
				return fmt.Errorf("building the helper: %v\n%s", err, b)
			}
			return nil
		},
		Spaces: func(e *core.Env) []core.Space {
			mk := func(name string, l []def) core.Space {
				return core.Space{Name: name, N: len(l), Show: func(i int) string { return fmt.Sprintf("%q", l[i].text) }, Run: func(i int, t *core.T) { judge(t, l[i]) }}
			}
			sp := []core.Space{mk("operands", operands()), mk("foreign", foreign()), mk("ends", ends()), mk("several", several()), mk("layouts", layouts(e.Thorough()))}
			free := func(s string, t *core.T) {
				a, ok := parse(t, s)
				t.State(s)
				if ok && a {
					t.Outcome("accepted")
					if !mayAccept(s) {
						t.Failf("malformed but accepted: %q", s)
					}
				}
			}
			m1, m2 := core.Pick(e, 3, 4), core.Pick(e, 2, 3)
			sp = append(sp, core.Space{Name: "pieces", N: core.SeqN(len(pieces), 0, m1), Show: func(i int) string { return fmt.Sprintf("%q", piece(i, m1)) }, Run: func(i int, t *core.T) { free(piece(i, m1), t) }})
			n2 := core.SeqN(len(pieces), 0, m2)
			sp = append(sp, core.Space{Name: "pieces-after", N: n2 * len(prefixes), Show: func(i int) string { return fmt.Sprintf("%q", prefixes[i/n2]+piece(i%n2, m2)) }, Run: func(i int, t *core.T) { free(prefixes[i/n2]+piece(i%n2, m2), t) }})
			return sp
		},
	})
}
