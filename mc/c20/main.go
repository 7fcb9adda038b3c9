// C20: locale's report of the environment.
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/fwip/posix-utils/pkg/locale"
	"verif/mc/core"
)

var cats = []string{"LC_COLLATE", "LC_CTYPE", "LC_MESSAGES", "LC_MONETARY", "LC_NUMERIC", "LC_TIME"}
var vars = append([]string{"LANG", "LC_ALL"}, cats...)

const unset = "\x00unset"

func check(out string, env map[string]string) error {
	v := func(n string) string {
		if env[n] == unset {
			return ""
		}
		return env[n]
	}
	rest := out
	take := func(name string, quotes ...bool) error {
		for _, q := range quotes {
			s := name + "=" + v(name) + "\n"
			if q {
				s = name + "=\"" + v(name) + "\"\n"
			}
			if strings.HasPrefix(rest, s) {
				rest = rest[len(s):]
				return nil
			}
		}
		return fmt.Errorf("expected %s=%s at %q", name, v(name), rest)
	}
	if err := take("LANG", true, false); err != nil {
		return err
	}
	left := map[string]bool{}
	for _, c := range cats {
		left[c] = true
	}
	for len(left) > 0 {
		i := strings.IndexByte(rest, '=')
		if i < 0 || !left[rest[:i]] {
			return fmt.Errorf("expected one of the categories %v at %q", left, rest)
		}
		c := rest[:i]
		delete(left, c)
		var want string
		switch {
		case v("LC_ALL") != "":
			want = "\"" + v("LC_ALL") + "\""
		case v(c) != "":
			want = v(c)
		default:
			want = "\"" + v("LANG") + "\""
		}
		want = c + "=" + want + "\n"
		if !strings.HasPrefix(rest, want) {
			return fmt.Errorf("expected %q at %q", want, rest)
		}
		rest = rest[len(want):]
	}
	if err := take("LC_ALL", false, true); err != nil {
		return err
	}
	if rest != "" {
		return fmt.Errorf("extra output %q", rest)
	}
	return nil
}

func mkspace(name string, vals map[string][]string, cmd bool) core.Space {
	dims := make([]int, len(vars))
	for i, n := range vars {
		dims[i] = len(vals[n])
	}
	mk := func(i int) map[string]string {
		env := map[string]string{}
		for k, d := range core.Radix(i, dims...) {
			env[vars[k]] = vals[vars[k]][d]
		}
		return env
	}
	return core.Space{Name: name, N: core.Prod(dims...),
		Show: func(i int) string {
			s := ""
			for _, n := range vars {
				s += fmt.Sprintf("%s=%q ", n, mk(i)[n])
			}
			return s
		},
		Run: func(i int, t *core.T) {
			env := mk(i)
			var out string
			if cmd {
				var el []string
				for _, n := range vars {
					if env[n] != unset {
						el = append(el, n+"="+env[n])
					}
				}
				r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("locale"), Env: el})
				if r.Code != 0 || r.Err != "" {
					t.Failf("%v", r)
					return
				}
				out = r.Out
			} else {
				for _, n := range vars {
					if env[n] == unset {
						os.Unsetenv(n)
					} else {
						os.Setenv(n, env[n])
					}
				}
				out = locale.FromEnv().String()
			}
			t.Trans(1)
			t.Trace()
			t.State(out)
			t.Outcome(fmt.Sprintf("%d quotes", strings.Count(out, "\"")))
			if err := check(out, env); err != nil {
				t.Failf("%v in output %q", err, out)
			}
		}}
}

func main() {
	core.Main(core.Check{
		ID:          "C20",
		Bounds:      "all assignments of 4 values each (unset, empty, a name, another) to the 8 variables in process (thorough 5); 2-4 values each incl. %, quotes, backslashes, non-UTF-8 through the command; every byte value alone and inside in each variable; all assignments of two names and the empty one",
		Assumptions: []string{"LANG and LC_ALL may be printed with or without quotes; the categories may come in any order"},
		Setup:       func(e *core.Env) error { return core.BuildCmd(e, "locale") },
		Spaces: func(e *core.Env) []core.Space {
			v4 := map[string][]string{}
			for k, n := range vars {
				v4[n] = []string{unset, "", fmt.Sprintf("v%d", k), "C"}
			}
			if e.Thorough() {
				for k, n := range vars {
					v4[n] = append(v4[n], fmt.Sprintf("%%s x\"%d", k))
				}
			}
			odd := []string{" x ", "POSIX", strings.Repeat("L", 5000), "%d%s%!", "a b\"c\\", "\xff\xe9", "x=y", "\t%", "$HOME;'"}
			vc := map[string][]string{}
			for k, n := range vars {
				vc[n] = []string{unset, "", fmt.Sprintf("v%d", k)}
				if n == "LANG" || n == "LC_ALL" {
					continue
				}
				if k > core.Pick(e, 4, 6) {
					vc[n] = []string{unset, fmt.Sprintf("v%d", k)}
				}
			}
			// each odd value in each variable over a few backgrounds
			var out []core.Space
			out = append(out, mkspace("api", v4, false), mkspace("cmd", vc, true))
			// every byte, alone and inside, and names as they are used
			var bs []string
			for c := 1; c < 256; c++ {
				bs = append(bs, string([]byte{byte(c)}), "x"+string([]byte{byte(c)})+"y")
			}
			bs = append(bs, "en_US.UTF-8", "de_DE.UTF-8@euro", "C.UTF-8", "a:b", "/usr/lib/locale/x", "POSIX", "C", "\"q\"", "'q'", "a\nb", "\n", "LANG", "LC_ALL=x", "0", " ", "\"", strings.Repeat("long", 70000))
			for _, n := range vars {
				vo := map[string][]string{}
				for j, m := range vars {
					switch {
					case m == n:
						vo[m] = bs
					case m == "LANG":
						vo[m] = []string{fmt.Sprintf("v%d", j), ""}
					case m == "LC_ALL" || m == "LC_TIME":
						vo[m] = []string{unset, fmt.Sprintf("v%d", j)}
					default:
						vo[m] = []string{fmt.Sprintf("w%d", j)}
					}
				}
				out = append(out, mkspace("bytes-"+n, vo, false))
			}
			// values that are equal to each other
			eq := map[string][]string{}
			for _, n := range vars {
				eq[n] = []string{"one", "two", ""}
			}
			out = append(out, mkspace("equal", eq, false))
			for k, n := range vars {
				vo := map[string][]string{}
				for j, m := range vars {
					switch {
					case m == n:
						vo[m] = odd
					case m == "LANG" || m == "LC_ALL":
						vo[m] = []string{"", fmt.Sprintf("v%d", j)}
					default:
						vo[m] = []string{fmt.Sprintf("w%d", j)}
						if j == (k+1)%len(vars) {
							vo[m] = []string{unset, "100%"}
						}
					}
				}
				out = append(out, mkspace("odd-"+n, vo, true))
			}
			return out
		},
	})
}
