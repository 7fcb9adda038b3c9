// C22: input and output faults.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/fault"
)

func lines(n int, f string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, f+"\n", i)
	}
	return b.String()
}

var long = strings.Repeat("word", 22)

var files = map[string]string{
	"f": "ab\ncd\nef\n", "g": "ab\ncx\nef\n", "p": "ab\ncd\n", "e": "", "u": "one\ntwo",
	"big": lines(90, long+"%d"), "big2": strings.Replace(lines(90, long+"%d"), long+"80\n", "LINE\nMORE\n", 1),
	"many": lines(40, "y%d") + "common\n", "many2": lines(40, "z%d") + "common\n",
	"pairs": "a b\nb c\nc d\na d\n", "bigpairs": lines(60, long+"%d end"), "mid": lines(20, "l%d"),
}

type scen struct {
	bin   string
	args  []string
	stdin string
	env   []string
	// loose: the result may be settled before all input has been read
	loose bool
}

func scenarios() []scen {
	c := func(bin, args, stdin string, loose bool) scen {
		return scen{bin: bin, args: strings.Fields(args), stdin: stdin, loose: loose}
	}
	s := []scen{
		c("cat", "", "in\nput", false), c("cat", "-", files["big"], false), c("cat", "f", "", false), c("cat", "-u f u", "", false), c("cat", "f - big", "stdin\n", false), c("cat", "e", "", false), c("cat", "f none u", "", false), c("cat", "big mid", "", false),
		c("cksum", "", "in\nput", false), c("cksum", "-", files["big"], false), c("cksum", "f", "", false), c("cksum", "f e big", "", false), c("cksum", "u - f", "s", false),
		c("cmp", "f f", "", false), c("cmp", "f -", files["f"], false), c("cmp", "big big", "", false), c("cmp", "e e", "", false), c("cmp", "f g", "", true), c("cmp", "f p", "", true), c("cmp", "p f", "", true), c("cmp", "big big2", "", true), c("cmp", "-l f g", "", false), c("cmp", "-s f g", "", true), c("cmp", "-s f f", "", false), c("cmp", "-l f f", "", false), c("cmp", "-l many many2", "", true), c("cmp", "- e", "x", true), c("cmp", "e -", "", true), c("cmp", "-s p f", "", true),
		c("diff", "f f", "", false), c("diff", "f g", "", false), c("diff", "f p", "", false), c("diff", "p f", "", false), c("diff", "e f", "", false), c("diff", "big big2", "", false), c("diff", "many many2", "", false), c("diff", "big big", "", false), c("diff", "e e", "", false),
		c("head", "", files["big"], true), c("head", "", "short\n", false), c("head", "f", "", false), c("head", "u", "", false), c("head", "e", "", false), c("head", "f u", "", false), c("head", "-n 2 f", "", true), c("head", "-n 3 f", "", true), c("head", "-n 80 big", "", true), c("head", "-n 4 f - p", "from\nstdin\n", false), c("head", "-n 900 big", "", false),
		c("tsort", "", files["pairs"], false), c("tsort", "-", files["bigpairs"], false), c("tsort", "pairs", "", false), c("tsort", "bigpairs", "", false), c("tsort", "e", "", false), c("tsort", "", "x x", false),
		{bin: "locale"}, {bin: "locale", env: []string{"LANG=C", "LC_TIME=de_DE", "LC_ALL="}},
	}
	return s
}

func (s scen) String() string {
	return fmt.Sprintf("%s %s, %d bytes of input", s.bin, strings.Join(s.args, " "), len(s.stdin))
}

func setup(e *core.Env) string {
	d := filepath.Join(e.Work, "d")
	if _, err := os.Stat(d); err != nil {
		core.Must(os.MkdirAll(d, 0777))
		for n, c := range files {
			core.Must(os.WriteFile(filepath.Join(d, n), []byte(c), 0666))
		}
	}
	return d
}

func run(t *core.T, s scen, out int, plan string, logged bool) (core.Result, []fault.Call) {
	log := filepath.Join(t.Env.Work, "log")
	os.Remove(log)
	x := core.Ex{Bin: t.Env.Bin(s.bin), Args: s.args, Stdin: s.stdin, Dir: setup(t.Env)}
	x.Env = append(append([]string{}, s.env...), "VERIF_CLASS=std", "VERIF_FAULT="+plan)
	if logged {
		x.Env = append(x.Env, "VERIF_LOG="+log)
	}
	var r core.Result
	switch out {
	case 0:
		r = t.Env.Exec(x)
	case 1:
		r = t.Env.ExecOutPipe(x)
	}
	t.Trans(1)
	t.Trace()
	if s.bin == "tsort" && r.Code == 0 {
		// any order that respects the pairs will do
		l := strings.SplitAfter(r.Out, "\n")
		sort.Strings(l)
		r.Out = strings.Join(l, "")
	}
	if !logged {
		return r, nil
	}
	return r, fault.ReadLog(log)
}

type action struct {
	a    string
	hard bool // the call fails for good
	req  bool // the failure must be reported, whatever the rest of the run does
}

const writeFlags = os.O_WRONLY | os.O_RDWR

func actions(c fault.Call, deep bool) []action {
	var l []action
	hard := func(req bool, pre string, errnos ...int) {
		for _, e := range errnos {
			l = append(l, action{fmt.Sprintf("%s%d", pre, e), true, req})
		}
	}
	soft := func(a string) { l = append(l, action{a, false, false}) }
	switch c.Name {
	case "openat":
		hard(c.N&writeFlags == 0, "e", 13, 5, 24)
		soft("e4")
	case "read", "pread":
		hard(true, "e", 5, 21)
		soft("e4")
		for _, n := range []int{1, 2, 3, 5, 100, 4095} {
			if n < c.N {
				soft(fmt.Sprint("s", n))
			}
		}
	case "write", "pwrite":
		hard(true, "e", 5, 28, 27)
		soft("e4")
		for _, n := range []int{1, 2, 3, c.N / 2, c.N - 1} {
			if n > 0 && n < c.N {
				soft(fmt.Sprint("s", n))
			}
		}
	case "CopyFileRange", "sendfile", "Splice":
		hard(false, "e", 5, 28, 38, 22)
		soft("e4")
		soft("s1")
		soft("s3")
	case "Close":
		hard(false, "p", 5)
	default:
		hard(false, "e", 5, 12)
	}
	return l
}

// most of the calls at each end of a run that are made to fail
const most = 60

func explore(t *core.T, s scen, out int, base core.Result, plan string, last int, hard, req bool, depth int, deep bool) {
	r, calls := run(t, s, out, plan, depth > 0)
	t.State(fmt.Sprint(s, out, plan, r.Code))
	min := 1
	if s.bin == "cmp" || s.bin == "diff" {
		min = 2
	}
	if plan == "" {
		base = r
	}
	same := r.Code == base.Code && r.Out == base.Out && (r.Err == "") == (base.Err == "")
	reported := r.Code >= min && r.Code != 128+9 && r.Err != ""
	switch {
	case r.Hung:
		t.Failf("%v, fault %s: hangs", s, show(t, s, out, plan))
	case !hard && !same:
		t.Failf("%v, fault %s: short transfers and interruptions must change nothing: %v, without the fault %v", s, show(t, s, out, plan), r, base)
	case hard && req && !s.loose && !reported:
		t.Failf("%v, fault %s: the failure is not reported by the exit status (%d or more) and a message: %v", s, show(t, s, out, plan), min, r)
	case hard && !reported && !same:
		t.Failf("%v, fault %s: neither the failure is reported (exit status %d or more and a message) nor the result complete: %v, without the fault %v", s, show(t, s, out, plan), min, r, base)
	}
	if t.Failed() {
		return
	}
	if hard {
		if reported {
			t.Outcome("failure reported")
		} else {
			t.Outcome("failure without effect")
		}
	} else {
		t.Outcome("unchanged")
	}
	if depth == 0 {
		return
	}
	for i, c := range calls {
		if c.K <= last || i >= most && i < len(calls)-most {
			continue
		}
		if t.Late() {
			return
		}
		for _, a := range actions(c, deep) {
			p := fmt.Sprintf("%d=%s", c.K, a.a)
			if plan != "" {
				p = plan + ";" + p
			}
			explore(t, s, out, base, p, c.K, hard || a.hard, req || a.req, depth-1, deep)
			if t.Failed() {
				return
			}
		}
		if (c.Name == "write" || c.Name == "pwrite") && c.N > 1 && depth == 1 {
			// part of the data, then nothing more
			p := fmt.Sprintf("%d=s%d;%d=e28", c.K, c.N/2, c.K+1)
			if plan != "" {
				p = plan + ";" + p
			}
			explore(t, s, out, base, p, c.K+1, true, true, 0, deep)
			if t.Failed() {
				return
			}
		}
	}
}

func show(t *core.T, s scen, out int, plan string) string {
	_, calls := run(t, s, out, plan, true)
	var l []string
	for _, p := range strings.Split(plan, ";") {
		var k int
		fmt.Sscan(strings.SplitN(p, "=", 2)[0], &k)
		for _, c := range calls {
			if c.K == k {
				p += fmt.Sprintf(" (%s on descriptor %d %s)", c.Name, c.FD, c.Path)
			}
		}
		l = append(l, p)
	}
	return strings.Join(l, ", ")
}

func main() {
	core.Main(core.Check{
		ID:          "C22",
		Bounds:      "58 runs of the 7 utilities with small, multi-buffer, empty and unterminated inputs from files and standard input, output to a file and a pipe; every system call on inputs and standard output (of runs with more than 120 calls the first and last 60) x each of 2 to 4 errnos, interruption, and short counts; every transfer of the run cut to 1, 2, 3 or 7 bytes; thorough: every pair of such faults on the runs of up to 40 calls",
		Assumptions: []string{"faults are injected in the system-call functions of Go's standard library, compiled in with -overlay; a call that bypasses them is not failed", "the undisturbed run of the same build is the reference for the result"},
		Setup: func(e *core.Env) error {
			return fault.Build(e, "cat", "cksum", "cmp", "diff", "head", "locale", "tsort")
		},
		Spaces: func(e *core.Env) []core.Space {
			sc := scenarios()
			show := func(i int) string { return fmt.Sprintf("%v, output %s", sc[i/2], []string{"file", "pipe"}[i%2]) }
			sp := []core.Space{{Name: "single", N: len(sc) * 2, Show: show, Run: func(i int, t *core.T) {
				s, out := sc[i/2], i%2
				base, calls := run(t, s, out, "", true)
				if len(calls) == 0 {
					core.Must(fmt.Errorf("no system call was seen: the hooks are not in place"))
				}
				explore(t, s, out, base, "", -1, false, false, 1, e.Thorough())
			}}, {Name: "all-short", N: len(sc) * 2 * 5, Show: func(i int) string { return show(i / 5) }, Run: func(i int, t *core.T) {
				s, out := sc[i/10], i/5%2
				base, _ := run(t, s, out, "", true)
				explore(t, s, out, base, fmt.Sprintf("999999=s%d", []int{1, 2, 3, 7, 1000}[i%5]), -1, false, false, 0, false)
			}}}
			if e.Thorough() {
				sp = append(sp, core.Space{Name: "pairs", N: len(sc) * 2, Show: show, Run: func(i int, t *core.T) {
					s, out := sc[i/2], i%2
					base, calls := run(t, s, out, "", true)
					if len(calls) > 40 {
						t.Outcome("too long for pairs")
						return
					}
					explore(t, s, out, base, "", -1, false, false, 2, true)
				}})
			}
			return sp
		},
	})
}
