// C08: ed's w under crashes and faults.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/edm"
	"verif/mc/fault"
)

type file struct {
	data string
	mode os.FileMode
}

type scen struct {
	name   string
	arg    string // file operand
	files  map[string]file
	pre    []edm.Op
	w      edm.Op
	target string
}

func ap(at string, lines ...string) edm.Op { return edm.Op{Line: at + "a", Text: lines} }

var longest = strings.Repeat("n", 255)

func scenarios() []scen {
	big := strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyz\n", 6000)
	base := map[string]file{"T": {"one\ntwo\n", 0640}, "O": {"other\nfile\n", 0604}, "Z": {"last\n", 0644}}
	with := func(kv ...any) map[string]file {
		m := map[string]file{}
		for k, v := range base {
			m[k] = v
		}
		for i := 0; i < len(kv); i += 2 {
			m[kv[i].(string)] = kv[i+1].(file)
		}
		return m
	}
	e := edm.Op{Line: "e T"}
	w := edm.Op{Line: "w"}
	return []scen{
		{"remembered name", "", base, []edm.Op{e, ap("", "new", "lines")}, w, "T"},
		{"file operand", "T", base, []edm.Op{ap("1", "new")}, w, "T"},
		{"w of a new name", "", base, []edm.Op{e, ap("0", "n")}, edm.Op{Line: "w N"}, "N"},
		{"w of another file", "", base, []edm.Op{e, {Line: "1d"}}, edm.Op{Line: "w O"}, "O"},
		{"no file yet", "", base, []edm.Op{ap("", "x")}, edm.Op{Line: "w N"}, "N"},
		{"some lines", "", base, []edm.Op{e, ap("", "z")}, edm.Op{Line: "1,2w O"}, "O"},
		{"some lines onto the file itself", "", base, []edm.Op{e, ap("", "z")}, edm.Op{Line: "3w"}, "T"},
		{"empty buffer", "", base, []edm.Op{e, {Line: ",d"}}, w, "T"},
		{"unchanged", "", base, []edm.Op{e}, w, "T"},
		{"shorter", "", with("T", file{strings.Repeat("long line\n", 300), 0600}), []edm.Op{e, {Line: "2,$d"}}, w, "T"},
		{"an old FILE.swp", "", with("T.swp", file{"mine\n", 0600}), []edm.Op{e, ap("", "n")}, w, "T"},
		{"many old files", "", with("T.swp", file{"mine\n", 0600}, "T.swp1", file{"", 0644}, "T~", file{"t", 0644}, "T.tmp", file{"t", 0644}, ".T.swp", file{"t", 0644}), []edm.Op{e, ap("", "n")}, w, "T"},
		{"big", "", with("T", file{big, 0640}), []edm.Op{e, ap("5", "n")}, w, "T"},
		{"no newline at the end", "", with("T", file{"one\ntwo", 0640}), []edm.Op{e, {Line: "1c", Text: []string{"ONE"}}}, w, "T"},
		{"executable", "", with("T", file{"#!x\n", 0755}), []edm.Op{e, ap("", "n")}, w, "T"},
		{"read-only", "", with("T", file{"one\ntwo\n", 0444}), []edm.Op{e, ap("", "n")}, w, "T"},
		{"no permissions", "", with("O", file{"one\ntwo\n", 0}), []edm.Op{e, ap("", "n")}, edm.Op{Line: "w O"}, "O"},
		{"write-only, in a directory", "", with("d/O", file{"one\ntwo\n", 0222}), []edm.Op{e, {Line: "1c", Text: []string{"N"}}}, edm.Op{Line: "1w d/O"}, "d/O"},
		{"everybody's", "T", with("T", file{"one\ntwo\n", 0777}), []edm.Op{{Line: "1d"}}, w, "T"},
		{"empty target", "", with("T", file{"", 0640}), []edm.Op{e, ap("", "n")}, w, "T"},
		{"same size", "", base, []edm.Op{e, {Line: "1c", Text: []string{"ONE"}}}, w, "T"},
		{"nothing onto a new name", "", base, nil, edm.Op{Line: "w N"}, "N"},
		{"longest name", "", with(longest, file{"one\ntwo\n", 0640}), []edm.Op{{Line: "e " + longest}, ap("", "n")}, w, longest},
		{"hidden", "", with(".h", file{"one\n", 0640}), []edm.Op{{Line: "e .h"}, ap("", "n")}, edm.Op{Line: "w"}, ".h"},
		{"in a directory", "", with("d/T", file{"x\n", 0640}), []edm.Op{{Line: "e d/T"}, ap("", "n")}, w, "d/T"},
		{"second w", "", base, []edm.Op{e, ap("", "a"), w, ap("", "b")}, w, "T"},
	}
}

func fill(dir string, m map[string]file) {
	core.Must(os.RemoveAll(dir))
	core.Must(os.MkdirAll(dir, 0777))
	for n, f := range m {
		p := filepath.Join(dir, n)
		core.Must(os.MkdirAll(filepath.Dir(p), 0777))
		core.Must(os.WriteFile(p, []byte(f.data), 0666))
		core.Must(os.Chmod(p, f.mode))
	}
}

func read(dir string) map[string]file {
	m := map[string]file{}
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		core.Must(err)
		if !st.IsDir() {
			b, err := os.ReadFile(p)
			core.Must(err)
			r, _ := filepath.Rel(dir, p)
			m[r] = file{string(b), st.Mode() & 07777}
		}
		return nil
	})
	return m
}

func names(m map[string]file) string {
	var l []string
	for n := range m {
		l = append(l, n)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// sess is a scenario with what the model says about it.
type sess struct {
	scen
	post           []edm.Op
	script         string
	wcmd           int // index of the w among the responses
	ok, bad        []edm.Item
	before, after  map[string]file // file system before and after the w
	final, finalKo map[string]file
	retry          bool
	part           int
}

const parts = 5 // cases per session, by index of the first fault

const probes = 3

func prepare(s scen, retry bool) *sess {
	x := &sess{scen: s, retry: retry}
	st := &edm.State{FS: map[string]string{}}
	for n, f := range s.files {
		st.FS[n] = f.data
	}
	var items []edm.Item
	if s.arg != "" {
		items = append(items, st.Run(edm.Op{Line: "e " + s.arg}))
	}
	for _, o := range s.pre {
		x.script += o.Script()
		items = append(items, st.Run(o))
	}
	post := []edm.Op{{Line: ".="}, {Line: ",n"}}
	if len(st.Lines) == 0 {
		post = []edm.Op{{Line: ".="}, {Line: "="}}
	}
	if retry {
		post = append(post, s.w, edm.Op{Line: "="})
	} else {
		post = append(post, edm.Op{Line: "e Z"}, edm.Op{Line: ",n"})
	}
	x.wcmd = len(items)
	x.script += s.w.Script()
	ok, ko := st.Clone(), st.Clone()
	x.before = mix(s.files, ko.FS)
	it := ok.Run(s.w)
	x.after = mix(s.files, ok.FS)
	x.ok = append(append([]edm.Item{}, items...), it)
	x.bad = append(append([]edm.Item{}, items...), edm.Item{Kind: edm.Err})
	for _, o := range post {
		x.script += o.Script()
		x.ok = append(x.ok, ok.Run(o))
		x.bad = append(x.bad, ko.Run(o))
	}
	x.final, x.finalKo = mix(s.files, ok.FS), mix(s.files, ko.FS)
	return x
}

func mix(files map[string]file, fs map[string]string) map[string]file {
	m := map[string]file{}
	for n, d := range fs {
		f, ok := files[n]
		if !ok {
			f.mode = 0644 // umask 022
		}
		f.data = d
		m[n] = f
	}
	return m
}

func run(t *core.T, x *sess, plan string, logged bool) (core.Result, []fault.Call, map[string]file) {
	dir := filepath.Join(t.Env.Work, "d")
	log := filepath.Join(t.Env.Work, "log")
	os.Remove(log)
	fill(dir, x.files)
	ex := core.Ex{Bin: t.Env.Bin("ed"), Stdin: x.script, Dir: dir, Env: []string{"VERIF_CLASS=files", "VERIF_FAULT=" + plan}}
	if logged {
		ex.Env = append(ex.Env, "VERIF_LOG="+log)
	}
	if x.arg != "" {
		ex.Args = []string{x.arg}
	}
	r := t.Env.Exec(ex)
	t.Trans(1)
	t.Trace()
	return r, fault.ReadLog(log), read(dir)
}

func same(a, b map[string]file, only string) bool {
	for n, f := range b {
		if g, ok := a[n]; (!ok || f != g) && n != only {
			return false
		}
	}
	for n := range a {
		if _, ok := b[n]; !ok && n != only {
			return false
		}
	}
	return true
}

func brief(m map[string]file) string {
	var l []string
	for n, f := range m {
		d := f.data
		if len(d) > 50 {
			d = fmt.Sprintf("%s...(%d bytes)", d[:30], len(d))
		}
		l = append(l, fmt.Sprintf("%s(%o)=%q", n, f.mode, d))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

type step struct {
	act    string
	must   bool // the w must be refused
	soft   bool // nothing may change
	kill   bool
	phase  int // of the call: number of responses before it
	litter bool
}

func steps(c fault.Call, phase int, written, thorough bool) (l []step) {
	add := func(s step) { s.phase = phase; l = append(l, s) }
	add(step{act: "b", kill: true})
	add(step{act: "a", kill: true})
	errs := func(must bool, pre string, n ...int) {
		for _, e := range n {
			add(step{act: fmt.Sprint(pre, e), must: must})
		}
	}
	switch c.Name {
	case "openat":
		w := c.N&(os.O_WRONLY|os.O_RDWR) != 0
		errs(w, "e", 13, 28, 24, 30, 5)
		errs(false, "e", 17)
		add(step{act: "e4", soft: true})
	case "write", "pwrite":
		errs(true, "e", 28, 5, 122, 27)
		add(step{act: "e4", soft: true})
		var cut []int
		if c.N <= 70 {
			for j := 1; j < c.N; j++ {
				cut = append(cut, j)
			}
		} else {
			cut = []int{1, 2, 4095, 4096, c.N / 2, c.N - 1}
		}
		for _, j := range cut {
			if j > 0 && j < c.N {
				add(step{act: fmt.Sprint("t", j), kill: true})
				add(step{act: fmt.Sprint("s", j), soft: true})
				add(step{act: fmt.Sprintf("s%d;%d=e28", j, c.K+1), must: true})
				add(step{act: fmt.Sprintf("s%d;%d=b", j, c.K+1), kill: true})
			}
		}
	case "Close":
		errs(written, "p", 5, 28)
	case "Renameat", "linkat", "Fsync", "Fdatasync", "Ftruncate", "Truncate":
		errs(true, "e", 13, 5, 28, 1)
	case "unlinkat":
		for _, e := range []int{5, 13} {
			add(step{act: fmt.Sprint("e", e), litter: true})
		}
	default:
		errs(false, "e", 13, 5, 1)
	}
	return l
}

func explore(t *core.T, x *sess, plan string, last int, must, soft, kill, litter bool, phase, depth int) {
	r, calls, fs := run(t, x, plan, depth > 0 || kill)
	fail := func(f string, a ...any) {
		t.Failf("%s, script %s, fault %s: %s; exit %d, responses %.400q, files %s", x.name, clip(x.script), show(t, x, plan), fmt.Sprintf(f, a...), r.Code, r.Out, brief(fs))
	}
	if r.Hung {
		fail("ed hangs")
		return
	}
	t.State(fmt.Sprint(x.name, x.retry, plan, r.Code))
	switch {
	case kill && r.Code == 137:
		for n, f := range x.files {
			if n != x.target && fs[n] != f && !(x.retry && phase > x.wcmd) {
				fail("%s has changed", n)
				return
			}
		}
		old, hadOld := x.before[x.target]
		nu := x.after[x.target]
		got, has := fs[x.target]
		isOld := has == hadOld && got.data == old.data
		isNew := has && got.data == nu.data
		switch {
		case phase == x.wcmd && !isOld && !isNew:
			fail("killed during w, %s holds neither its old nor its new contents", x.target)
		case phase > x.wcmd && !isNew && plan == first(plan):
			fail("w was answered before, but %s does not hold the new contents", x.target)
		}
		t.Outcome("killed")
		return
	case r.Code != 0:
		fail("ed ends with status %d", r.Code)
		return
	}
	okay := edm.Match(r.Out, x.ok)
	bad := !okay && edm.Match(r.Out, x.bad)
	switch {
	case !okay && !bad:
		fail("wrong responses, expected %s or %s", edm.ShowItems(x.ok), edm.ShowItems(x.bad))
	case soft && bad:
		fail("w must succeed")
	case must && okay:
		fail("w failed but is not answered with ?")
	case okay && !(litter && superset(fs, x.final)) && !same(fs, x.final, ""):
		fail("w was answered as done, but the files are not as they should be: %s", brief(x.final))
	case bad && !(litter && superset(fs, x.finalKo)) && !same(fs, x.finalKo, ""):
		fail("w was answered with ?, but the files are not as they should be: %s", brief(x.finalKo))
	}
	if t.Failed() {
		return
	}
	if okay {
		t.Outcome("written")
	} else {
		t.Outcome("refused")
	}
	if depth == 0 {
		return
	}
	part := -1
	if plan == "" {
		part = x.part
	}
	ph, done := 0, 0
	items := x.ok
	if bad {
		items = x.bad
	}
	// of many transfers in a row only the first and last ones
	nth := make([]int, len(calls))
	count := map[string]int{}
	for i, c := range calls {
		if (c.Name == "write" || c.Name == "pwrite" || c.Name == "read" || c.Name == "pread") && c.FD > 2 {
			count[fmt.Sprint(c.Name, c.FD)]++
			nth[i] = count[fmt.Sprint(c.Name, c.FD)]
		}
	}
	opened := map[int]bool{}
	for i, c := range calls {
		if c.FD == 1 && c.Name == "write" {
			if done += c.N; done <= len(r.Out) {
				ph = edm.Answered(r.Out[:done], ph, items)
			}
		}
		if t.Late() {
			return
		}
		if nth[i] > 6 && nth[i] < count[fmt.Sprint(c.Name, c.FD)]-3 {
			continue
		}
		if c.Name == "write" || c.Name == "pwrite" {
			opened[c.FD] = true
		}
		if part >= 0 && c.K%parts != part {
			continue
		}
		if c.K <= last || ph != x.wcmd && ph != x.wcmd+probes {
			continue
		}
		for _, s := range steps(c, ph, opened[c.FD], t.Env.Thorough()) {
			if ph != x.wcmd && !s.kill {
				continue
			}
			p := fmt.Sprintf("%d=%s", c.K, s.act)
			if plan != "" {
				p = plan + ";" + p
			}
			explore(t, x, p, c.K, must || s.must, plan == "" && s.soft, s.kill, litter || s.litter, ph, depth-1)
			if t.Failed() {
				return
			}
		}
	}
}

func first(plan string) string { return strings.SplitN(plan, ";", 2)[0] }

func superset(a, b map[string]file) bool {
	for n, f := range b {
		if a[n] != f {
			return false
		}
	}
	return true
}

func clip(s string) string {
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return fmt.Sprintf("%q", s)
}

func show(t *core.T, x *sess, plan string) string {
	_, calls, _ := run(t, x, plan, true)
	var l []string
	for _, p := range strings.Split(plan, ";") {
		var k int
		fmt.Sscan(strings.SplitN(p, "=", 2)[0], &k)
		for _, c := range calls {
			if c.K == k && plan != "" {
				p += fmt.Sprintf(" (%s %d %s)", c.Name, c.FD, c.Path)
			}
		}
		l = append(l, p)
	}
	return strings.Join(l, ", ")
}

func main() {
	core.Main(core.Check{
		ID:          "C08",
		Bounds:      "26 w commands (remembered, new, other, ranges, empty, 222 kB, old temporary names, modes from 0 to 0777, the longest name); a kill before and after every file call of the w and of the next command that opens a file, and after every possible number of bytes of a data write up to 70 bytes (6 numbers above); (of more than 10 reads or writes of a descriptor the first 6 and last 4); every file call x each of 2 to 6 errnos, short transfers, short-then-full; the same with a second w after the failure; thorough: every pair of faults",
		Assumptions: []string{"a crash is the death of the process, not of the machine", "faults are injected in the system-call functions of Go's standard library, compiled in with -overlay; a call that bypasses them is not failed"},
		Setup:       func(e *core.Env) error { return fault.Build(e, "ed") },
		Init:        func(e *core.Env) { umask() },
		Spaces: func(e *core.Env) []core.Space {
			sc := scenarios()
			depth := core.Pick(e, 1, 2)
			return []core.Space{{Name: "faults", N: len(sc) * 2 * parts, Show: func(i int) string {
				i /= parts
				return fmt.Sprintf("%s, second w: %v", sc[i/2].name, i%2 == 1)
			}, Run: func(i int, t *core.T) {
				j := i / parts
				x := prepare(sc[j/2], j%2 == 1)
				x.part = i % parts
				_, calls, _ := run(t, x, "", true)
				if len(calls) == 0 {
					core.Must(fmt.Errorf("no system call was seen: the hooks are not in place"))
				}
				explore(t, x, "", -1, false, true, false, false, 0, depth)
			}}}
		},
	})
}
