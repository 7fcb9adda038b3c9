// C24: library objects used at the same time do not disturb each other.
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fwip/posix-utils/pkg/diff"
	"github.com/fwip/posix-utils/pkg/ed"
	"github.com/fwip/posix-utils/pkg/flag"
	"github.com/fwip/posix-utils/pkg/locale"
	"github.com/fwip/posix-utils/pkg/regexes"
	"github.com/fwip/posix-utils/pkg/tsort"
	"github.com/fwip/posix-utils/pkg/txt"
	"verif/mc/core"
	"verif/mc/edm"
)

var (
	setters      []func(func())
	instrumented []string
)

func setYield(f func()) {
	for _, s := range setters {
		s(f)
	}
}

// prog is a client of one library object. mk makes a new client: the steps and
// what it found wrong.
type prog struct {
	name string
	kind string
	mk   func(dir string) ([]func(), *string)
}

func bad(s *string, f string, a ...any) {
	if *s == "" {
		*s = fmt.Sprintf(f, a...)
	}
}

// piece tables: text inserted or a number of bytes deleted
type edit struct {
	at  int
	ins string
	del int
}

func table(name, orig string, edits ...edit) prog {
	return prog{name, "txt", func(string) ([]func(), *string) {
		var pt txt.PieceTable
		model := orig
		msg := new(string)
		if orig != "" {
			pt = txt.NewPieceTable(strings.NewReader(orig), len(orig))
		}
		steps := []func(){func() {
			if orig == "" {
				return
			}
			pt = txt.NewPieceTable(strings.NewReader(orig), len(orig))
		}}
		for _, e := range edits {
			steps = append(steps, func() {
				if e.ins != "" {
					b := []byte(e.ins)
					pt.Insert(b, e.at)
					for i := range b {
						b[i] = '#'
					}
					model = model[:e.at] + e.ins + model[e.at:]
				} else {
					pt.Delete(e.del, e.at)
					model = model[:e.at] + model[e.at+e.del:]
				}
				if got := pt.String(); got != model {
					bad(msg, "table %s: content %q, want %q", name, got, model)
				}
			})
		}
		return steps, msg
	}}
}

func pattern(name, re string, yes, no []string) prog {
	return prog{name, "regexes", func(string) ([]func(), *string) {
		msg := new(string)
		var b *regexes.Bre
		try := func(s string, want bool) func() {
			return func() {
				if b == nil {
					return
				}
				if got := b.Matches(s); got != want {
					bad(msg, "pattern %q on %q: %v", re, s, got)
				}
			}
		}
		steps := []func(){func() {
			var err error
			b, err = regexes.ParseBre(re)
			if err != nil {
				bad(msg, "pattern %q: %v", re, err)
			}
		}}
		for i := 0; i < len(yes) || i < len(no); i++ {
			if i < len(yes) {
				steps = append(steps, try(yes[i], true))
			}
			if i < len(no) {
				steps = append(steps, try(no[i], false))
			}
		}
		return steps, msg
	}}
}

func parser(name string, args []string, want string) prog {
	return prog{name, "flag", func(string) ([]func(), *string) {
		msg := new(string)
		var a, b bool
		var n int64 = 7
		s := "none"
		p := flag.Parser{Input: args}
		return []func(){
			func() { p.BoolVar(&a, 'a') },
			func() { p.BoolVar(&b, 'b'); p.IntVar(&n, 'n') },
			func() { p.StringVar(&s, 's') },
			func() {
				ops, err := p.Parse()
				got := fmt.Sprintf("%v %v %v %v %v", a, b, n, s, ops)
				if err != nil {
					got = "error"
				}
				if got != want {
					bad(msg, "arguments %q: %s, want %s", args, got, want)
				}
			},
		}, msg
	}}
}

func differ(name string, old, new []string) prog {
	return prog{name, "diff", func(string) ([]func(), *string) {
		msg := &[]string{""}[0]
		var script string
		return []func(){
			func() { script = diff.Format(diff.Diff(old, new)) },
			func() {
				if err := core.CheckDiff(script, old, new); err != nil {
					bad(msg, "diff of %q and %q: %v", old, new, err)
				}
			},
			func() { script = diff.Format(diff.Diff(new, old)) },
			func() {
				if err := core.CheckDiff(script, new, old); err != nil {
					bad(msg, "diff of %q and %q: %v", new, old, err)
				}
			},
		}, msg
	}}
}

func sorter(name string, cyclic bool, lists ...string) prog {
	return prog{name, "tsort", func(string) ([]func(), *string) {
		msg := new(string)
		var s tsort.Sorter
		var steps []func()
		words := map[string]bool{}
		var pairs [][2]string
		for _, l := range lists {
			f := strings.Fields(l)
			for i, w := range f {
				words[w] = true
				if i > 0 {
					pairs = append(pairs, [2]string{f[i-1], w})
				}
			}
			steps = append(steps, func() { s.Add(f) })
		}
		steps = append(steps, func() {
			out, err := s.Order()
			if cyclic {
				if err == nil {
					bad(msg, "%v: a cycle is not reported, order %q", lists, out)
				}
				return
			}
			pos := map[string]int{}
			for i, w := range out {
				pos[w] = i
			}
			ok := err == nil && len(out) == len(words) && len(pos) == len(words)
			for w := range words {
				_, in := pos[w]
				ok = ok && in
			}
			for _, p := range pairs {
				ok = ok && pos[p[0]] < pos[p[1]]
			}
			if !ok {
				bad(msg, "%v: order %q, error %v", lists, out, err)
			}
		})
		return steps, msg
	}}
}

func eras(name string, list ...string) prog {
	return prog{name, "locale", func(string) ([]func(), *string) {
		msg := new(string)
		var got []locale.Era
		var steps []func()
		for _, s := range list {
			steps = append(steps, func() {
				e, err := locale.NewEra(s)
				if err != nil {
					bad(msg, "%q: %v", s, err)
				}
				got = append(got, e)
			})
		}
		steps = append(steps, func() {
			if _, err := locale.NewEra("*" + list[0]); err == nil {
				bad(msg, "%q is accepted", "*"+list[0])
			}
			for i := range list {
				for j := range list {
					if x, y := fmt.Sprintf("%#v", got[i]), fmt.Sprintf("%#v", got[j]); (x == y) != (list[i] == list[j]) {
						bad(msg, "eras of %q and %q: %s and %s", list[i], list[j], x, y)
					}
				}
			}
		})
		return steps, msg
	}}
}

// an ed session that gets one command after the other
type conn struct {
	mu      sync.Mutex
	ver     int
	give    chan string
	rest    string
	eof     bool
	reading bool
	done    bool
	fail    string
	out     []byte
}

func (c *conn) note(f func()) {
	c.mu.Lock()
	f()
	c.ver++
	c.mu.Unlock()
}

func (c *conn) Read(p []byte) (int, error) {
	if c.rest == "" && !c.eof {
		c.note(func() { c.reading = true })
		s, ok := <-c.give
		c.note(func() { c.reading = false })
		c.rest, c.eof = s, !ok
	}
	if c.rest == "" {
		return 0, io.EOF
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	c.note(func() { c.out = append(c.out, p...) })
	return len(p), nil
}

// settle waits until the other goroutines wait (one processor).
func (c *conn) settle(ok func() bool) bool {
	for k := 0; k < 10000; k++ {
		c.mu.Lock()
		v := c.ver
		c.mu.Unlock()
		for i := 0; i < 40; i++ {
			runtime.Gosched()
		}
		c.mu.Lock()
		same := c.ver == v
		good := ok()
		c.mu.Unlock()
		if same && good {
			return true
		}
		if k > 50 {
			time.Sleep(time.Millisecond)
		}
	}
	return false
}

// fullSession: the whole script at once, for preemption between statements
var whole bool

func session(name string, files map[string]string, ops ...edm.Op) prog {
	return prog{name, "ed", func(dir string) ([]func(), *string) {
		msg := new(string)
		fs := map[string]string{}
		dir = filepath.Join(dir, name)
		core.Must(os.MkdirAll(dir, 0777))
		for n, s := range files {
			core.Must(os.WriteFile(filepath.Join(dir, n), []byte(s), 0666))
			fs[filepath.Join(dir, n)] = s
		}
		st := &edm.State{FS: fs}
		var items []edm.Item
		script := ""
		var lines []string
		for _, o := range append(append([]edm.Op{}, ops...), edm.Probe...) {
			o.Line = strings.ReplaceAll(o.Line, "DIR", dir)
			lines = append(lines, o.Script())
			script += o.Script()
			items = append(items, st.Run(o))
		}
		files := func() {
			for n, want := range st.FS {
				b, err := os.ReadFile(n)
				if err != nil || string(b) != want {
					bad(msg, "session %s: file %s holds %q (%v), want %q", name, filepath.Base(n), b, err, want)
				}
			}
		}
		if whole {
			return []func(){func() {
				var out bytes.Buffer
				(&ed.Itor{}).ProcessCommands(strings.NewReader(script), &out)
				if !edm.Match(out.String(), items) {
					bad(msg, "session %s: output %q, want %s", name, out.String(), edm.ShowItems(items))
				}
				files()
			}}, msg
		}
		c := &conn{give: make(chan string)}
		steps := []func(){func() {
			go func() {
				defer func() {
					if r := recover(); r != nil {
						c.note(func() { c.fail = fmt.Sprint("panic: ", r) })
					}
					c.note(func() { c.done = true })
				}()
				(&ed.Itor{}).ProcessCommands(c, c)
			}()
		}}
		for k, l := range lines {
			steps = append(steps, func() {
				if !c.settle(func() bool { return c.reading }) {
					bad(msg, "session %s: ed stopped reading before %q: %s", name, l, c.fail)
					return
				}
				c.give <- l
				if !c.settle(func() bool { return edm.Match(string(c.out), items[:k+1]) }) {
					bad(msg, "session %s: after %q the output is %q, want %s", name, l, c.out, edm.ShowItems(items[:k+1]))
				}
			})
		}
		steps = append(steps, func() {
			if c.settle(func() bool { return c.reading }) {
				close(c.give)
				c.settle(func() bool { return c.done })
			}
			files()
		})
		return steps, msg
	}}
}

func progs(e *core.Env) []prog {
	return []prog{
		table("t1", "alpha beta", edit{5, "-XYZ-", 0}, edit{2, "", 4}, edit{0, "<", 0}, edit{3, "q", 0}),
		table("t2", "", edit{0, "0123456789", 0}, edit{4, "abc", 0}, edit{3, "", 6}, edit{7, "!", 0}),
		table("t3", "the quick\nbrown fox\n", edit{0, "", 4}, edit{16, "", 0}, edit{6, "red ", 0}, edit{1, "", 15}),
		table("t4", "beta alpha", edit{5, "+xyz+", 0}, edit{2, "", 4}, edit{0, ">", 0}, edit{3, "r", 0}),
		pattern("r1", "^a*[bc]{2}$", []string{"bc", "aabb", "cc"}, []string{"abcb", "a", "xbb"}),
		pattern("r2", "x.y*", []string{"xay", "..xz", "xyyy"}, []string{"yx", "", "ax"}),
		pattern("r3", "[xy]{1,3}z", []string{"yz", "xxxz", "zyxz"}, []string{"z", "azx", "xy"}),
		pattern("r4", "ab*c", []string{"abbc", "xac"}, []string{"abbd", "ab"}),
		pattern("r5", "ab*d", []string{"abbd", "xad"}, []string{"abbc", "ab"}),
		parser("f1", []string{"-a", "-n", "12", "x", "y"}, "true false 12 none [x y]"),
		parser("f2", []string{"-b", "-s", "text", "--", "-a"}, "false true 7 text [-a]"),
		parser("f3", []string{"-a", "-q"}, "error"),
		differ("d1", []string{"a", "b", "c", "d"}, []string{"a", "x", "c", "e", "d"}),
		differ("d2", []string{"p", "q", "b"}, []string{"b", "p", "q", "b"}),
		differ("d3", []string{"a", "c", "b", "d"}, []string{"a", "y", "c", "f", "d"}),
		sorter("s1", false, "a b c", "b d", "e"),
		sorter("s2", false, "d b a", "c b"),
		sorter("s3", true, "a b c", "c b", "d"),
		eras("e1", "+:2:1990/01/01:+*:one:%EC %Ey", "-:1:1989/12/31:-*:two:%Ey:%EC", "+:2:1990/01/01:+*:one:%EC %Ey"),
		eras("e2", "-:2:1990/01/01:+*:one:%EC %Ey", "-:1:1989/12/31:-*:one:%Ey"),
		session("ed1", map[string]string{"f": "one\ntwo\nthree\n"}, edm.Op{Line: "e DIR/f"}, edm.Op{Line: "2d"}, edm.Op{Line: "1a", Text: []string{"new"}}, edm.Op{Line: "w DIR/f"}, edm.Op{Line: "/one/"}),
		session("ed2", map[string]string{"f": "x\n"}, edm.Op{Line: "a", Text: []string{"p", "q"}}, edm.Op{Line: "1i", Text: []string{"o"}}, edm.Op{Line: "$p"}, edm.Op{Line: "2,3n"}, edm.Op{Line: "w DIR/f"}, edm.Op{Line: "/o/"}),
		session("ed3", nil, edm.Op{Line: "a", Text: []string{"l1", "l2", "l3"}}, edm.Op{Line: "2c", Text: []string{"m"}}, edm.Op{Line: "9p"}, edm.Op{Line: "1,2d"}, edm.Op{Line: "="}),
	}
}

// for alternations ed's sessions are short
func short(ps []prog) []prog {
	out := []prog{
		session("es1", map[string]string{"f": "one\ntwo\n"}, edm.Op{Line: "e DIR/f"}, edm.Op{Line: "2d"}, edm.Op{Line: "w DIR/f"}),
		session("es2", nil, edm.Op{Line: "a", Text: []string{"p", "q"}}, edm.Op{Line: "1i", Text: []string{"o"}}, edm.Op{Line: "2p"}),
		session("es3", map[string]string{"f": "x\n"}, edm.Op{Line: "a", Text: []string{"l1", "l2", "l3"}}, edm.Op{Line: "w DIR/f"}, edm.Op{Line: "/l3/"}),
	}
	for _, p := range ps {
		if p.kind != "ed" {
			out = append(out, p)
		}
	}
	return out
}

// meet runs two clients at the same time with preemptions at the given points.
func meet(t *core.T, a, b prog, at []int) (points int) {
	dir := t.Env.Work
	whole = true
	as, am := a.mk(filepath.Join(dir, "a"))
	bs, bm := b.mk(filepath.Join(dir, "b"))
	n := 0
	setYield(func() {
		k := n
		n++
		for _, p := range at {
			if p == k {
				for i := 0; i < 60; i++ {
					runtime.Gosched()
				}
			}
		}
	})
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		defer catch(am)
		go func() { // ready from the beginning, runs at the first preemption
			defer wg.Done()
			defer catch(bm)
			for _, s := range bs {
				s()
			}
		}()
		for _, s := range as {
			s()
		}
	}()
	wg.Wait()
	setYield(nil)
	t.Trans(len(as) + len(bs))
	t.Trace()
	if *am+*bm != "" {
		t.Failf("%s and %s at the same time, preempted at points %v: %s %s", a.name, b.name, at, *am, *bm)
	}
	return n
}

func catch(m *string) {
	if r := recover(); r != nil {
		bad(m, "panic: %v", r)
	}
}

// rivals: two editors save to the same file, the first one preempted at the
// given points.
func rivals(t *core.T, x, y string, at []int) (points int) {
	dir := filepath.Join(t.Env.Work, "rivals")
	core.Must(os.RemoveAll(dir))
	core.Must(os.MkdirAll(dir, 0777))
	f := filepath.Join(dir, "f")
	core.Must(os.WriteFile(f, []byte("before\n"), 0666))
	n := 0
	setYield(func() {
		k := n
		n++
		for _, p := range at {
			if p == k {
				for i := 0; i < 60; i++ {
					runtime.Gosched()
				}
			}
		}
	})
	msg := [2]string{}
	var wg sync.WaitGroup
	wg.Add(2)
	client := func(i int, text string, first func()) {
		defer wg.Done()
		defer catch(&msg[i])
		first()
		st := &edm.State{FS: map[string]string{f: "before\n"}}
		var items []edm.Item
		script := ""
		for _, o := range []edm.Op{{Line: "a", Text: strings.Split(strings.TrimSuffix(text, "\n"), "\n")}, {Line: "w " + f}, {Line: "$p"}} {
			script += o.Script()
			items = append(items, st.Run(o))
		}
		var out bytes.Buffer
		(&ed.Itor{}).ProcessCommands(strings.NewReader(script), &out)
		if !edm.Match(out.String(), items) {
			bad(&msg[i], "output %q, want %s", out.String(), edm.ShowItems(items))
		}
	}
	go client(0, x, func() { go client(1, y, func() {}) })
	wg.Wait()
	setYield(nil)
	t.Trans(6)
	t.Trace()
	b, err := os.ReadFile(f)
	if err != nil || string(b) != x && string(b) != y {
		bad(&msg[0], "the file holds %q (%v)", b, err)
	}
	if l, _ := os.ReadDir(dir); len(l) != 1 {
		bad(&msg[0], "files left: %v", l)
	}
	if msg[0]+msg[1] != "" {
		t.Failf("two editors save %q and %q to one file, preempted at points %v: %s; %s", x, y, at, msg[0], msg[1])
	}
	return n
}

// schedules explores all schedules with up to bound preemptions.
func schedules(t *core.T, a, b prog, bound int) {
	var rec func(at []int)
	rec = func(at []int) {
		total := meet(t, a, b, at)
		if len(at) == bound {
			return
		}
		from := 0
		if len(at) > 0 {
			from = at[len(at)-1] + 1
		}
		for k := from; k < total; k++ {
			if t.Failed() || t.Late() {
				return
			}
			rec(append(append([]int{}, at...), k))
		}
	}
	rec(nil)
	t.State(a.name + " " + b.name)
}

// merge runs the steps of the two clients in every order.
func merges(t *core.T, ps []prog) {
	whole = false
	count := make([]int, len(ps))
	for i, p := range ps {
		s, _ := p.mk(filepath.Join(t.Env.Work, fmt.Sprint("m", i)))
		count[i] = len(s)
	}
	order := []int{}
	var rec func()
	rec = func() {
		if t.Failed() || t.Late() {
			return
		}
		full := true
		for i := range ps {
			if count[i] > 0 {
				full = false
				count[i]--
				order = append(order, i)
				rec()
				order = order[:len(order)-1]
				count[i]++
			}
		}
		if !full {
			return
		}
		var steps [][]func()
		var msgs []*string
		for i, p := range ps {
			s, m := p.mk(filepath.Join(t.Env.Work, fmt.Sprint("m", i)))
			steps, msgs = append(steps, s), append(msgs, m)
		}
		for _, i := range order {
			func() {
				defer catch(msgs[i])
				steps[i][0]()
			}()
			steps[i] = steps[i][1:]
		}
		t.Trans(len(order))
		t.Trace()
		var names []string
		for i, m := range msgs {
			names = append(names, ps[i].name)
			if *m != "" {
				t.Failf("%v in the order %v: %s", names, order, *m)
			}
		}
	}
	rec()
	t.State(ps[0].name + ps[1].name)
}

// crowd runs many clients at once: in turn, in turn backwards, nested or with
// their last steps in the opposite order.
func crowd(t *core.T, ps []prog, copies, how int) {
	whole = false
	var steps [][]func()
	var msgs []*string
	var names []string
	for c := 0; c < copies; c++ {
		for _, p := range ps {
			s, m := p.mk(filepath.Join(t.Env.Work, fmt.Sprint("c", c)))
			steps, msgs, names = append(steps, s), append(msgs, m), append(names, p.name)
		}
	}
	do := func(i int) {
		if len(steps[i]) == 0 {
			return
		}
		defer catch(msgs[i])
		s := steps[i][0]
		steps[i] = steps[i][1:]
		s()
		t.Trans(1)
	}
	n := len(steps)
	for round := 0; round < 20; round++ {
		for k := 0; k < n; k++ {
			switch how {
			case 0:
				do(k)
			case 1:
				do(n - 1 - k)
			case 2: // alternately
				if round%2 == 0 {
					do(k)
				} else {
					do(n - 1 - k)
				}
			case 3: // one and a half at a time
				do(k)
				do((k + n/2) % n)
				do(k)
			}
		}
	}
	t.Trace()
	for i, m := range msgs {
		if len(steps[i]) > 0 {
			core.Must(fmt.Errorf("%s is not finished", names[i]))
		}
		if *m != "" {
			t.Failf("%s among %d clients in order %d: %s", names[i], n, how, *m)
		}
	}
	t.State(fmt.Sprint(copies, how))
}

var rivalTexts = [][2]string{{"left\n", "right hand\n"}, {"a much longer text\nof two lines\n", "s\n"}, {"same\n", "same\n"}}

func main() {
	sort.Strings(instrumented)
	core.Main(core.Check{
		ID:          "C24",
		Bounds:      "23 clients (piece tables, patterns, option parsers, diffs, sorters, eras, ed sessions with files) of 7 packages with a preemption point before every statement of the hand-written code: all ordered pairs, all schedules with 1 preemption, with 2 for two clients of one package (thorough: always); all orders of the operations of two clients of one package (thorough: of any two); 23 to 920 clients at once in 4 orders; two locale definitions parsed in one process in all 6 orders of making the lexers and parsing, for all pairs of 5 definitions; two editors saving to one file, all schedules with 1 (2) preemptions",
		Assumptions: []string{"one processor, so that a schedule is a sequence of switches at statements; data races inside a statement are not explored", "preempted clients run again when the other ends or is preempted"},
		Setup:       buildHelper,
		Init: func(e *core.Env) {
			runtime.GOMAXPROCS(1)
			edm.Quiet2(e)
		},
		Spaces: func(e *core.Env) []core.Space {
			ps := progs(e)
			qs := short(ps)
			n := len(qs)
			type pair struct{ a, b, bound int }
			var pairs []pair
			for a := range ps {
				for b := range ps {
					bound := 1
					if ps[a].kind == ps[b].kind && (ps[a].kind != "ed" || e.Thorough()) || e.Thorough() {
						bound = 2
					}
					pairs = append(pairs, pair{a, b, bound})
				}
			}
			return []core.Space{
				{Name: "preemptions", N: len(pairs), Show: func(i int) string { return fmt.Sprintf("%s and %s", ps[pairs[i].a].name, ps[pairs[i].b].name) },
					Run: func(i int, t *core.T) { schedules(t, ps[pairs[i].a], ps[pairs[i].b], pairs[i].bound) }},
				{Name: "alternations", N: n * n, Show: func(i int) string { return qs[i/n].name + " and " + qs[i%n].name },
					Run: func(i int, t *core.T) {
						if qs[i/n].kind == qs[i%n].kind || e.Thorough() {
							merges(t, []prog{qs[i/n], qs[i%n]})
						}
					}},
				{Name: "crowd", N: 4 * 4, Show: func(i int) string { return fmt.Sprintf("%d of each client, order %d", []int{1, 3, 10, 40}[i/4], i%4) },
					Run: func(i int, t *core.T) { crowd(t, qs, []int{1, 3, 10, 40}[i/4], i%4) }},
				{Name: "same-file", N: 3 * 600, Show: func(i int) string { return fmt.Sprintf("%q, first preemption at point %d", rivalTexts[i%3], i/3) },
					Run: func(i int, t *core.T) {
						x, y := rivalTexts[i%3][0], rivalTexts[i%3][1]
						total := rivals(t, x, y, nil)
						for k := i / 3; k < total && !t.Failed(); k += 600 {
							n := rivals(t, x, y, []int{k})
							for j := k + 1; e.Thorough() && j < n && !t.Failed() && !t.Late(); j++ {
								rivals(t, x, y, []int{k, j})
							}
						}
						t.State(fmt.Sprint(i))
					}},
				definitions(e),
			}
		},
	})
}
