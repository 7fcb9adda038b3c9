// C06: responses of ed under every timing.
package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"verif/mc/core"
	"verif/mc/edm"
)

func alphabet(e *core.Env) ([]edm.Op, map[string]string) {
	f := filepath.Join(e.Scratch, "file")
	return []edm.Op{
		{Line: "a", Text: []string{"xx", "y"}}, {Line: "z", Bad: true}, {Line: "p"}, {Line: "1,$n"}, {Line: "9p"}, {Line: "$d"}, {Line: "0i", Text: []string{"p"}}, {Line: "="}, {Line: ""}, {Line: "e " + f}, {Line: "1c"}, {Line: "?p", Bad: true}, {Line: "q"},
	}, map[string]string{f: "one\ntwo\n"}
}

func small() []edm.Op {
	return []edm.Op{{Line: "a", Text: []string{"x"}}, {Line: "z", Bad: true}, {Line: "="}, {Line: "p"}, {Line: "9"}, {Line: "q"}, {Line: ",n"}, {Line: "a"}}
}

// search explores all outcomes of the choices made by body.
func search(t *core.T, limit int, body func(choose func(n int) int)) int {
	var path, width []int
	runs := 0
	for {
		k := 0
		body(func(n int) int {
			if k == len(path) {
				path, width = append(path, 0), append(width, n)
			}
			v := path[k]
			k++
			return v
		})
		runs++
		t.Trace()
		if t.Failed() {
			return runs
		}
		path, width = path[:k], width[:k]
		for k > 0 && path[k-1]+1 >= width[k-1] {
			k--
		}
		if k == 0 || runs >= limit {
			return runs
		}
		path, width = path[:k], width[:k]
		path[k-1]++
	}
}

// preempt runs the plan with up to bound preemptions at instrumented points.
func preempt(t *core.T, p plan, cuts []int, block bool, bound int) {
	var rec func(at []int)
	rec = func(at []int) {
		n := 0
		setYield(func() {
			for _, a := range at {
				if a == n {
					n++
					for i := 0; i < 60; i++ {
						runtime.Gosched()
					}
					return
				}
			}
			n++
		})
		var choose func(int) int
		if block {
			choose = func(int) int { return 0 }
		}
		run(t, p, cuts, choose)
		t.Trace()
		total := n
		if t.Failed() {
			t.Failf("preempted at %v", at)
			return
		}
		if len(at) == bound {
			return
		}
		from := 0
		if len(at) > 0 {
			from = at[len(at)-1] + 1
		}
		for k := from; k < total; k++ {
			rec(append(append([]int{}, at...), k))
			if t.Failed() {
				return
			}
		}
	}
	rec(nil)
}

func lineCuts(s string) []int {
	var c []int
	for i := range s {
		if s[i] == '\n' {
			c = append(c, i+1)
		}
	}
	return c
}

func everyByte(s string) []int {
	var c []int
	for i := 1; i < len(s); i++ {
		c = append(c, i)
	}
	return c
}

// program runs the binary, sending each command only after the previous one
// has been answered.
func program(t *core.T, ops []edm.Op, fs map[string]string, step bool) {
	p := mkplan(ops, fs)
	if !step {
		r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("ed"), Stdin: p.script, Dir: t.Env.Work})
		t.Trans(1)
		t.Trace()
		if r.Hung || r.Code != 0 || !edm.Match(r.Out, p.items) {
			t.Failf("script %q: exit %d hung %v, standard output %q, want %s", p.script, r.Code, r.Hung, r.Out, edm.ShowItems(p.items))
		}
		return
	}
	cmd := exec.Command(t.Env.Bin("ed"))
	cmd.Dir = t.Env.Work
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	core.Must(err)
	outp, err := cmd.StdoutPipe()
	core.Must(err)
	core.Must(cmd.Start())
	lines := make(chan string, 1000)
	go func() {
		br := bufio.NewReader(outp)
		for {
			s, err := br.ReadString('\n')
			if s != "" {
				lines <- s
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	defer func() {
		cmd.Process.Kill()
		for range lines {
		}
		cmd.Wait()
	}()
	out := ""
	prev := 0
	for k, end := range p.ends {
		io.WriteString(in, p.script[prev:end])
		prev = end
		deadline := time.After(30 * time.Second)
		for !edm.Match(out, p.items[:k+1]) {
			select {
			case l, ok := <-lines:
				if !ok {
					t.Failf("script %q: ed stopped after command %d with output %q, want %s", p.script, k+1, out, edm.ShowItems(p.items))
					return
				}
				out += l
			case <-deadline:
				t.Failf("script %q: command %d is not answered while ed waits for more input; output %q, want %s", p.script, k+1, out, edm.ShowItems(p.items[:k+1]))
				return
			}
			t.Beat()
		}
		t.Trans(1)
	}
	if p.quits {
		io.WriteString(in, p.script[prev:]) // the pipe stays open
	} else {
		in.Close()
	}
	deadline := time.After(30 * time.Second)
	for {
		select {
		case l, ok := <-lines:
			if ok {
				out += l
				continue
			}
			if !edm.Match(out, p.items) {
				t.Failf("script %q: output %q, want %s", p.script, out, edm.ShowItems(p.items))
			}
			t.Trace()
			return
		case <-deadline:
			t.Failf("script %q: ed does not stop; output %q", p.script, out)
			return
		}
	}
}

func main() {
	core.Main(core.Check{
		ID:          "C06",
		Bounds:      "scripts: all sequences of up to 3 commands from 13; arrival by command, by line, by byte and in every division into 2 (3) pieces, and every division of all scripts of up to 10 (13) bytes; every order of arrivals and ends of writes; every placement of 1 (2) preemptions at statement granularity; all sequences of 3 of 8 commands on lines of 5 (18) sizes up to 70000 (140000) bytes in every order; the ed binary run in lock step, also with 750 commands; each of 49 pairs of commands repeated up to 130 times in 12 regular timings",
		Assumptions: []string{"scheduling is explored with one processor: goroutines switch at blocking operations, at controlled reads and writes, and at preemption points inserted before each statement of pkg/ed at build time (if they cannot be inserted, only at the others)", "an answer counts as missing after 3 s without any possible progress"},
		Setup: func(e *core.Env) error {
			core.Must(os.WriteFile(filepath.Join(e.Scratch, "file"), []byte("one\ntwo\n"), 0644))
			if !instrumented {
				fmt.Println("note: preemption points could not be inserted on this tree")
			}
			return core.BuildCmd(e, "ed")
		},
		Init: func(e *core.Env) {
			if e.Worker {
				edm.Quiet()
				runtime.GOMAXPROCS(1)
			}
		},
		Spaces: func(e *core.Env) []core.Space {
			al, fs := alphabet(e)
			mk := func(alpha []edm.Op, i, min, max int) []edm.Op {
				var o []edm.Op
				for _, d := range core.Seq(i, len(alpha), min, max) {
					o = append(o, alpha[d])
				}
				return o
			}
			cp := func() map[string]string {
				m := map[string]string{}
				for k, v := range fs {
					m[k] = v
				}
				return m
			}
			// nothing follows q except in the program space: the rest would only leak goroutines
			ok := func(o []edm.Op) bool {
				for i, x := range o {
					if x.Line == "q" && i < len(o)-1 {
						return false
					}
				}
				return true
			}
			n3 := core.SeqN(len(al), 1, 3)
			show3 := func(i int) string { return edm.ShowOps(mk(al, i, 1, 3)) }
			var sp []core.Space
			sp = append(sp, core.Space{Name: "arrivals", N: n3, Show: show3, Run: func(i int, t *core.T) {
				o := mk(al, i, 1, 3)
				if !ok(o) {
					return
				}
				p := mkplan(o, cp())
				t.State(p.script)
				t.Outcome(fmt.Sprintf("%d responses", len(p.items)))
				run(t, p, nil, nil)
				run(t, p, p.ends, nil)
				run(t, p, lineCuts(p.script), nil)
				run(t, p, everyByte(p.script), nil)
				for a := 1; a < len(p.script) && !t.Failed(); a++ {
					run(t, p, []int{a}, nil)
				}
				for k := 0; k < 4+len(p.script)-1; k++ {
					t.Trace()
				}
			}})
			// every order of arrivals and ends of writes
			sp = append(sp, core.Space{Name: "orders", N: n3, Show: show3, Run: func(i int, t *core.T) {
				o := mk(al, i, 1, 3)
				if !ok(o) {
					return
				}
				p := mkplan(o, cp())
				for _, cuts := range [][]int{p.ends, lineCuts(p.script), nil} {
					n := search(t, 20000, func(choose func(int) int) { run(t, p, cuts, choose) })
					t.Outcome(fmt.Sprintf("%d schedules", n))
				}
			}})
			sm := small()
			n4 := core.SeqN(len(sm), 4, core.Pick(e, 4, 5))
			mx := core.Pick(e, 4, 5)
			sp = append(sp, core.Space{Name: "orders-longer", N: n4, Show: func(i int) string { return edm.ShowOps(mk(sm, i, 4, mx)) }, Run: func(i int, t *core.T) {
				o := mk(sm, i, 4, mx)
				if !ok(o) {
					return
				}
				p := mkplan(o, nil)
				search(t, 20000, func(choose func(int) int) { run(t, p, p.ends, choose) })
			}})
			// all divisions of short scripts
			limit := core.Pick(e, 10, 13)
			var shorts []plan
			for i := 0; i < core.SeqN(len(sm), 1, 4); i++ {
				o := mk(sm, i, 1, 4)
				if p := mkplan(o, nil); ok(o) && len(p.script) <= limit {
					shorts = append(shorts, p)
				}
			}
			sp = append(sp, core.Space{Name: "divisions", N: len(shorts), Show: func(i int) string { return fmt.Sprintf("%q", shorts[i].script) }, Run: func(i int, t *core.T) {
				p := shorts[i]
				for m := 0; m < 1<<(len(p.script)-1) && !t.Failed(); m++ {
					var cuts []int
					for b := 0; b < len(p.script)-1; b++ {
						if m>>b&1 == 1 {
							cuts = append(cuts, b+1)
						}
					}
					run(t, p, cuts, nil)
					t.Trace()
				}
			}})
			if instrumented {
				bound := core.Pick(e, 1, 2)
				n2 := core.SeqN(len(sm), 1, core.Pick(e, 3, 2))
				mm := core.Pick(e, 3, 2)
				sp = append(sp, core.Space{Name: "preemptions", N: n2, Show: func(i int) string { return edm.ShowOps(mk(sm, i, 1, mm)) }, Run: func(i int, t *core.T) {
					o := mk(sm, i, 1, mm)
					if !ok(o) {
						return
					}
					p := mkplan(o, nil)
					preempt(t, p, nil, false, bound)
					preempt(t, p, p.ends, true, bound)
					preempt(t, p, nil, true, bound)
				}})
				rich := [][]edm.Op{
					{{Line: "a", Text: []string{"xx", "yy"}}, {Line: "0a", Text: []string{"zz"}}, {Line: ",n"}},
					{{Line: "z", Bad: true}, {Line: "9"}, {Line: "z", Bad: true}, {Line: "="}},
					{al[9], {Line: "a", Text: []string{"long line of text"}}, {Line: "z", Bad: true}, {Line: ",p"}},
					{{Line: "a", Text: []string{"1", "2", "3"}}, {Line: "1,2d"}, {Line: "p"}, {Line: "q"}},
				}
				sp = append(sp, core.Space{Name: "preemptions-rich", N: len(rich) * 3, Show: func(i int) string { return edm.ShowOps(rich[i/3]) }, Run: func(i int, t *core.T) {
					p := mkplan(rich[i/3], cp())
					switch i % 3 {
					case 0:
						preempt(t, p, nil, false, bound)
					case 1:
						preempt(t, p, lineCuts(p.script), true, bound)
					case 2:
						preempt(t, p, nil, true, bound)
					}
				}})
			}
			np := core.SeqN(len(al), 1, 2)
			sp = append(sp, core.Space{Name: "program", N: np * 2, Show: func(i int) string { return edm.ShowOps(mk(al, i/2, 1, 2)) }, Run: func(i int, t *core.T) {
				program(t, mk(al, i/2, 1, 2), cp(), i%2 == 1)
			}})
			// long scripts: each pair of commands repeated, in every regular arrival
			reps := []int{2, 3, 5, 9, 17, 40, 130}
			lg := func(i int) plan {
				d := core.Radix(i, len(sm)-1, len(sm)-1, len(reps))
				var o []edm.Op
				pick := func(k int) edm.Op {
					if sm[k].Line == "q" {
						k++
					}
					return sm[k]
				}
				for k := 0; k < reps[d[2]]; k++ {
					o = append(o, pick(d[0]), pick(d[1]))
				}
				if d[0]%2 == 1 {
					o = append(o, edm.Op{Line: "q"})
				}
				return mkplan(o, nil)
			}
			sp = append(sp, core.Space{Name: "long-scripts", N: core.Prod(len(sm)-1, len(sm)-1, len(reps)), Show: func(i int) string { return fmt.Sprintf("%.60q..., %d bytes", lg(i).script, len(lg(i).script)) }, Run: func(i int, t *core.T) {
				p := lg(i)
				var half []int
				for k, e := range p.ends {
					if k%3 == 0 && e+1 < len(p.script) {
						half = append(half, e+1)
					}
				}
				first := func(int) int { return 0 }
				last := func(int) int { return 1 }
				n := 0
				third := func(int) int { n++; return n % 3 % 2 }
				for _, cuts := range [][]int{nil, p.ends, half} {
					for _, ch := range []func(int) int{nil, first, last, third} {
						if t.Failed() {
							return
						}
						run(t, p, cuts, ch)
						t.Trace()
					}
				}
			}})
			// large responses and long commands
			bsz := core.Pick(e, []int{500, 1025, 4097, 9000, 70000}, []int{100, 255, 257, 500, 513, 1025, 2049, 4095, 4096, 4097, 8193, 9000, 16385, 32769, 65535, 65537, 70000, 140000})
			bc := []edm.Op{{Line: ",p"}, {Line: "1p"}, {Line: "z", Bad: true}, {Line: "="}, {Line: ",n"}, {Line: "LONG", Bad: true}, {Line: "a", Text: []string{"t"}}, {Line: "q"}}
			bl := []int{len(bsz), len(bc), len(bc), len(bc)}
			sp = append(sp, core.Space{Name: "large-responses", N: core.Prod(bl...), Show: func(i int) string {
				d := core.Radix(i, bl...)
				return fmt.Sprintf("a of %d bytes, %v %v %v", bsz[d[0]], bc[d[1]], bc[d[2]], bc[d[3]])
			}, Run: func(i int, t *core.T) {
				d := core.Radix(i, bl...)
				o := []edm.Op{{Line: "a", Text: []string{strings.Repeat("x", bsz[d[0]]), "second"}}}
				for _, k := range d[1:] {
					c := bc[k]
					if c.Line == "LONG" {
						c.Line = strings.Repeat("z", bsz[d[0]]%20000)
					}
					o = append(o, c)
				}
				if !ok(o) {
					return
				}
				p := mkplan(o, nil)
				for _, cuts := range [][]int{p.ends, nil} {
					search(t, 20000, func(choose func(int) int) { run(t, p, cuts, choose) })
					if !t.Failed() {
						run(t, p, cuts, nil)
					}
				}
			}})
			long := strings.Repeat("x", 70000)
			bigs := [][]edm.Op{
				{{Line: "a", Text: []string{long, "y"}}, {Line: "2="}, {Line: "1p"}},
				{{Line: "a", Text: []string{"x"}}, {Line: "z", Bad: true}, {Line: "p"}, {Line: "9"}, {Line: "="}, {Line: "q"}, {Line: "p"}, {Line: "a", Text: []string{"q"}}},
			}
			for _, n := range []int{20, 150} {
				var o []edm.Op
				for k := 0; k < n; k++ {
					o = append(o, edm.Op{Line: "a", Text: []string{fmt.Sprint("l", k)}}, edm.Op{Line: "z", Bad: true}, edm.Op{Line: "p"}, edm.Op{Line: fmt.Sprint(k + 2)}, edm.Op{Line: "="})
				}
				bigs = append(bigs, o)
			}
			sp = append(sp, core.Space{Name: "program-long", N: len(bigs) * 2, Show: func(i int) string { return "long script" }, Run: func(i int, t *core.T) { program(t, bigs[i/2], nil, i%2 == 1) }})
			return sp
		},
	})
}
