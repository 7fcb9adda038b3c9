package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"sync"
	"time"

	"github.com/fwip/posix-utils/pkg/ed"
	"verif/mc/core"
	"verif/mc/edm"
)

// ctl is the environment of the editor: it decides when input arrives and how
// long each write takes.
type ctl struct {
	mu       sync.Mutex
	ver      int
	reading  bool
	inWrite  int
	overlap  bool
	changed  string
	done     bool
	out      []byte
	give     chan []byte
	release  chan bool
	rest     []byte
	eof      bool
	block    bool // writes wait for a release
	panicked any
}

func (c *ctl) Read(p []byte) (int, error) {
	if len(c.rest) == 0 && !c.eof {
		c.mu.Lock()
		c.reading = true
		c.ver++
		c.mu.Unlock()
		b, ok := <-c.give
		c.mu.Lock()
		c.reading = false
		c.ver++
		c.mu.Unlock()
		if !ok {
			c.eof = true
		}
		c.rest = b
	}
	if len(c.rest) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *ctl) Write(p []byte) (int, error) {
	before := append([]byte{}, p...)
	c.mu.Lock()
	c.inWrite++
	if c.inWrite > 1 {
		c.overlap = true
	}
	c.ver++
	block := c.block
	c.mu.Unlock()
	if block {
		<-c.release
	} else {
		runtime.Gosched()
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if !bytes.Equal(before, p) && c.changed == "" {
		c.changed = fmt.Sprintf("%q became %q", before, p)
	}
	c.out = append(c.out, p...)
	c.inWrite--
	c.ver++
	return len(p), nil
}

func (c *ctl) snap() (ver int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.ver
}

// quiet waits until no goroutine but this one can run (one processor).
func (c *ctl) quiet() {
	for {
		v := c.snap()
		for i := 0; i < 40; i++ {
			runtime.Gosched()
		}
		if c.snap() == v {
			return
		}
	}
}

// until waits (in real time, generously) for a condition that must come true.
func (c *ctl) until(f func() bool) bool {
	for k := 0; k < 300; k++ {
		c.quiet()
		c.mu.Lock()
		ok := f()
		c.mu.Unlock()
		if ok {
			return true
		}
		if k > 5 {
			time.Sleep(10 * time.Millisecond)
		}
	}
	return false
}

// plan is a script with the expected responses after each command.
type plan struct {
	script string
	ends   []int // offsets behind the commands
	items  []edm.Item
	quits  bool
}

func mkplan(ops []edm.Op, fs map[string]string) plan {
	var p plan
	st := &edm.State{FS: fs}
	for _, o := range ops {
		if st.Quit {
			p.script += o.Script()
			continue
		}
		p.script += o.Script()
		it := st.Run(o)
		if st.Quit {
			p.quits = true
			continue
		}
		p.ends = append(p.ends, len(p.script))
		p.items = append(p.items, it)
	}
	return p
}

// run executes the plan with the given division of the input; choose decides,
// whenever both are possible, whether the next event is an arrival (0) or the
// end of a write (1).
func run(t *core.T, p plan, cuts []int, choose func(n int) int) {
	c := &ctl{give: make(chan []byte), release: make(chan bool), block: choose != nil}
	go func() {
		defer func() {
			r := recover()
			c.mu.Lock()
			c.done, c.panicked = true, r
			c.ver++
			c.mu.Unlock()
		}()
		(&ed.Itor{}).ProcessCommands(c, c)
	}()
	defer func() { // let the goroutines go
		setYield(nil)
		for i := 0; i < 1000; i++ {
			c.quiet()
			c.mu.Lock()
			c.block = false
			w, r, d := c.inWrite, c.reading, c.done
			c.mu.Unlock()
			if w > 0 {
				c.release <- true
			} else if r {
				close(c.give)
				c.quiet()
				return
			} else if d && i > 3 {
				return
			}
		}
	}()
	sent := 0
	fail := func(f string, a ...any) {
		t.Failf("script %q, input divided at %v: %s; output so far %q, expected in the end %s", p.script, cuts, fmt.Sprintf(f, a...), c.out, edm.ShowItems(p.items))
	}
	closed := false
	for step := 0; step < 10000; step++ {
		c.quiet()
		t.Beat()
		c.mu.Lock()
		w, r, done, over, chg, pan := c.inWrite, c.reading, c.done, c.overlap, c.changed, c.panicked
		out := string(c.out)
		c.mu.Unlock()
		switch {
		case pan != nil:
			fail("panic: %v", pan)
			return
		case over:
			fail("two writes at the same time")
			return
		case chg != "":
			fail("bytes changed during a write: %s", chg)
			return
		}
		complete := 0
		for _, e := range p.ends {
			if e <= sent || closed {
				complete++
			}
		}
		if w == 0 {
			// everything written: exactly the commands that are complete are answered
			if !edm.Match(out, p.items[:complete]) {
				if !c.until(func() bool {
					out = string(c.out)
					return c.inWrite > 0 || edm.Match(out, p.items[:complete])
				}) {
					fail("after %d bytes of input (end of input: %v) the %d complete commands must be answered, and no more", sent, closed, complete)
					return
				}
				continue
			}
		}
		if done {
			if w > 0 {
				fail("ed stopped during a write")
				return
			}
			if sent < len(p.script) && !p.quits {
				fail("ed stopped before the end of its input")
			}
			return
		}
		if w > 0 && choose == nil {
			time.Sleep(time.Millisecond) // writes end by themselves
			continue
		}
		canRead := r && !closed && !(p.quits && sent >= len(p.script))
		if canRead && w > 0 {
			if choose(2) == 1 {
				c.release <- true
				t.Trans(1)
				continue
			}
		} else if w > 0 {
			c.release <- true
			t.Trans(1)
			continue
		} else if !canRead {
			// nothing can happen any more: ed must have stopped
			if !c.until(func() bool {
				return c.done || c.inWrite > 0 || (c.reading && !closed && !(p.quits && sent >= len(p.script)))
			}) {
				fail("ed neither stops nor goes on after its last command")
				return
			}
			continue
		}
		if sent == len(p.script) {
			close(c.give)
			closed = true
			t.Trans(1)
			continue
		}
		next := len(p.script)
		for _, k := range cuts {
			if k > sent {
				next = k
				break
			}
		}
		c.give <- []byte(p.script[sent:next])
		t.Trans(1)
		sent = next
	}
	fail("no end")
}
