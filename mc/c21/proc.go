package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"verif/mc/core"
)

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

var cur *proc

func start(e *core.Env) *proc {
	p := &proc{cmd: exec.Command(e.Bin("helper")), err: &bytes.Buffer{}}
	p.cmd.Env = []string{"GOTRACEBACK=single"}
	p.cmd.Stderr = p.err
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	p.in, err = p.cmd.StdinPipe()
	core.Must(err)
	o, err := p.cmd.StdoutPipe()
	core.Must(err)
	p.out = bufio.NewReader(o)
	core.Must(p.cmd.Start())
	return p
}

// parse tells whether the parser accepts the definition.
func parse(t *core.T, def string) (accepted, ok bool) {
	if cur == nil {
		cur = start(t.Env)
	}
	p := cur
	hung := false
	tm := time.AfterFunc(25*time.Second, func() { hung = true; p.cmd.Process.Kill() })
	fmt.Fprintf(p.in, "%d\n%s", len(def), def)
	a, err := p.out.ReadString('\n')
	tm.Stop()
	t.Trans(1)
	t.Trace()
	if err != nil {
		p.in.Close()
		p.cmd.Wait()
		cur = nil
		msg := p.err.String()
		switch {
		case hung || strings.Contains(msg, "out of memory") || strings.Contains(msg, "cannot allocate memory"):
			t.Failf("parsing does not end: %q", def)
			return false, false
		case strings.Contains(msg, "deadlock!"):
			t.Failf("parsing blocks for ever: %q", def)
			return false, false
		case p.cmd.ProcessState.ExitCode() == 90:
			core.Must(fmt.Errorf("helper protocol: %s", msg))
		}
		return false, true
	}
	return a == "A\n", true
}
