package core

import (
	"io"
	"os"
	"syscall"
	"time"
	"unsafe"
)

func fionread(fd uintptr) int {
	var n int32
	syscall.Syscall(syscall.SYS_IOCTL, fd, 0x541B, uintptr(unsafe.Pointer(&n)))
	return int(n)
}

// ExecChunks runs a command whose standard input is a pipe on which the chunks
// arrive one by one, each after the previous one has been consumed.  With hold,
// the pipe stays open until the command ends.
func (e *Env) ExecChunks(x Ex, chunks []string, hold bool) Result {
	r, w, err := os.Pipe()
	must(err)
	x.StdinF = r
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer w.Close()
		for i, c := range chunks {
			if i > 0 {
				t := time.Now()
				for fionread(w.Fd()) > 0 && time.Since(t) < 2*time.Second {
					time.Sleep(30 * time.Microsecond)
					select {
					case <-stop:
						return
					default:
					}
				}
				time.Sleep(60 * time.Microsecond)
			}
			if _, err := w.WriteString(c); err != nil {
				return
			}
		}
		if hold {
			<-stop
		}
	}()
	x.closeIn = true
	res := e.Exec(x)
	close(stop)
	<-done
	return res
}

// ExecOutPipe runs a command whose standard output is a pipe.
func (e *Env) ExecOutPipe(x Ex) Result {
	r, w, err := os.Pipe()
	must(err)
	x.OutF = w
	x.closeOut = true
	out := make(chan string, 1)
	go func() {
		b, _ := io.ReadAll(r)
		r.Close()
		out <- string(b)
	}()
	res := e.Exec(x)
	res.Out = <-out
	return res
}

// Compositions returns all ways to divide s into consecutive non-empty chunks.
func Compositions(s string) [][]string {
	if s == "" {
		return [][]string{{}}
	}
	n := len(s)
	var out [][]string
	for m := 0; m < 1<<(n-1); m++ {
		var c []string
		st := 0
		for i := 1; i < n; i++ {
			if m>>(i-1)&1 == 1 {
				c = append(c, s[st:i])
				st = i
			}
		}
		out = append(out, append(c, s[st:]))
	}
	return out
}
