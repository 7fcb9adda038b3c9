package core

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"time"
)

// Giant inputs are longer than a 32-bit count of bytes can hold.  They are
// sparse files or generated streams, so that they cost time but no space.

// GiantTime bounds a run on a giant input; a run that takes longer says nothing.
const GiantTime = 150 * time.Second

// GiantOK tells whether there is room even for a program that reads two giant
// inputs into memory.
func GiantOK() bool {
	b, err := os.ReadFile("/proc/meminfo")
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 1 && f[0] == "MemAvailable:" {
			n, _ := strconv.Atoi(f[1])
			return n > 20<<20
		}
	}
	return false
}

// Unjudged tells whether a run on a giant input ended for want of time or memory.
func (r Result) Unjudged() bool {
	return r.Hung || r.Code == 128+9 || strings.Contains(r.Err, "out of memory")
}

// Sparse makes a file of NUL bytes except at the given offsets.
func Sparse(path string, size int64, marks map[int64]byte) {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
	must(err)
	must(f.Truncate(size))
	for at, b := range marks {
		_, err := f.WriteAt([]byte{b}, at)
		must(err)
	}
	must(f.Close())
}

// CheckSparse compares a stream with such a file.
func CheckSparse(r io.Reader, size int64, marks map[int64]byte) error {
	buf := make([]byte, 1<<16)
	zero := string(make([]byte, 1<<16))
	at := int64(0)
	for {
		n, err := r.Read(buf)
		special := false
		for m := range marks {
			special = special || m >= at && m < at+int64(n)
		}
		if special {
			for i := 0; i < n; i++ {
				if buf[i] != marks[at+int64(i)] {
					return fmt.Errorf("byte %d is %#x, want %#x", at+int64(i), buf[i], marks[at+int64(i)])
				}
			}
		} else if string(buf[:n]) != zero[:n] {
			return fmt.Errorf("a byte from %d to %d is not NUL", at, at+int64(n))
		}
		at += int64(n)
		if err == io.EOF {
			if at != size {
				return fmt.Errorf("%d bytes, want %d", at, size)
			}
			return nil
		}
		if err != nil {
			return err
		}
	}
}

// ExecStream runs a command with standard output (and, with feed, standard
// input) connected to pipes.
func (e *Env) ExecStream(x Ex, feed func(*bufio.Writer), check func(io.Reader) error) (Result, error) {
	if feed != nil {
		r, w, err := os.Pipe()
		must(err)
		x.StdinF, x.closeIn = r, true
		go func() {
			b := bufio.NewWriterSize(w, 1<<18)
			feed(b)
			b.Flush()
			w.Close()
		}()
	}
	r, w, err := os.Pipe()
	must(err)
	x.OutF, x.closeOut = w, true
	verdict := make(chan error, 1)
	go func() {
		err := check(r)
		io.Copy(io.Discard, r)
		r.Close()
		verdict <- err
	}()
	res := e.Exec(x)
	return res, <-verdict
}
