package core

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Radix decodes i as mixed-radix digits (first digit varies fastest).
func Radix(i int, dims ...int) []int {
	out := make([]int, len(dims))
	for k, d := range dims {
		out[k] = i % d
		i /= d
	}
	return out
}

// Prod is the size of a mixed-radix space.
func Prod(dims ...int) int {
	n := 1
	for _, d := range dims {
		n *= d
	}
	return n
}

// SeqN is the number of sequences of length min..max over k symbols.
func SeqN(k, min, max int) int {
	n := 0
	p := 1
	for l := 0; l <= max; l++ {
		if l >= min {
			n += p
		}
		p *= k
	}
	return n
}

// Seq returns the i-th such sequence, shortest first.
func Seq(i, k, min, max int) []int {
	p := 1
	for l := 0; l <= max; l++ {
		if l >= min {
			if i < p {
				out := make([]int, l)
				for j := l - 1; j >= 0; j-- {
					out[j] = i % k
					i /= k
				}
				return out
			}
			i -= p
		}
		p *= k
	}
	panic("sequence index out of range")
}

// Strs is every string over the alphabet with length min..max, shortest first.
func Strs(alpha []string, min, max int) []string {
	n := SeqN(len(alpha), min, max)
	out := make([]string, n)
	for i := range out {
		var b strings.Builder
		for _, d := range Seq(i, len(alpha), min, max) {
			b.WriteString(alpha[d])
		}
		out[i] = b.String()
	}
	return out
}

// GoEnv is the environment for building from the working tree, offline.
func GoEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0")
}

// BuildCmd builds a command of /repo into the scratch directory.
func BuildCmd(e *Env, name string, extra ...string) error {
	return BuildCmdAs(e, name, name, extra...)
}

// BuildCmdAs is BuildCmd with another output name.
func BuildCmdAs(e *Env, name, out string, extra ...string) error {
	args := append([]string{"build", "-o", filepath.Join(e.Scratch, "bin", out)}, extra...)
	args = append(args, "github.com/fwip/posix-utils/cmd/"+name)
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(e.Verif, "mc")
	cmd.Env = GoEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building cmd/%s: %v\n%s", name, err, b)
	}
	return nil
}

// Bin is the path of a command built by BuildCmd.
func (e *Env) Bin(name string) string { return filepath.Join(e.Scratch, "bin", name) }

// Result of a command.
type Result struct {
	Out, Err string
	Code     int // exit status, 128+n if killed by signal n
	Hung     bool
}

func (r Result) String() string {
	return fmt.Sprintf("exit=%d hung=%v stdout=%q stderr=%q", r.Code, r.Hung, clip(r.Out, 400), clip(r.Err, 400))
}

// Ex describes one execution.
type Ex struct {
	Bin     string
	Argv0   string
	Args    []string
	Stdin   string   // contents, unless StdinF
	StdinF  *os.File // used as is
	OutF    *os.File // stdout goes there instead
	Env     []string // nil: empty environment
	Dir     string
	Timeout time.Duration
	Cred    *syscall.Credential
	Setsid  bool
	Files   int // at most so many open files, if positive

	closeIn, closeOut bool
}

// Lead is what a command's standard input and output hold, in half of the
// runs, before the place where they stand when the command starts: text that
// was read and written by somebody else.
const Lead = "a lead\nb lead\n"

// ambient are variables that no utility but locale has a use for
var ambient = []string{"LINES=2", "COLUMNS=20", "POSIXLY_CORRECT=1", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent", "TERM=dumb", "PS1=$ ", "x=y", "a=b"}

// led tells whether a run has the lead.  It depends on what is run only.
func (e *Env) led(x Ex) bool {
	h := fnv.New32a()
	for _, s := range append([]string{x.Bin, x.Stdin}, x.Args...) {
		io.WriteString(h, filepath.Base(strings.ReplaceAll(s, e.Work, ""))+"\x00")
	}
	return bits.OnesCount32(h.Sum32())%2 == 1
}

// Exec runs a command with files as its standard streams.
func (e *Env) Exec(x Ex) Result {
	in := x.StdinF
	lead := ""
	if e.led(x) {
		lead = Lead
	}
	if in == nil {
		if x.Stdin == "" && lead == "" {
			f, err := os.Open(os.DevNull)
			must(err)
			in = f
		} else {
			p := filepath.Join(e.Work, ".in")
			must(os.WriteFile(p, []byte(lead+x.Stdin), 0666))
			f, err := os.Open(p)
			must(err)
			if lead != "" {
				_, err := f.Seek(int64(len(lead)), io.SeekStart)
				must(err)
			}
			in = f
		}
		defer in.Close()
	}
	out := x.OutF
	if out == nil {
		f, err := os.OpenFile(filepath.Join(e.Work, ".out"), os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0666)
		must(err)
		_, err = f.WriteString(lead)
		must(err)
		out = f
		defer f.Close()
	}
	ef, err := os.OpenFile(filepath.Join(e.Work, ".err"), os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0666)
	must(err)
	defer ef.Close()
	env := x.Env
	if env == nil {
		env = []string{}
		if lead != "" && filepath.Base(x.Bin) != "locale" {
			env = ambient
		}
	}
	dir := x.Dir
	if dir == "" {
		dir = e.Work
	}
	if x.Files > 0 {
		x.Args = append([]string{"-c", fmt.Sprintf(`ulimit -n %d && exec "$@"`, x.Files), "sh", x.Bin}, x.Args...)
		x.Bin = "/bin/sh"
	}
	argv0 := x.Argv0
	if argv0 == "" {
		argv0 = x.Bin
	}
	to := x.Timeout
	if to == 0 {
		to = 40 * time.Second
	}
	p, err := os.StartProcess(x.Bin, append([]string{argv0}, x.Args...), &os.ProcAttr{
		Dir: dir, Env: env, Files: []*os.File{in, out, ef}, Sys: &syscall.SysProcAttr{Credential: x.Cred, Setsid: x.Setsid},
	})
	must(err)
	if x.closeIn {
		in.Close()
	}
	if x.closeOut {
		out.Close()
	}
	hung := false
	tm := time.AfterFunc(to, func() { hung = true; p.Signal(syscall.SIGKILL) })
	st, err := p.Wait()
	tm.Stop()
	must(err)
	r := Result{Hung: hung}
	ws := st.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		r.Code = 128 + int(ws.Signal())
	} else {
		r.Code = ws.ExitStatus()
	}
	if x.OutF == nil {
		// whatever has become of the lead shows up as output
		r.Out = strings.TrimPrefix(slurp(out), lead)
	}
	r.Err = slurp(ef)
	return r
}

func slurp(f *os.File) string {
	st, err := f.Stat()
	must(err)
	if st.Size() == 0 {
		return ""
	}
	b := make([]byte, st.Size())
	n, _ := f.ReadAt(b, 0)
	return string(b[:n])
}

// Crashed tells whether the result is a Go panic or a death by signal.
func (r Result) Crashed() bool {
	return r.Code > 128 || r.Code == 2 && (strings.Contains(r.Err, "\ngoroutine ") || strings.HasPrefix(r.Err, "panic:"))
}

// Write creates a file in the worker's directory and returns its path.
func (e *Env) Write(name, data string) string {
	p := filepath.Join(e.Work, name)
	old, err := os.ReadFile(p)
	if err == nil && bytes.Equal(old, []byte(data)) {
		return p
	}
	must(os.WriteFile(p, []byte(data), 0666))
	return p
}

// Must ends the check with an error of the check.
func Must(err error) { must(err) }
