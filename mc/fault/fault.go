// Package fault builds the commands of /repo with a standard library whose
// system-call functions first ask a hook that can fail, shorten or end the
// process at any call, as the environment of the process says:
//
//	VERIF_CLASS  std: all calls except those on standard error;
//	             files: only calls that are not on descriptors 0 to 2
//	VERIF_FAULT  INDEX=ACTION[;...], INDEX counting the calls of the class from 0:
//	             e5 fail with errno 5, p5 perform the call and fail with errno 5,
//	             s3 transfer at most 3 bytes, t3 transfer 3 bytes and be killed,
//	             b be killed before the call, a be killed after the call
//	VERIF_LOG    file to which the calls are logged
package fault

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/mc/core"
)

type fn struct {
	file, name string
	params     string // as declared
	args       string
	results    string
	fd, path   string // expressions for the hook
	n          string // transfer length, or ""
	clip       string // statement shortening the transfer to f.n
	ret        string // returned values before the error on failure
}

var fns = []fn{
	{name: "openat", params: "dirfd int, path string, flags int, mode uint32", args: "dirfd, path, flags, mode", results: "fd int, err error", fd: "-1", path: "path", n: "flags", ret: "-1, "},
	{name: "read", params: "fd int, p []byte", args: "fd, p", results: "n int, err error", fd: "fd", n: "len(p)", clip: "p = p[:f.n]", ret: "-1, "},
	{name: "write", params: "fd int, p []byte", args: "fd, p", results: "n int, err error", fd: "fd", n: "len(p)", clip: "p = p[:f.n]", ret: "-1, "},
	{name: "pread", params: "fd int, p []byte, offset int64", args: "fd, p, offset", results: "n int, err error", fd: "fd", n: "len(p)", clip: "p = p[:f.n]", ret: "-1, "},
	{name: "pwrite", params: "fd int, p []byte, offset int64", args: "fd, p, offset", results: "n int, err error", fd: "fd", n: "len(p)", clip: "p = p[:f.n]", ret: "-1, "},
	{name: "Close", params: "fd int", args: "fd", results: "err error", fd: "fd"},
	{name: "Fsync", params: "fd int", args: "fd", results: "err error", fd: "fd"},
	{name: "Fdatasync", params: "fd int", args: "fd", results: "err error", fd: "fd"},
	{name: "Fchmod", params: "fd int, mode uint32", args: "fd, mode", results: "err error", fd: "fd"},
	{name: "Fchown", params: "fd int, uid int, gid int", args: "fd, uid, gid", results: "err error", fd: "fd"},
	{name: "Fchownat", params: "dirfd int, path string, uid int, gid int, flags int", args: "dirfd, path, uid, gid, flags", results: "err error", fd: "-1", path: "path"},
	{name: "fchmodat", params: "dirfd int, path string, mode uint32", args: "dirfd, path, mode", results: "err error", fd: "-1", path: "path"},
	{name: "fchmodat2", params: "dirfd int, path string, mode uint32, flags int", args: "dirfd, path, mode, flags", results: "err error", fd: "-1", path: "path"},
	{name: "Ftruncate", params: "fd int, length int64", args: "fd, length", results: "err error", fd: "fd"},
	{name: "Truncate", params: "path string, length int64", args: "path, length", results: "err error", fd: "-1", path: "path"},
	{name: "Renameat", params: "olddirfd int, oldpath string, newdirfd int, newpath string", args: "olddirfd, oldpath, newdirfd, newpath", results: "err error", fd: "-1", path: "oldpath"},
	{name: "linkat", params: "olddirfd int, oldpath string, newdirfd int, newpath string, flags int", args: "olddirfd, oldpath, newdirfd, newpath, flags", results: "err error", fd: "-1", path: "oldpath"},
	{name: "symlinkat", params: "oldpath string, newdirfd int, newpath string", args: "oldpath, newdirfd, newpath", results: "err error", fd: "-1", path: "oldpath"},
	{name: "unlinkat", params: "dirfd int, path string, flags int", args: "dirfd, path, flags", results: "err error", fd: "-1", path: "path"},
	{name: "Mkdirat", params: "dirfd int, path string, mode uint32", args: "dirfd, path, mode", results: "err error", fd: "-1", path: "path"},
	{name: "fstatat", params: "fd int, path string, stat *Stat_t, flags int", args: "fd, path, stat, flags", results: "err error", fd: "-1", path: "path"},
	{name: "Fstat", params: "fd int, stat *Stat_t", args: "fd, stat", results: "err error", fd: "fd"},
	{name: "sendfile", params: "outfd int, infd int, offset *int64, count int", args: "outfd, infd, offset, count", results: "written int, err error", fd: "outfd", n: "count", clip: "count = f.n", ret: "-1, "},
	{name: "Splice", params: "rfd int, roff *int64, wfd int, woff *int64, len int, flags int", args: "rfd, roff, wfd, woff, len, flags", results: "n int64, err error", fd: "wfd", n: "len", clip: "len = f.n", ret: "-1, "},
	{file: "unix", name: "CopyFileRange", params: "rfd int, roff *int64, wfd int, woff *int64, len int, flags int", args: "rfd, roff, wfd, woff, len, flags", results: "n int, err error", fd: "wfd", n: "len", clip: "len = f.n", ret: "-1, "},
}

const hook = `package syscall

import "sync"

type verifFault struct {
	at    int
	act   byte
	n     int
	errno Errno
}

var (
	verifOnce  sync.Once
	verifMu    sync.Mutex
	verifPlan  []verifFault
	verifStd   bool
	verifOn    bool
	verifLogTo string
	verifCount int
)

func verifNum(s string, i *int) int {
	n := 0
	for *i < len(s) && s[*i] >= '0' && s[*i] <= '9' {
		n = n*10 + int(s[*i]-'0')
		*i++
	}
	return n
}

func verifInit() {
	class, ok := Getenv("VERIF_CLASS")
	if !ok {
		return
	}
	verifOn = true
	verifStd = class == "std"
	verifLogTo, _ = Getenv("VERIF_LOG")
	s, _ := Getenv("VERIF_FAULT")
	for i := 0; i < len(s); {
		var f verifFault
		f.at = verifNum(s, &i)
		i++ // =
		f.act = s[i]
		i++
		f.n = verifNum(s, &i)
		i++ // ;
		verifPlan = append(verifPlan, f)
	}
}

func verifItoa(b []byte, n int) []byte {
	if n < 0 {
		b = append(b, '-')
		n = -n
	}
	if n >= 10 {
		b = verifItoa(b, n/10)
	}
	return append(b, byte('0'+n%10))
}

// VerifDie ends the process at once.
func VerifDie() {
	pid := Getpid()
	for {
		RawSyscall(SYS_KILL, uintptr(pid), 9, 0)
	}
}

// VerifFault is what is to happen to a call.
type VerifFault struct {
	Act   byte
	N     int
	Fail  bool
	Clip  bool
	After bool // be killed
	Err   bool // fail after having performed the call
	Errno Errno
}

// VerifEnter is called before every call.
func VerifEnter(name string, fd int, path string, n int) (v VerifFault) {
	verifOnce.Do(verifInit)
	if !verifOn || fd == 2 {
		return
	}
	verifMu.Lock()
	k := -1
	if verifStd || fd > 2 || fd < 0 {
		k = verifCount
		verifCount++
	}
	if verifLogTo != "" {
		lfd, err := verifReal_openat(-100, verifLogTo, O_WRONLY|O_CREAT|O_APPEND, 0666)
		if err == nil {
			b := verifItoa(nil, k)
			b = append(b, ' ')
			b = append(b, name...)
			b = append(b, ' ')
			b = verifItoa(b, fd)
			b = append(b, ' ')
			b = verifItoa(b, n)
			b = append(b, ' ')
			b = append(b, path...)
			b = append(b, '\n')
			verifReal_write(lfd, b)
			verifReal_Close(lfd)
		}
	}
	verifMu.Unlock()
	if k < 0 {
		return
	}
	for _, f := range verifPlan {
		if f.at != k && f.at != 999999 {
			continue
		}
		v.Act, v.N = f.act, f.n
		switch f.act {
		case 'e':
			v.Fail, v.Errno = true, Errno(f.n)
		case 'p':
			v.Err, v.Errno = true, Errno(f.n)
		case 's':
			v.Clip = v.N < n
		case 't':
			v.Clip = v.N < n
			v.After = true
			if v.N == 0 {
				VerifDie()
			}
		case 'b':
			VerifDie()
		case 'a':
			v.After = true
		}
	}
	return
}
`

func wrapper(f fn) string {
	pre, pkg := "", ""
	if f.file == "unix" {
		pkg = "syscall."
	}
	_ = pre
	path, n := f.path, f.n
	if path == "" {
		path = `""`
	}
	if n == "" {
		n = "0"
	}
	names := ""
	for i, r := range strings.Split(f.results, ",") {
		if i > 0 {
			names += ", "
		}
		names += strings.Fields(r)[0]
	}
	s := fmt.Sprintf("\nfunc %s(%s) (%s) {\n\tf := %sVerifEnter(%q, %s, %s, %s)\n", f.name, f.params, f.results, pkg, f.name, f.fd, path, n)
	s += fmt.Sprintf("\tif f.Fail {\n\t\treturn %sf.Errno\n\t}\n", f.ret)
	if f.clip != "" {
		s += "\tif f.Clip {\n\t\t" + strings.ReplaceAll(f.clip, "f.n", "f.N") + "\n\t}\n"
	}
	s += fmt.Sprintf("\t%s = verifReal_%s(%s)\n", names, f.name, f.args)
	s += "\tif f.After {\n\t\t" + pkg + "VerifDie()\n\t}\n"
	s += "\tif f.Err {\n\t\terr = f.Errno\n\t}\n\treturn\n}\n"
	return s
}

// Overlay writes the files and returns the overlay description for go build.
func Overlay(e *core.Env, extra map[string]string) (string, error) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Dir = filepath.Join(e.Verif, "mc")
	cmd.Env = core.GoEnv()
	b, err := cmd.Output()
	if err != nil {
		return "", err
	}
	root := strings.TrimSpace(string(b))
	dir := filepath.Join(e.Scratch, "fault")
	core.Must(os.MkdirAll(dir, 0777))
	over := map[string]string{}
	for k, v := range extra {
		over[k] = v
	}
	done := 0
	for _, part := range []struct{ key, rel string }{
		{"", "src/syscall/zsyscall_linux_amd64.go"},
		{"unix", "src/internal/syscall/unix/copy_file_range_unix.go"},
	} {
		p := filepath.Join(root, part.rel)
		src, err := os.ReadFile(p)
		if err != nil {
			return "", err
		}
		s := string(src)
		for _, f := range fns {
			if f.file != part.key {
				continue
			}
			old := fmt.Sprintf("\nfunc %s(%s) (%s) {", f.name, f.params, f.results)
			if strings.Count(s, old) != 1 {
				return "", fmt.Errorf("%s: %s is not declared as expected", p, f.name)
			}
			s = strings.Replace(s, old, strings.Replace(old, "func ", "func verifReal_", 1), 1) + wrapper(f)
			done++
		}
		o := filepath.Join(dir, filepath.Base(part.rel))
		core.Must(os.WriteFile(o, []byte(s), 0666))
		over[p] = o
	}
	o := filepath.Join(dir, "hook.go")
	core.Must(os.WriteFile(o, []byte(hook), 0666))
	over[filepath.Join(root, "src/syscall/zz_verif_hook.go")] = o
	j, _ := json.Marshal(map[string]any{"Replace": over})
	of := filepath.Join(dir, "overlay.json")
	core.Must(os.WriteFile(of, j, 0666))
	return of, nil
}

// Build builds commands with the hooks.
func Build(e *core.Env, names ...string) error {
	of, err := Overlay(e, nil)
	if err != nil {
		return err
	}
	for _, n := range names {
		if err := core.BuildCmd(e, n, "-overlay", of); err != nil {
			return err
		}
	}
	return nil
}

// Call is a logged call.
type Call struct {
	K    int // index, -1 if it does not count
	Name string
	FD   int
	N    int
	Path string
}

// ReadLog parses and removes a log.
func ReadLog(p string) []Call {
	b, _ := os.ReadFile(p)
	os.Remove(p)
	var out []Call
	for _, l := range strings.Split(strings.TrimSuffix(string(b), "\n"), "\n") {
		var c Call
		w := strings.SplitN(l, " ", 5)
		if len(w) != 5 {
			continue
		}
		fmt.Sscan(w[0], &c.K)
		c.Name = w[1]
		fmt.Sscan(w[2], &c.FD)
		fmt.Sscan(w[3], &c.N)
		c.Path = w[4]
		out = append(out, c)
	}
	return out
}
