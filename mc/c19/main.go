// C19: kill, run as an unprivileged user of its own among recording targets.
package main

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/mc/core"
)

// A target is a sleep process that has all signals blocked, so that every
// signal sent to it stays visible as pending.
type target struct {
	cmd  *exec.Cmd
	dead string
}

func uid() uint32 { return uint32(200000 + os.Getpid()%1000000) }

func start() *target { return startAs(uid()) }

func startAs(uid uint32) *target {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	all := ^uint64(0)
	var old uint64
	syscall.RawSyscall6(syscall.SYS_RT_SIGPROCMASK, 2, uintptr(unsafe.Pointer(&all)), uintptr(unsafe.Pointer(&old)), 8, 0, 0)
	cmd := exec.Command("/bin/sleep", "1000")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uid, Gid: uid}, Setsid: true, Pdeathsig: syscall.SIGKILL}
	err := cmd.Start()
	syscall.RawSyscall6(syscall.SYS_RT_SIGPROCMASK, 2, uintptr(unsafe.Pointer(&old)), 0, 8, 0, 0)
	core.Must(err)
	return &target{cmd: cmd}
}

// received is the set of signals sent to the target.
func (t *target) received() string {
	for try := 0; ; try++ {
		if t.dead != "" {
			return t.dead
		}
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", t.cmd.Process.Pid))
		core.Must(err)
		var set uint64
		state, name := "", ""
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) < 2 {
				continue
			}
			switch f[0] {
			case "Name:":
				name = f[1]
			case "State:":
				state = f[1]
			case "SigPnd:", "ShdPnd:":
				n, err := strconv.ParseUint(f[1], 16, 64)
				core.Must(err)
				set |= n
			}
		}
		_ = name
		if state == "Z" || state == "X" {
			var ws syscall.WaitStatus
			syscall.Wait4(t.cmd.Process.Pid, &ws, 0, nil)
			if ws.Signaled() {
				t.dead = fmt.Sprintf("[%d]", int(ws.Signal()))
			} else {
				t.dead = fmt.Sprintf("[exited %d]", ws.ExitStatus())
			}
			return t.dead
		}
		var l []string
		for s := 1; s <= 64; s++ {
			if set>>(s-1)&1 == 1 {
				l = append(l, strconv.Itoa(s))
			}
		}
		if state == "T" {
			l = append(l, "19")
		}
		return fmt.Sprintf("%v", l)
	}
}

func (t *target) stop() {
	t.cmd.Process.Kill()
	t.cmd.Process.Wait()
}

const ghost = "99999999" // no such process number can exist

var table = map[string]int{"HUP": 1, "INT": 2, "QUIT": 3, "ABRT": 6, "KILL": 9, "ALRM": 14, "TERM": 15, "0": 0}

// model: which signal goes to A and to B; skip if the meaning is open
func model(args []string) (sig int, a, b, ok, skip bool) {
	sig = 15
	specs, pids := 0, 0
	ghosts := false
	for i := 0; i < len(args); i++ {
		x := args[i]
		switch {
		case x == "-s":
			specs++
			i++
			if i == len(args) {
				return 0, false, false, false, pids > 0 || specs > 1
			}
			n, found := table[strings.ToUpper(args[i])]
			if pids > 0 || specs > 1 {
				return 0, false, false, false, true
			}
			if !found {
				return 0, false, false, false, false
			}
			sig = n
		case strings.HasPrefix(x, "-"):
			specs++
			if pids > 0 || specs > 1 {
				return 0, false, false, false, true
			}
			n, err := strconv.Atoi(x[1:])
			if err != nil || n < 0 || n > 64 {
				// still parse the rest: everything is an error anyway
				return 0, false, false, false, false
			}
			sig = n
		case x == "A":
			a = true
			pids++
		case x == "B":
			b = true
			pids++
		case x == ghost:
			ghosts = true
			pids++
		default:
			return 0, false, false, false, false
		}
	}
	if pids == 0 {
		return 0, false, false, false, false
	}
	return sig, a, b, !ghosts, false
}

// invalid reports whether the whole command line must be refused without sending
func refused(args []string) bool {
	_, a, b, ok, skip := model(args)
	return !skip && !ok && !a && !b && !hasGhostOnly(args)
}

func hasGhostOnly(args []string) bool {
	for _, x := range args {
		if x == ghost {
			return true
		}
	}
	return false
}

func try(t *core.T, args []string) {
	sig, ma, mb, ok, skip := model(args)
	if skip {
		t.Outcome("skipped: several signals or a signal after a process")
		return
	}
	A, B, C := start(), start(), start()
	defer A.stop()
	defer B.stop()
	defer C.stop()
	real := make([]string, len(args))
	for i, x := range args {
		switch x {
		case "A":
			x = strconv.Itoa(A.cmd.Process.Pid)
		case "B":
			x = strconv.Itoa(B.cmd.Process.Pid)
		default:
			if strings.Contains(x, "A") && odd[x] {
				pid := A.cmd.Process.Pid
				x = strings.NewReplacer("A+2^32", fmt.Sprint(pid+1<<32), "A+2^33", fmt.Sprint(pid+1<<33), "A+2^31", fmt.Sprint(pid+1<<31), "A+2^63", fmt.Sprint(uint64(pid)+1<<63), "A-2^32", fmt.Sprint(pid-1<<32), "A+2^64", new(big.Int).Add(big.NewInt(int64(pid)), new(big.Int).Lsh(big.NewInt(1), 64)).String(), "hexA", fmt.Sprintf("0x%x", pid), "A", fmt.Sprint(pid)).Replace(x)
			}
		}
		real[i] = x
	}
	r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("kill"), Args: real, Cred: &syscall.Credential{Uid: uid(), Gid: uid()}, Setsid: true, Dir: "/"})
	want := func(m bool) string {
		if !m || sig == 0 {
			return "[]"
		}
		return fmt.Sprintf("[%d]", sig)
	}
	if sig == 9 {
		// a fatal signal is visible at once as pending or as death; wait for the expected death
		for i := 0; i < 2000; i++ {
			if (!ma || A.received() == "[9]") && (!mb || B.received() == "[9]") {
				break
			}
			time.Sleep(time.Millisecond)
		}
	}
	ga, gb, gc := A.received(), B.received(), C.received()
	t.Trans(1)
	t.Trace()
	t.State(fmt.Sprint(args, ga, gb))
	t.Outcome(fmt.Sprintf("signals %s %s", ga, gb))
	if ga != want(ma) || gb != want(mb) || gc != "[]" {
		t.Failf("kill %q: targets received A %s, B %s, bystander %s; want A %s, B %s, bystander []; %v", args, ga, gb, gc, want(ma), want(mb), r)
		return
	}
	if r.Hung || (r.Code == 0) != ok || !ok && r.Err == "" {
		t.Failf("kill %q: %v, want success=%v", args, r, ok)
	}
}

// operands that are no process numbers, though they hold the digits of one
var odd = map[string]bool{}

func init() {
	for _, x := range odds {
		odd[x] = true
	}
}

var odds = []string{"A+2^32", "A+2^33", "A+2^31", "A+2^63", "A+2^64", " A", "A ", "A\n", "\tA", "hexA", "A.", "A.0", "A,", "A;", "Ae0", "A_0", "'A'", "A/", "#A", "A\x00"[:1] + "é", "２A"}

// queued is the number of signals waiting for processes of this user.
func (t *target) queued() int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", t.cmd.Process.Pid))
	core.Must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "SigQ:" {
			n, err := strconv.Atoi(strings.Split(f[1], "/")[0])
			core.Must(err)
			return n
		}
	}
	return -1
}

// many: n targets, of which those in the mask are named, in the given order;
// extra operands among them are a process that does not exist and one that may
// not be signalled
func many(t *core.T, n int, step int, sig string, extra int, form int) {
	num := 15
	var args []string
	switch {
	case sig == "":
	case sig[0] == '-':
		num, _ = strconv.Atoi(sig[1:])
		args = append(args, sig)
	default:
		num = table[sig]
		args = append(args, "-s", sig)
	}
	var ts []*target
	for i := 0; i < n; i++ {
		ts = append(ts, start())
	}
	foreign := startAs(uid() + 2000000)
	defer func() {
		for _, x := range append(ts, foreign) {
			x.stop()
		}
	}()
	named := make([]bool, n)
	var ops []string
	for i := 0; i < n; i++ {
		k := i * step % n
		if (k+1)%3 == 0 || named[k] {
			continue
		}
		named[k] = true
		p := strconv.Itoa(ts[k].cmd.Process.Pid)
		if form == 1 {
			p = "0" + p
		} else if form == 2 {
			p = "000000" + p
		}
		ops = append(ops, p)
		if len(ops) == extra {
			ops = append(ops, ghost)
		}
		if len(ops) == extra-100 {
			ops = append(ops, strconv.Itoa(foreign.cmd.Process.Pid))
		}
	}
	count := 0
	for _, b := range named {
		if b {
			count++
		}
	}
	good := true
	for _, o := range ops {
		if o == ghost || o == strconv.Itoa(foreign.cmd.Process.Pid) {
			good = false
		}
	}
	r := t.Env.Exec(core.Ex{Bin: t.Env.Bin("kill"), Args: append(args, ops...), Cred: &syscall.Credential{Uid: uid(), Gid: uid()}, Setsid: true, Dir: "/"})
	t.Trans(1)
	t.Trace()
	if num >= 34 {
		if q := ts[0].queued(); q != count {
			t.Failf("kill %v of %d processes: %d signals were sent", args, count, q)
			return
		}
	}
	for k, x := range ts {
		want := "[]"
		if named[k] && num != 0 {
			want = fmt.Sprintf("[%d]", num)
		}
		if got := x.received(); got != want {
			t.Failf("kill %v %v: target %d of %d (%d) received %s, want %s; %v", args, ops, k, n, x.cmd.Process.Pid, got, want, r)
			return
		}
	}
	if got := foreign.received(); got != "[]" {
		t.Failf("kill %v %v: the process of another user received %s", args, ops, got)
	}
	t.State(fmt.Sprint(n, step, sig, extra, form, r.Code))
	if r.Hung || (r.Code == 0) != good || !good && r.Err == "" {
		t.Failf("kill %v %v: %v, want success=%v", args, ops, r, good)
	}
}

func main() {
	core.Main(core.Check{
		ID:          "C19",
		Bounds:      "all argument lists of up to 3 (4) from 20 (-s, names in several cases, bad names, numbers, two live targets, a missing process, malformed numbers); every signal number 0..64 and 65.. as -n; every name of the table in 3 letter cases, for one and two targets; 31 operands that are no process numbers (too large by 2^31 to 2^64, with blanks, hexadecimal, ...) in 5 places x 5 signals; up to 19 targets (13 named, in two orders, with leading zeros) with a missing and a foreign process among them, real-time signals counted",
		Assumptions: []string{"one signal specification, before the process numbers", "sending the same signal twice is distinguished from once for real-time signals only", "-l, -NAME and negative process numbers are outside the property", "signal names beyond those in the program's table are not exercised"},
		Setup:       func(e *core.Env) error { return core.BuildCmd(e, "kill") },
		Spaces: func(e *core.Env) []core.Space {
			alpha := []string{"-s", "TERM", "hup", "Int", "KILL", "FOO", "0", "A", "B", ghost, "-9", "-15", "-0", "-65", "-x", "-", "", "12x", "1.5", "QUIT"}
			m := core.Pick(e, 3, 4)
			mk := func(i int) []string {
				a := []string{}
				for _, d := range core.Seq(i, len(alpha), 0, m) {
					a = append(a, alpha[d])
				}
				return a
			}
			var lists [][]string
			ends := [][]string{{"A"}, {"B", "A"}, {"A", ghost, "B"}, {"A", "x"}, {"x", "A"}, {"A", "B", "0"}, {"A", "", "B"}, {}}
			for _, end := range ends {
				for n := 0; n <= 64; n++ {
					lists = append(lists, append([]string{fmt.Sprintf("-%d", n)}, end...))
				}
				for _, n := range []string{"-65", "-99", "-256", "--1", "-1x", "-+", "-4294967297", "-9999999999999999999"} {
					lists = append(lists, append([]string{n}, end...))
				}
				for _, n := range []string{"HUP", "INT", "QUIT", "ABRT", "KILL", "ALRM", "TERM", "0"} {
					for _, v := range []string{n, strings.ToLower(n), strings.Title(strings.ToLower(n))} {
						lists = append(lists, append([]string{"-s", v}, end...))
					}
				}
				for _, v := range []string{"", "X", "TER", "TERMX", "-s", "é"} {
					lists = append(lists, append([]string{"-s", v}, end...))
				}
				lists = append(lists, end)
			}
			for _, sig := range [][]string{nil, {"-0"}, {"-12"}, {"-s", "HUP"}, {"-s", "KILL"}} {
				for _, x := range append(append([]string{}, odds...), "4294967295", "4294967296", "4294967294", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0", "00") {
					for _, l := range [][]string{{x}, {x, "B"}, {"B", x}, {x, x}, {"B", "A", x}} {
						lists = append(lists, append(append([]string{}, sig...), l...))
					}
				}
			}
			ns := []int{1, 2, 4, 5, 7, 10, 16, 19}
			steps := []int{1, 3}
			sigs := []string{"", "HUP", "-0", "-12", "-40", "-64", "0", "-015", "-034"}
			extras := []int{0, 1, 2, 3, 101, 102, 103}
			dims := []int{len(ns), len(steps), len(sigs), len(extras), 3}
			return []core.Space{
				{Name: "many", N: core.Prod(dims...), Run: func(i int, t *core.T) {
					d := core.Radix(i, dims...)
					many(t, ns[d[0]], steps[d[1]], sigs[d[2]], extras[d[3]], d[4])
				}, Show: func(i int) string {
					d := core.Radix(i, dims...)
					return fmt.Sprintf("%d targets, step %d, signal %q, other operand %d, form %d", ns[d[0]], steps[d[1]], sigs[d[2]], extras[d[3]], d[4])
				}},
				{Name: "signals", N: len(lists), Run: func(i int, t *core.T) { try(t, lists[i]) }, Show: func(i int) string { return fmt.Sprintf("kill %q", lists[i]) }},
				{Name: "arguments", N: core.SeqN(len(alpha), 0, m), Run: func(i int, t *core.T) { try(t, mk(i)) }, Show: func(i int) string { return fmt.Sprintf("kill %q", mk(i)) }},
			}
		},
	})
}
