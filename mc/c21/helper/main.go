// helper parses definitions: each is preceded by its length in decimal and a
// newline; the answer is A (accepted) or R (rejected). It may also die.
package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"syscall"

	"github.com/fwip/posix-utils/pkg/locale"
)

func parse(s string) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return locale.VerifParse(s) == 0
}

func main() {
	lim := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	in := bufio.NewReader(os.Stdin)
	out := os.Stdout
	os.Stdout = os.Stderr
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			return
		}
		n, err := strconv.Atoi(strings.TrimSpace(l))
		if err != nil {
			os.Exit(90)
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(in, b); err != nil {
			os.Exit(90)
		}
		if parse(string(b)) {
			fmt.Fprintln(out, "A")
		} else {
			fmt.Fprintln(out, "R")
		}
	}
}
