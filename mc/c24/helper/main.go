// helper ORDER DEF1 DEF2: parses two locale definitions in one process. ORDER
// says what happens when: a digit makes the lexer of that definition or, the
// second time, parses it. It prints A (accepted) or R for each definition.
package main

import (
	"fmt"
	"os"
	"runtime"

	"github.com/fwip/posix-utils/pkg/locale"
)

func main() {
	runtime.GOMAXPROCS(1)
	out := os.Stdout
	os.Stdout = os.Stderr
	var l [2]*locale.Lexer
	res := [2]string{"-", "-"}
	for _, c := range os.Args[1] {
		k := int(c - '1')
		if l[k] == nil {
			l[k] = locale.NewLexer(os.Args[2+k])
			continue
		}
		res[k] = "R"
		if locale.VerifParseLexer(l[k]) == 0 {
			res[k] = "A"
		}
	}
	fmt.Fprintf(out, "%s%s\n", res[0], res[1])
}
