//go:build instr_flag

package main

import "github.com/fwip/posix-utils/pkg/flag"

func init() {
	setters = append(setters, func(f func()) { flag.VerifYield = f })
	instrumented = append(instrumented, "flag")
}
