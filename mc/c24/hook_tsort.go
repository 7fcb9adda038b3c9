//go:build instr_tsort

package main

import "github.com/fwip/posix-utils/pkg/tsort"

func init() {
	setters = append(setters, func(f func()) { tsort.VerifYield = f })
	instrumented = append(instrumented, "tsort")
}
