//go:build instr_ed

package main

import "github.com/fwip/posix-utils/pkg/ed"

func init() {
	setters = append(setters, func(f func()) { ed.VerifYield = f })
	instrumented = append(instrumented, "ed")
}
