//go:build instr_regexes

package main

import "github.com/fwip/posix-utils/pkg/regexes"

func init() {
	setters = append(setters, func(f func()) { regexes.VerifYield = f })
	instrumented = append(instrumented, "regexes")
}
