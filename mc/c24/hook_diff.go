//go:build instr_diff

package main

import "github.com/fwip/posix-utils/pkg/diff"

func init() {
	setters = append(setters, func(f func()) { diff.VerifYield = f })
	instrumented = append(instrumented, "diff")
}
