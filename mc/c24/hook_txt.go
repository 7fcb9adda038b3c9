//go:build instr_txt

package main

import "github.com/fwip/posix-utils/pkg/txt"

func init() {
	setters = append(setters, func(f func()) { txt.VerifYield = f })
	instrumented = append(instrumented, "txt")
}
