//go:build instr

package main

import "github.com/fwip/posix-utils/pkg/ed"

const instrumented = true

func setYield(f func()) { ed.VerifYield = f }
