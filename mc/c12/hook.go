//go:build instr

package main

import "github.com/fwip/posix-utils/pkg/tsort"

const instrumented = true

func setPerm(f func(n int) []int) { tsort.VerifPerm = f }
