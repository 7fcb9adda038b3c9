//go:build !instr

package main

const instrumented = false

func setPerm(f func(n int) []int) {}
