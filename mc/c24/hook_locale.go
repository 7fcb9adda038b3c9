//go:build instr_locale

package main

import "github.com/fwip/posix-utils/pkg/locale"

func init() {
	setters = append(setters, func(f func()) { locale.VerifYield = f })
	instrumented = append(instrumented, "locale")
}
