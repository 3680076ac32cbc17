//go:build !zzasm

package zzverif

// setRegs chooses the registers with which the assembly is entered.
func setRegs() {}
