// Package model holds models of environment functions, executed symbolically in place of the real ones.
package model

// Attach associates state with a pointer or a name; implemented by the executor.
func Attach(key any, v any) { panic("model") }

// Attached returns what was attached, or nil.
func Attached(key any) any { panic("model") }

// Quiet runs f without preemption and without reporting races.
func Quiet(f func()) { f() }

// Yield is a scheduling point.
func Yield() {}

func Unsupported(what string) { panic(what) }
