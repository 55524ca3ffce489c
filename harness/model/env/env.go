// Package env replaces measurements of the running process.
package env

// Perf stands for the measured memory in use: measuring waits for garbage
// collections, and nothing depends on the result.
//
//gosym:replace github.com/tkw1536/pkglib/perf.perf
func Perf() (bytes int64, objects int64) { return 0, 0 }
