// Package sym is the interface between harnesses and the symbolic executor. The executor intercepts these functions;
// compiled natively they read the recorded values of one execution and replay it against the real code.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
)

var (
	vals  map[string]uint64
	names = map[string]int{}
	tier  int
)

type obs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

func next(name string) uint64 {
	k := names[name]
	names[name] = k + 1
	return vals[strings.ReplaceAll(fmt.Sprintf("%s#%d", name, k), "|", "!")]
}

// U8 is an arbitrary byte, and so on for the other widths.
func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func I64(name string) int64  { return int64(next(name)) }
func Bool(name string) bool  { return next(name) != 0 }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int) int { return lo + int(next(name)) }

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// String is a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Alpha is a string of n arbitrary bytes of the alphabet.
func Alpha(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[next(name)]
	}
	return string(b)
}

// Choose is an arbitrary integer in [0, n), with one path for every value.
func Choose(name string, n int) int {
	if n <= 0 {
		panic("Choose")
	}
	return int(next(name))
}

func Assume(b bool) {
	if !b {
		fmt.Println("ASSUMPTION FAILED")
		os.Exit(4)
	}
}

func Assert(b bool, msg string) {
	if !b {
		fmt.Println("VIOLATED " + msg)
		os.Exit(3)
	}
}

// Cover marks a point that must be reachable.
func Cover(name string) {}

// Observe records a value that must be the same in the symbolic and the native execution.
func Observe(name string, v any) {
	b, _ := json.Marshal(obs{name, Show(v)})
	fmt.Println("OBS " + string(b))
}

func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool     { return !a || b }
func EqStr(a, b string) bool     { return a == b }
func EqBytes(a, b []byte) bool   { return string(a) == string(b) }
func Concrete(x int) int         { return x }
func ConcreteStr(s string) string { return s }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func Tier() int      { return tier }
func Symbolic() bool { return false }

// Schedules explores goroutine interleavings with at most n preemptions.
func Schedules(n int) {}
func NoSchedules()    {}

// Delays explores the interleavings that deviate from the default round-robin
// schedule by at most n: letting k runnable goroutines wait costs k.
func Delays(n int) {}

// Races reports unsynchronised conflicting accesses.
func Races(on bool) {}

// MapOrder explores all iteration orders of maps of up to n entries.
func MapOrder(n int) {}

// Field reads an unexported field of a struct or pointer to struct.
func Field(v any, name string) any {
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Pointer {
		r = r.Elem()
	} else {
		c := reflect.New(r.Type()).Elem()
		c.Set(r)
		r = c
	}
	f := r.FieldByName(name)
	return reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem().Interface()
}

// SetField writes an unexported field of a pointer to struct.
func SetField(v any, name string, x any) {
	f := reflect.ValueOf(v).Elem().FieldByName(name)
	reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem().Set(reflect.ValueOf(x))
}

// Call calls a function and returns its first result.
func Call(f any, args ...any) any {
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	if out := reflect.ValueOf(f).Call(in); len(out) > 0 {
		return out[0].Interface()
	}
	return nil
}

// Show prints a value in a canonical form.
func Show(v any) string {
	if v == nil {
		return "nil"
	}
	return show(reflect.ValueOf(v), 0)
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func show(r reflect.Value, d int) string {
	if d > 12 {
		return "..."
	}
	if r.Kind() != reflect.Interface && r.Type().Implements(errType) {
		if r.Kind() == reflect.Pointer && r.IsNil() {
			return "nil"
		}
		return "error"
	}
	switch r.Kind() {
	case reflect.Bool:
		return fmt.Sprint(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(r.Uint())
	case reflect.String:
		return fmt.Sprintf("%q", r.String())
	case reflect.Float64, reflect.Float32:
		return fmt.Sprint(r.Float())
	case reflect.Slice, reflect.Array:
		var parts []string
		for i := 0; i < r.Len(); i++ {
			parts = append(parts, show(r.Index(i), d+1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case reflect.Struct:
		var parts []string
		for i := 0; i < r.NumField(); i++ {
			parts = append(parts, show(r.Field(i), d+1))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case reflect.Pointer:
		if r.IsNil() {
			return "nil"
		}
		return "&" + show(r.Elem(), d+1)
	case reflect.Map:
		var parts []string
		for it := r.MapRange(); it.Next(); {
			parts = append(parts, show(it.Key(), d+1)+":"+show(it.Value(), d+1))
		}
		sort.Strings(parts)
		return "map[" + strings.Join(parts, " ") + "]"
	case reflect.Interface:
		if r.IsNil() {
			return "nil"
		}
		return show(r.Elem(), d+1)
	}
	return "?"
}

type input struct {
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Vals    map[string]uint64 `json:"vals"`
	Repeat  int               `json:"repeat"`
}

// Main runs one harness on recorded values: argument 1 names a JSON file with the harness, tier and values.
func Main(hs map[string]func()) {
	if len(os.Args) < 2 {
		fmt.Println("usage: replay FILE")
		os.Exit(9)
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	var in input
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	tier = in.Tier
	h := hs[in.Harness]
	if h == nil {
		fmt.Println("no harness " + in.Harness)
		os.Exit(9)
	}
	n := in.Repeat
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		vals = in.Vals
		names = map[string]int{}
		h()
	}
	fmt.Println("COMPLETED")
}

// TempDir is a new scratch directory.
func TempDir() string {
	d, err := os.MkdirTemp("", "sym-")
	if err != nil {
		panic(err)
	}
	return d
}
