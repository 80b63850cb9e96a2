// Package verif is the harness vocabulary. The symbolic executor intercepts
// every function here; the bodies below serve native replay, where the values
// of a solver model are read from a file.
package verif

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type nd struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	Val  string `json:"v"`
}

var vals []nd
var next = map[string]int{}

// take returns the next value of a name; choices and other values have names of their own.
func take(name string) (string, bool) {
	n := next[name]
	next[name]++
	want := name
	if n > 0 {
		want = fmt.Sprintf("%s#%d", name, n)
	}
	for _, v := range vals {
		if v.Kind == "choice" {
			continue
		}
		base := v.Name
		if i := strings.LastIndexByte(base, ':'); i >= 0 {
			base = base[:i]
		}
		if base == want {
			return v.Val, true
		}
	}
	return "", false
}

// choice returns the next choice of a name; they are kept in order.
func choice(name string) int64 {
	n := next["choice:"+name]
	next["choice:"+name]++
	for _, v := range vals {
		if v.Kind != "choice" || v.Name != name {
			continue
		}
		if n == 0 {
			return parse(v.Val)
		}
		n--
	}
	return 0
}

func num(name string) int64 {
	s, ok := take(name)
	if !ok {
		return 0
	}
	return parse(s)
}

func parse(s string) int64 {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		u, _ := strconv.ParseUint(s, 10, 64)
		return int64(u)
	}
	return v
}

func clamp(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

// Int64 is an arbitrary value in [lo,hi].
func Int64(name string, lo, hi int64) int64 { return clamp(num(name), lo, hi) }
func Int(name string, lo, hi int) int       { return int(clamp(num(name), int64(lo), int64(hi))) }
func Uint64(name string, lo, hi uint64) uint64 {
	v := uint64(num(name))
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}
func Byte(name string) byte { return byte(num(name)) }
func Bool(name string) bool { return num(name) != 0 }
func Float64(name string) float64 {
	return math.Float64frombits(uint64(num(name)))
}

// Choose forks over 0..n-1.
func Choose(name string, n int) int { return int(choice(name)) }

// Pick forks over lo..hi.
func Pick(name string, lo, hi int) int { return int(clamp(choice(name), int64(lo), int64(hi))) }

// Str is an arbitrary non-empty string without characters the code inspects.
func Str(name string) string {
	s, ok := take(name)
	if !ok || s == "" {
		return "Zz0z"
	}
	return s
}

// Bytes is an arbitrary string of n bytes.
func Bytes(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(num(fmt.Sprintf("%s[%d]", name, i)))
	}
	return string(b)
}

func Assume(b bool) {
	if !b {
		fmt.Println("VERIF-ASSUME-FAIL")
		os.Exit(4)
	}
}

func Assert(b bool, label string) {
	if !b {
		fmt.Println("VERIF-ASSERT-FAIL " + label)
		os.Exit(3)
	}
}
func Fail(label string)  { Assert(false, label) }
func Reach(label string) {}

// Cover says that some input must reach Reach(label).
func Cover(label string) {}

// Covering is, natively, the Cover label that no input reached.
func Covering() string { return os.Getenv("VERIF_COVER") }

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}
func Native() bool          { return true }
func MapOrder()             {}
func MapOrderOff()          {}
func SelectND()             {}
func Sched(preemptions int) {}

// SchedIn limits preemptions to synchronisation in packages with this path prefix.
func SchedIn(prefix string)     {}
func SchedOff()                 {}
func Race()                     {}
func NoMerge()                  {}
func Quiesce()                  { time.Sleep(40 * time.Millisecond) }
func KnownIf(id string, b bool) {}
func Log(f string, a ...any)    {}

// Interrupt is CTRL-C.
func Interrupt()   { syscall.Kill(os.Getpid(), syscall.SIGINT) }
func Clock() int64 { return 0 }
func Exited() bool { return true }

func Observe(label string, v any) {
	fmt.Printf("VERIF-OBS %s\n", strconv.Quote(fmt.Sprintf("%s=%v", label, v)))
}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	f()
	return false
}

// RandHook feeds the model's values to math/rand.
func RandHook(kind string, n int64) (uint64, bool) {
	s, ok := take("rand." + kind)
	if !ok {
		return 0, false
	}
	if v, err := strconv.ParseInt(s, 10, 64); err == nil {
		return uint64(v), true
	}
	u, _ := strconv.ParseUint(s, 10, 64)
	return u, true
}

// OnRand calls f with every integer drawn from math/rand, so that a harness
// can bound the outcomes it explores.
func OnRand(f func(n int, v uint64)) {}

// Main runs one harness natively.
func Main(args []string, hs map[string]func()) {
	b, err := os.ReadFile(args[1])
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &vals); err != nil {
		panic(err)
	}
	hs[args[0]]()
	fmt.Println("VERIF-DONE")
}
