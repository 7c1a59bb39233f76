package simrt

import (
	"fmt"
	"reflect"
	"time"
)

// --- package state ----------------------------------------------------------

type reset struct {
	pkg string
	f   func()
}

var resets []reset

// RegisterReset is called by the instrumented packages, in dependency order.
func RegisterReset(pkg string, f func()) { resets = append(resets, reset{pkg, f}) }

// ResetAll puts the package-level state of every instrumented package back to
// what it is at process start, so that a scenario begins cold.
func ResetAll() {
	for _, r := range resets {
		r.f()
	}
}

// NumResets is the number of packages that registered.
func NumResets() int { return len(resets) }

// Zero sets a package variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// --- expressions ------------------------------------------------------------

// YV is a yield point after the evaluation of an expression.
func YV[T any](v T) T {
	YS()
	return v
}

// GoCall replaces "go f(args...)".
func GoCall(ellipsis bool, f interface{}, args ...interface{}) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var t reflect.Type
		switch {
		case ft.IsVariadic() && i >= ft.NumIn()-1:
			t = ft.In(ft.NumIn() - 1)
			if !ellipsis {
				t = t.Elem()
			}
		default:
			t = ft.In(i)
		}
		v := reflect.ValueOf(a)
		if !v.IsValid() {
			v = reflect.Zero(t)
		} else if v.Type() != t && v.Type().ConvertibleTo(t) {
			v = v.Convert(t)
		}
		in[i] = v
	}
	Go(func() {
		if ellipsis {
			fv.CallSlice(in)
		} else {
			fv.Call(in)
		}
	})
}

// --- clock ------------------------------------------------------------------

var (
	clockNow   time.Time
	clockReal  = true
	clockSeed  uint64
	clockReads uint64
	envSeed    uint64
	randSeed   uint64
)

// EnvSeed is what the simulated process is known by; 0 outside of scenarios.
//
//go:norace
func EnvSeed() uint64 { return envSeed }

// Random is the next random number of the simulated process.
//
//go:norace
func Random() uint64 {
	randSeed += 0x9e3779b97f4a7c15
	return Mix(randSeed ^ 0x5851f42d4c957f2d)
}

//go:norace
func clockReset() {
	clockReal = true
	clockReads = 0
	envSeed = 0
}

// SetClock starts the simulated clock; it advances by an arbitrary amount, and
// sometimes jumps, at every reading.
//
//go:norace
func SetClock(seed uint64) {
	clockReal = false
	clockSeed = seed
	envSeed, randSeed = seed|1, seed
	clockNow = time.Unix(1500000000+int64(Mix(seed)%500000000), int64(Mix(seed+1)%1000000000)).UTC()
}

// Now replaces time.Now.
//
//go:norace
func Now() time.Time {
	if clockReal {
		return time.Now()
	}
	clockReads++
	clockSeed += 0x9e3779b97f4a7c15
	r := Mix(clockSeed)
	d := time.Duration(r % 5000000)
	switch (r >> 32) % 8 {
	case 0:
		d = time.Duration(r % 1000)
	case 1:
		d = time.Duration(r%90) * time.Second
	case 2:
		d = time.Duration(r%100) * time.Hour
	}
	clockNow = clockNow.Add(d)
	return clockNow
}

// ClockReads is the number of clock readings in this scenario.
//
//go:norace
func ClockReads() uint64 { return clockReads }

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep: it lets others run.
func Sleep(d time.Duration) {
	if !Active() {
		return
	}
	advance(d)
	for i := 0; i < 4; i++ {
		YS()
	}
}

//go:norace
func advance(d time.Duration) { clockNow = clockNow.Add(d) }

// PanicString formats a recovered value.
func PanicString(r interface{}) string { return fmt.Sprint(r) }
