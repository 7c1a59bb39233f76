// Package simenv stands in for what differs from one process, machine or
// moment to the next: process numbers, names, the environment and random numbers.
// Everything follows from the seed of the simulated clock.
package simenv

import (
	crand "crypto/rand"
	"errors"
	"io"
	"math/big"
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"runtime"

	"verif.local/simkit/simrt"
)

func real() bool { return simrt.EnvSeed() == 0 }

//go:norace
func draw(k uint64) uint64 { return simrt.Mix(simrt.EnvSeed() + k*0x9e3779b97f4a7c15) }

func Getpid() int {
	if real() {
		return os.Getpid()
	}
	return 2 + int(draw(1)%60000)
}

func Getppid() int {
	if real() {
		return os.Getppid()
	}
	return 1 + int(draw(2)%60000)
}

func Getuid() int  { return int(draw(3)%3) * 1000 }
func Geteuid() int { return Getuid() }
func Getgid() int  { return Getuid() }

var names = []string{"alpha", "beta", "gamma.example.org", "delta-1"}

func name(k uint64) string { return names[draw(k)%uint64(len(names))] }

func Hostname() (string, error) {
	if real() {
		return os.Hostname()
	}
	return name(4), nil
}

func Executable() (string, error) { return "/tmp/go-build" + name(5) + "/b001/exe/jsval", nil }

func UserHomeDir() (string, error) { return "/home/" + name(6), nil }

func LookupEnv(k string) (string, bool) {
	if real() {
		return os.LookupEnv(k)
	}
	switch k {
	case "USER", "LOGNAME", "HOSTNAME":
		return name(7), true
	case "HOME":
		return "/home/" + name(7), true
	case "PWD":
		return "/work/" + name(8), true
	case "LANG", "LC_ALL", "LC_CTYPE":
		if draw(9)%3 == 0 {
			return "", false
		}
		return []string{"C", "de_DE.UTF-8", "tr_TR.UTF-8", "C.UTF-8"}[draw(10)%4], true
	case "TZ":
		return []string{"", "UTC", "Asia/Tokyo", "America/New_York"}[draw(11)%4], draw(12)%2 == 0
	case "SOURCE_DATE_EPOCH", "GOPATH", "GOFLAGS", "DEBUG", "GOMAXPROCS":
		if draw(13)%2 == 0 {
			return "", false
		}
		return "1", true
	}
	return "", false
}

func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}

func Environ() []string {
	if real() {
		return os.Environ()
	}
	var l []string
	for _, k := range []string{"USER", "HOME", "LANG", "TZ"} {
		if v, ok := LookupEnv(k); ok {
			l = append(l, k+"="+v)
		}
	}
	return l
}

func NumCPU() int {
	if real() {
		return runtime.NumCPU()
	}
	return 1 << (draw(14) % 6)
}

func GOMAXPROCS(int) int { return NumCPU() }

func NumGoroutine() int {
	if real() {
		return runtime.NumGoroutine()
	}
	return 1 + int(draw(15)%50)
}

// source gives the random numbers of the simulated process.
type source struct{}

func (source) Seed(int64)     {}
func (source) Uint64() uint64 { return simrt.Random() }
func (source) Int63() int64   { return int64(simrt.Random() >> 1) }
func (source) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(simrt.Random())
	}
	return len(b), nil
}

// Rand is what math/rand gives.
var std = rand.New(source{})

func RInt() int                        { return std.Int() }
func RIntn(n int) int                  { return std.Intn(n) }
func RInt31() int32                    { return std.Int31() }
func RInt31n(n int32) int32            { return std.Int31n(n) }
func RInt63() int64                    { return std.Int63() }
func RInt63n(n int64) int64            { return std.Int63n(n) }
func RUint32() uint32                  { return std.Uint32() }
func RUint64() uint64                  { return std.Uint64() }
func RFloat32() float32                { return std.Float32() }
func RFloat64() float64                { return std.Float64() }
func RNormFloat64() float64            { return std.NormFloat64() }
func RExpFloat64() float64             { return std.ExpFloat64() }
func RPerm(n int) []int                { return std.Perm(n) }
func RShuffle(n int, f func(i, j int)) { std.Shuffle(n, f) }
func RRead(b []byte) (int, error)      { return source{}.Read(b) }
func RSeed(int64)                      {}

var std2 = randv2.New(source{})

func WInt() int                        { return std2.Int() }
func WIntN(n int) int                  { return std2.IntN(n) }
func WInt32() int32                    { return std2.Int32() }
func WInt32N(n int32) int32            { return std2.Int32N(n) }
func WInt64() int64                    { return std2.Int64() }
func WInt64N(n int64) int64            { return std2.Int64N(n) }
func WUint() uint                      { return std2.Uint() }
func WUintN(n uint) uint               { return std2.UintN(n) }
func WUint32() uint32                  { return std2.Uint32() }
func WUint32N(n uint32) uint32         { return std2.Uint32N(n) }
func WUint64() uint64                  { return std2.Uint64() }
func WUint64N(n uint64) uint64         { return std2.Uint64N(n) }
func WFloat32() float32                { return std2.Float32() }
func WFloat64() float64                { return std2.Float64() }
func WPerm(n int) []int                { return std2.Perm(n) }
func WShuffle(n int, f func(i, j int)) { std2.Shuffle(n, f) }

// CReader is crypto/rand's.
var CReader io.Reader = source{}

func CRead(b []byte) (int, error) { return source{}.Read(b) }
func CInt(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		return nil, errors.New("max must be positive")
	}
	return crand.Int(r, max)
}
func CText() string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	for i := range b {
		b[i] = abc[simrt.Random()%32]
	}
	return string(b)
}
