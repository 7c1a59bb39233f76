package simrt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
	"unsafe"
)

// mapRuns counts map iterations decided by the simulator.
var mapRuns, mapPerm uint64

// MapStats returns the number of map iterations of more than one key whose
// order the simulator decided, and how many were not in canonical order.
//
//go:norace
func MapStats() (uint64, uint64) { return mapRuns, mapPerm }

func keyString(k interface{}) string {
	switch x := k.(type) {
	case string:
		return x
	case fmt.Stringer:
		rv := reflect.ValueOf(k)
		if rv.Kind() == reflect.Ptr && rv.IsNil() {
			return "<nil>"
		}
		if rv.Kind() == reflect.Ptr {
			return x.String() + label(rv.Pointer())
		}
		return x.String()
	}
	if RaceBuild {
		// looking inside could look like a race of the code under test
		switch rv := reflect.ValueOf(k); rv.Kind() {
		case reflect.Ptr, reflect.Struct, reflect.Interface, reflect.Chan:
			return rv.Type().String()
		}
		return fmt.Sprint(k)
	}
	return deepText(reflect.ValueOf(k), 0)
}

type labelled struct {
	p uintptr
	s string
}

var labels []labelled

// Label tells apart objects with the same text that serve as map keys. It must
// be called outside of tasks and holds until the end of the run.
func Label(p unsafe.Pointer, s string) { labels = append(labels, labelled{uintptr(p), "\x00" + s}) }

//go:norace
func label(p uintptr) string {
	for i := range labels {
		if labels[i].p == p {
			return labels[i].s
		}
	}
	return ""
}

// deepText describes a value by its contents, without addresses, so that
// objects can be put in an order that does not depend on where they lie.
func deepText(rv reflect.Value, d int) string {
	if !rv.IsValid() || d > 12 {
		return ""
	}
	switch rv.Kind() {
	case reflect.String:
		return rv.String()
	case reflect.Bool:
		return fmt.Sprint(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprint(rv.Uint())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(rv.Float())
	case reflect.Ptr, reflect.Interface:
		if rv.IsNil() {
			return "nil"
		}
		return rv.Elem().Type().String() + "/" + deepText(rv.Elem(), d+1)
	case reflect.Struct:
		if rv.Type().PkgPath() == "regexp" {
			return rv.FieldByName("expr").String()
		}
		t := "{"
		for i := 0; i < rv.NumField(); i++ {
			t += deepText(rv.Field(i), d+1) + ","
		}
		return t + "}"
	case reflect.Slice, reflect.Array:
		t := "["
		for i := 0; i < rv.Len() && i < 64; i++ {
			t += deepText(rv.Index(i), d+1) + ","
		}
		return t + "]"
	case reflect.Map:
		var l []string
		for _, k := range rv.MapKeys() {
			l = append(l, deepText(k, d+1)+":"+deepText(rv.MapIndex(k), d+1))
		}
		sort.Strings(l)
		t := "m["
		for _, s := range l {
			t += s + ","
		}
		return t + "]"
	}
	return rv.Kind().String()
}

// breakTies tells apart keys with the same text by what they map to.
func breakTies(strs []string, val func(i int) reflect.Value) {
	if RaceBuild {
		return
	}
	n := map[string]int{}
	for _, s := range strs {
		n[s]++
	}
	if len(n) == len(strs) {
		return
	}
	for i, s := range strs {
		if n[s] > 1 {
			strs[i] = s + "\x00" + deepText(val(i), 0)
		}
	}
}

// perm returns an order of n elements decided by the map-order stream.
//
//go:norace
func perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n < 2 || cfg.MapOrd == nil {
		return p
	}
	mapRuns++
	s := cfg.MapOrd
	moved := false
	rot := uint64(0)
	if s.gen && cfg.MapMode == 3 {
		rot = s.raw() % uint64(n)
	}
	for i := 0; i < n-1; i++ {
		m := uint64(n - i)
		var v uint64
		if s.gen {
			switch cfg.MapMode {
			case 0:
				v = 0
			case 2:
				v = m - 1
			case 3:
				// rotation by rot, as moves to the front
				v = rot
				if v >= m {
					v = 0
				}
			default:
				v = s.raw() % m
			}
			s.put(v)
		} else {
			v = s.take(m)
		}
		if v != 0 {
			moved = true
			x := p[i+int(v)]
			copy(p[i+1:i+int(v)+1], p[i:i+int(v)])
			p[i] = x
		}
	}
	if moved {
		mapPerm++
	}
	h := uint64(n)
	for _, x := range p {
		h = Mix(h ^ uint64(x))
	}
	Note(h)
	return p
}

// MapIter iterates over a map in an order the simulator decides, with the
// semantics of a range statement: entries deleted before they are reached are
// skipped, values are read when the entry is reached, and entries added during
// the iteration may or may not be produced.
type MapIter[M ~map[K]V, K comparable, V any] struct {
	m     M
	keys  []K
	i     int
	n     int
	extra bool
}

func sortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		strs := make([]string, len(keys))
		idx := make([]int, len(keys))
		for i, k := range keys {
			strs[i] = keyString(k)
			idx[i] = i
		}
		breakTies(strs, func(i int) reflect.Value { return reflect.ValueOf(m[keys[i]]) })
		sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
		out := make([]K, len(keys))
		for i, j := range idx {
			out[i] = keys[j]
		}
		keys = out
	}
	return keys
}

func newIter[M ~map[K]V, K comparable, V any](m M) *MapIter[M, K, V] {
	keys := sortedKeys(m)
	if Active() {
		p := perm(len(keys))
		out := make([]K, len(keys))
		for i, j := range p {
			out[i] = keys[j]
		}
		keys = out
	}
	return &MapIter[M, K, V]{m: m, keys: keys, n: len(keys)}
}

func (it *MapIter[M, K, V]) advance() (k K, v V, ok bool) {
	for {
		for it.i < len(it.keys) {
			k = it.keys[it.i]
			it.i++
			if v, ok = it.m[k]; ok {
				return k, v, true
			}
			if k != k { // NaN
				return k, v, true
			}
		}
		if it.extra || len(it.m) == 0 || !Active() {
			return k, v, false
		}
		it.extra = true
		// entries added meanwhile: produce them, or not
		seen := make(map[K]bool, len(it.keys))
		for _, k := range it.keys {
			seen[k] = true
		}
		var add []K
		for _, k := range sortedKeys(it.m) {
			if !seen[k] {
				add = append(add, k)
			}
		}
		if len(add) == 0 || mapCoin() {
			return k, v, false
		}
		it.keys = append(it.keys, add...)
	}
}

//go:norace
func mapCoin() bool {
	if cfg.MapOrd == nil {
		return false
	}
	return cfg.MapOrd.Intn(2) == 1
}

// RangeMap2 replaces "for k, v := range m".
func RangeMap2[M ~map[K]V, K comparable, V any](m M) (it *MapIter[M, K, V], k K, v V) {
	return newIter[M, K, V](m), k, v
}

// RangeMapK replaces "for k := range m".
func RangeMapK[M ~map[K]V, K comparable, V any](m M) (it *MapIter[M, K, V], k K) {
	return newIter[M, K, V](m), k
}

// RangeMapV replaces "for _, v := range m".
func RangeMapV[M ~map[K]V, K comparable, V any](m M) (it *MapIter[M, K, V], v V) {
	return newIter[M, K, V](m), v
}

// RangeMap0 replaces "for range m".
func RangeMap0[M ~map[K]V, K comparable, V any](m M) *MapIter[M, K, V] {
	return newIter[M, K, V](m)
}

// Next2 advances and stores key and value.
func (it *MapIter[M, K, V]) Next2(k *K, v *V) bool {
	nk, nv, ok := it.advance()
	if ok {
		*k, *v = nk, nv
	}
	return ok
}

// NextK advances and stores the key.
func (it *MapIter[M, K, V]) NextK(k *K) bool {
	nk, _, ok := it.advance()
	if ok {
		*k = nk
	}
	return ok
}

// NextV advances and stores the value.
func (it *MapIter[M, K, V]) NextV(v *V) bool {
	_, nv, ok := it.advance()
	if ok {
		*v = nv
	}
	return ok
}

// Next advances.
func (it *MapIter[M, K, V]) Next() bool {
	_, _, ok := it.advance()
	return ok
}

// ReflectKeys puts the result of reflect.Value.MapKeys in a simulated order.
func ReflectKeys(l []reflect.Value) []reflect.Value {
	if len(l) < 2 {
		return l
	}
	strs := make([]string, len(l))
	idx := make([]int, len(l))
	for i, k := range l {
		if k.Kind() == reflect.String {
			strs[i] = k.String()
		} else {
			strs[i] = fmt.Sprint(k)
		}
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	out := make([]reflect.Value, len(l))
	if Active() {
		for i, j := range perm(len(l)) {
			out[i] = l[idx[j]]
		}
	} else {
		for i := range out {
			out[i] = l[idx[i]]
		}
	}
	return out
}

// ReflectIter replaces *reflect.MapIter.
type ReflectIter struct {
	m    reflect.Value
	keys []reflect.Value
	i    int
}

// ReflectRange replaces reflect.Value.MapRange.
func ReflectRange(m reflect.Value) *ReflectIter {
	return &ReflectIter{m: m, keys: ReflectKeys(m.MapKeys()), i: -1}
}

// Next advances.
func (it *ReflectIter) Next() bool {
	for {
		it.i++
		if it.i >= len(it.keys) {
			return false
		}
		if it.m.MapIndex(it.keys[it.i]).IsValid() {
			return true
		}
	}
}

// Key is the current key.
func (it *ReflectIter) Key() reflect.Value { return it.keys[it.i] }

// Value is the current value.
func (it *ReflectIter) Value() reflect.Value { return it.m.MapIndex(it.keys[it.i]) }

// Reset starts over on another map.
func (it *ReflectIter) Reset(m reflect.Value) {
	it.m, it.i, it.keys = m, -1, nil
	if m.IsValid() {
		it.keys = ReflectKeys(m.MapKeys())
	}
}

// MapsKeys, MapsValues and MapsAll replace the functions of package maps.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it, k := RangeMapK(m); it.NextK(&k); {
			if !yield(k) {
				return
			}
		}
	}
}

// MapsValues replaces maps.Values.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it, v := RangeMapV(m); it.NextV(&v); {
			if !yield(v) {
				return
			}
		}
	}
}

// MapsAll replaces maps.All.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it, k, v := RangeMap2(m); it.Next2(&k, &v); {
			if !yield(k, v) {
				return
			}
		}
	}
}

// --- channels ---------------------------------------------------------------

// Recv replaces a receive expression.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 replaces a two-valued receive expression.
func Recv2[T any](c <-chan T) (T, bool) {
	if !inTask() {
		v, ok := <-c
		return v, ok
	}
	YS()
	select {
	case v, ok := <-c:
		return v, ok
	default:
	}
	me := enterExternal("channel receive")
	v, ok := <-c
	exitExternal(me)
	return v, ok
}

// Send replaces a send statement.
func Send[T any](c chan<- T, v T) {
	if !inTask() {
		c <- v
		return
	}
	YS()
	select {
	case c <- v:
		return
	default:
	}
	me := enterExternal("channel send")
	c <- v
	exitExternal(me)
}

// ChanIter replaces "for v := range ch".
type ChanIter[T any] struct{ c <-chan T }

// RangeChan starts the iteration.
func RangeChan[T any](c <-chan T) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{c}, z
}

// Next receives the next value.
func (it *ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(it.c)
	if ok {
		*v = x
	}
	return ok
}

// SelectEnter and SelectExit bracket a select statement without default.
func SelectEnter() int {
	if !inTask() {
		return -1
	}
	YS()
	return enterExternal("select")
}

// SelectExit is called first in every communication clause.
func SelectExit(me int) {
	if me >= 0 {
		exitExternal(me)
	}
}

//go:norace
func inTask() bool { return active && cur >= 0 }
