package mcrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

type acc struct {
	tid int
	clk uint32
}

// shadow is the access history of one memory location.
type shadow struct {
	obj
	w      acc
	hasW   bool
	r      []acc
	cls    int
	atomic bool
}

func shadowAt(p uintptr) *shadow {
	sh := s.shadows[p]
	if sh == nil {
		sh = &shadow{cls: -1}
		s.shadows[p] = sh
	}
	return sh
}

func (sh *shadow) raceRead(t *Thread) bool {
	race := sh.hasW && sh.w.tid != t.id && sh.w.clk > t.vc.get(sh.w.tid)
	for i := range sh.r {
		if sh.r[i].tid == t.id {
			sh.r[i].clk = t.vc.get(t.id)
			return race
		}
	}
	sh.r = append(sh.r, acc{t.id, t.vc.get(t.id)})
	return race
}

func (sh *shadow) raceWrite(t *Thread) bool {
	race := sh.hasW && sh.w.tid != t.id && sh.w.clk > t.vc.get(sh.w.tid)
	for _, a := range sh.r {
		if a.tid != t.id && a.clk > t.vc.get(a.tid) {
			race = true
		}
	}
	sh.r = sh.r[:0]
	sh.w, sh.hasW = acc{t.id, t.vc.get(t.id)}, true
	return race
}

func className(c int) string {
	if c >= 0 && c < len(ClassNames) {
		return ClassNames[c]
	}
	return fmt.Sprint("#", c)
}

var sink unsafe.Pointer

// plain access; promoted classes are scheduling points.
func access(cls int, ptr unsafe.Pointer, write bool) {
	// variables must live on the heap: stacks are used again by other goroutines
	sink = ptr
	if s == nil || s.dead {
		return
	}
	p := uintptr(ptr)
	ex := s.ex
	t := s.cur
	if ex != nil && ex.promoted[cls] {
		d := "read " + className(cls)
		if write {
			d = "write " + className(cls)
		}
		point(d, nil)
		sh := shadowAt(p)
		if write {
			s.touch(t, &sh.obj, 2)
		} else {
			t.hash = mix(t.hash, sh.hash)
		}
		return
	}
	sh := shadowAt(p)
	sh.cls = cls
	var race bool
	if write {
		race = sh.raceWrite(t)
	} else {
		race = sh.raceRead(t)
	}
	if race && ex != nil {
		ex.promote(cls)
	}
}

// RV reads an instrumented variable.
func RV[T any](cls int, p *T) T {
	access(cls, unsafe.Pointer(p), false)
	return *p
}

// SetP writes an instrumented variable.
func SetP[T any](cls int, p *T) func(T) {
	return func(v T) {
		access(cls, unsafe.Pointer(p), true)
		*p = v
	}
}

// WN announces a write that follows at once.
func WN[T any](cls int, p *T) { access(cls, unsafe.Pointer(p), true) }

type number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}

// Inc is *p += d (as a separate read and write).
func Inc[T number](cls int, p *T, d int) {
	v := RV(cls, p)
	if d > 0 {
		v++
	} else {
		v--
	}
	SetP(cls, p)(v)
}

// ---------------------------------------------------------------- maps

func mapPtr[M any](m M) uintptr { return *(*uintptr)(unsafe.Pointer(&m)) }

func mapAccess(p uintptr, write bool, what func() string) {
	if s == nil || s.dead || p == 0 {
		return
	}
	sh := s.maps[p]
	if sh == nil {
		sh = &shadow{}
		s.maps[p] = sh
	}
	t := s.cur
	var race bool
	if write {
		race = sh.raceWrite(t)
	} else {
		race = sh.raceRead(t)
	}
	if race {
		s.fail("concurrent map access (fatal error in Go): " + what())
	}
}

// MR announces a map read.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	mapAccess(mapPtr(m), false, func() string { return fmt.Sprintf("read of %T", m) })
	return m
}

// MW announces a map write.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	mapAccess(mapPtr(m), true, func() string { return fmt.Sprintf("write of %T", m) })
	return m
}

// MapSetter is m[k] = v.
func MapSetter[M ~map[K]V, K comparable, V any](m M) func(K, V) {
	return func(k K, v V) {
		mapAccess(mapPtr(m), true, func() string { return fmt.Sprintf("write of %T", m) })
		noteKey(k)
		m[k] = v
	}
}

// MRN, MWN, MapSetterN and MapKeysN are the variants for harness code.
func MRN[M ~map[K]V, K comparable, V any](m M) M { return m }
func MWN[M ~map[K]V, K comparable, V any](m M) M { return m }
func MapSetterN[M ~map[K]V, K comparable, V any](m M) func(K, V) {
	return func(k K, v V) { noteKey(k); m[k] = v }
}
func MapKeysN[M ~map[K]V, K comparable, V any](m M) []K { return sortedKeys[M, K, V](m) }

// MapKey converts a key to the key type.
func MapKey[M ~map[K]V, K comparable, V any](m M) func(K) K { return func(k K) K { return k } }

// MapZero returns zero key and value.
func MapZero[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// noteKey numbers keys that have no natural order, in order of first insertion.
func noteKey(k interface{}) {
	if s == nil || s.dead {
		return
	}
	switch k.(type) {
	case string, int, int32, int64, uint32, uint64, uint8, uint, bool:
		return
	}
	if _, ok := s.keyIDs[k]; !ok {
		s.nextKey++
		s.keyIDs[k] = s.nextKey
	}
}

func keyRank(k interface{}) (int, int64, string) {
	switch x := k.(type) {
	case string:
		return 1, 0, x
	case int:
		return 0, int64(x), ""
	case int32:
		return 0, int64(x), ""
	case int64:
		return 0, x, ""
	case uint32:
		return 0, int64(x), ""
	case uint64:
		return 0, int64(x), ""
	case uint8:
		return 0, int64(x), ""
	case uint:
		return 0, int64(x), ""
	}
	if s != nil {
		if id, ok := s.keyIDs[k]; ok {
			return 2, int64(id), ""
		}
	}
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.String:
		return 1, 0, v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return 0, v.Int(), ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return 0, int64(v.Uint()), ""
	}
	return 3, 0, fmt.Sprint(k)
}

// MapKeys returns the keys in a deterministic order; other orders are explored
// as deviations.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	mapAccess(mapPtr(m), false, func() string { return fmt.Sprintf("range over %T", m) })
	ks := sortedKeys[M, K, V](m)
	if len(ks) < 2 || s == nil || s.dead {
		return ks
	}
	// choose the first key, then (for three) the second
	n := len(ks)
	if n > 3 {
		n = 3
	}
	for i := 0; i+1 < n; i++ {
		c := Deviate(len(ks) - i)
		ks[i], ks[i+c] = ks[i+c], ks[i]
	}
	return ks
}

func sortedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b, c := keyRank(ks[i])
		x, y, z := keyRank(ks[j])
		if a != x {
			return a < x
		}
		if b != y {
			return b < y
		}
		return c < z
	})
	return ks
}
