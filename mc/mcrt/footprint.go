package mcrt

import (
	"reflect"
	"strings"
)

// Footprint counts what is reachable from the roots: objects, map entries,
// slice elements and queued channel elements. Objects of this package (locks,
// connections, timers) are not entered.
func Footprint(roots ...interface{}) int {
	w := &walker{seen: map[visit]bool{}}
	for _, r := range roots {
		w.walk(reflect.ValueOf(r))
	}
	return w.n
}

type visit struct {
	p uintptr
	t reflect.Type
}

type walker struct {
	n    int
	seen map[visit]bool
}

func (w *walker) walk(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	if t := v.Type(); strings.HasSuffix(t.PkgPath(), "/zmc/mcrt") {
		switch {
		case t == reflect.TypeOf(Map{}):
			w.walk(v.FieldByName("m"))
		case t == reflect.TypeOf(Value{}) || strings.HasPrefix(t.Name(), "Pointer["):
			w.walk(v.FieldByName("v"))
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		k := visit{v.Pointer(), v.Type()}
		if v.IsNil() || w.seen[k] {
			return
		}
		w.seen[k] = true
		w.n++
		w.walk(v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			w.walk(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i))
		}
	case reflect.Map:
		k := visit{v.Pointer(), v.Type()}
		if v.IsNil() || w.seen[k] {
			return
		}
		w.seen[k] = true
		it := v.MapRange()
		for it.Next() {
			w.n++
			w.walk(it.Key())
			w.walk(it.Value())
		}
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Uint8, reflect.Int8:
			return
		}
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if v.Kind() == reflect.Slice {
				w.n++
			}
			w.walk(v.Index(i))
		}
	case reflect.Chan:
		k := visit{v.Pointer(), v.Type()}
		if v.IsNil() || w.seen[k] {
			return
		}
		w.seen[k] = true
		w.n += v.Len()
	}
}
