package simrt

import (
	"bytes"
	"fmt"
	"iter"
	"reflect"
	"sort"
)

type objIDer interface{ ObjID() uint64 }

func ptrID(v reflect.Value) uint64 {
	if v.IsNil() {
		return 0
	}
	if v.CanInterface() {
		if o, ok := v.Interface().(objIDer); ok {
			return o.ObjID()
		}
	}
	p := v.Pointer()
	if S == nil {
		return uint64(p)
	}
	if id, ok := S.ptrIDs[p]; ok {
		return id
	}
	S.objseq++
	S.ptrIDs[p] = S.objseq
	if v.CanInterface() {
		S.ptrKeep = append(S.ptrKeep, v.Interface()) // the address must not be reused during the run
	}
	return S.objseq
}

// NoteKey gives pointer keys a deterministic identity at insertion.
func NoteKey(k any) {
	if S == nil {
		return
	}
	v := reflect.ValueOf(k)
	if v.Kind() == reflect.Pointer && !v.IsNil() {
		ptrID(v)
	} else if v.IsValid() {
		var b bytes.Buffer
		keyBytes(&b, v)
	}
}

func keyBytes(b *bytes.Buffer, v reflect.Value) {
	put := func(u uint64) {
		for i := 56; i >= 0; i -= 8 {
			b.WriteByte(byte(u >> uint(i)))
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			b.WriteByte(1)
		} else {
			b.WriteByte(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		put(uint64(v.Int()) ^ 1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		put(v.Uint())
	case reflect.String:
		b.WriteString(v.String())
		b.WriteByte(0)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Uint8 {
				b.WriteByte(byte(e.Uint()))
			} else {
				keyBytes(b, e)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			keyBytes(b, v.Field(i))
		}
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Map, reflect.Func:
		put(ptrID(v))
	case reflect.Interface:
		if v.IsNil() {
			b.WriteByte(0)
			return
		}
		b.WriteString(v.Elem().Type().String())
		keyBytes(b, v.Elem())
	default:
		b.WriteString(fmt.Sprint(v))
	}
}

// MapKeys in the order this run iterates the map.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	n := len(m)
	if n == 0 {
		return nil
	}
	ks := make([]K, 0, n)
	for k := range m {
		ks = append(ks, k)
	}
	if n == 1 {
		return ks
	}
	enc := make([][]byte, n)
	idx := make([]int, n)
	for i, k := range ks {
		var b bytes.Buffer
		keyBytes(&b, reflect.ValueOf(&k).Elem())
		enc[i] = b.Bytes()
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return bytes.Compare(enc[idx[a]], enc[idx[b]]) < 0 })
	out := make([]K, n)
	for i, j := range idx {
		out[i] = ks[j]
	}
	// Go starts at a random place; the real order is arbitrary: rotate and sometimes reverse
	r := Choose("map", 2*n)
	rot := r / 2
	res := make([]K, 0, n)
	res = append(res, out[rot:]...)
	res = append(res, out[:rot]...)
	if r%2 == 1 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			res[i], res[j] = res[j], res[i]
		}
	}
	return res
}

// RangeMap is for k, v := range m.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range MapKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// RangeMapKeys is maps.Keys.
func RangeMapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// RangeMapVals is maps.Values.
func RangeMapVals[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}
