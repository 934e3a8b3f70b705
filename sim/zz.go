//go:build go1.22

package zsim

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"time"
	"unsafe"
)

func stackHere() string { return trimStack(string(debug.Stack())) }

// TimeNow is time.Now: the virtual wall clock with a monotonic reading, so that
// clock jumps show in the wall clock only.
func TimeNow() time.Time {
	if W == nil {
		return time.Unix(epoch, 0).UTC()
	}
	return mkTime(W.Wall(), W.now+1)
}

type rawTime struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

func mkTime(wall, mono int64) time.Time {
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	const wallToInternal = (1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400
	sec := wall/1e9 + unixToInternal - wallToInternal
	nsec := wall % 1e9
	r := rawTime{wall: 1<<63 | uint64(sec)<<30 | uint64(nsec), ext: mono, loc: time.UTC}
	// UTC is stored as nil
	r.loc = nil
	return *(*time.Time)(unsafe.Pointer(&r))
}

func init() {
	t := mkTime(epoch*1e9+5, 77)
	u := mkTime(epoch*1e9+9e9, 177)
	if t.UnixNano() != epoch*1e9+5 || u.Sub(t) != 100 || t.Round(0).Sub(time.Unix(epoch, 5)) != 0 {
		panic("zsim: layout of time.Time")
	}
}

// MapIter iterates over a map in a seeded order.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func MapStart[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V, bool) {
	it := &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if W != nil && len(it.keys) > 1 {
		if s := W.Choose("map", 1<<20); s != 0 {
			r := NewRng(uint64(s))
			for i := len(it.keys) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	k, v, ok := it.Next()
	return it, k, v, ok
}

func (it *MapIter[K, V]) Next() (k K, v V, ok bool) {
	for it.i < len(it.keys) {
		k = it.keys[it.i]
		it.i++
		if v, ok = it.m[k]; ok {
			return k, v, true
		}
	}
	var zk K
	var zv V
	return zk, zv, false
}

func sortKeys[K comparable](ks []K) {
	if s, ok := any(ks).([]string); ok {
		sort.Strings(s)
		return
	}
	type kv struct {
		s string
		i int64
		f bool
	}
	keyOf := func(k K) kv {
		v := reflect.ValueOf(k)
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return kv{i: v.Int(), f: true}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return kv{i: int64(v.Uint()), f: true}
		case reflect.Ptr:
			if !v.IsNil() {
				return kv{s: fmt.Sprintf("%+v", v.Elem())}
			}
		}
		return kv{s: fmt.Sprintf("%+v", k)}
	}
	sort.SliceStable(ks, func(i, j int) bool {
		a, b := keyOf(ks[i]), keyOf(ks[j])
		if a.f {
			return a.i < b.i
		}
		return a.s < b.s
	})
}

// SortedKeys is for the harness.
func SortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
