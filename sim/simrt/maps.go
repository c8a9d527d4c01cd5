package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

func mapPtr[M any](m M) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&m)) }

// mapAccess announces an access to a map and yields.  If another task is
// parked at its own access to the same map and one of the two writes, nothing
// orders them: on real hardware they can overlap, which the Go runtime turns
// into an unrecoverable "concurrent map" error.
func mapAccess(p unsafe.Pointer, write bool) {
	s := S
	if s == nil || p == nil {
		return
	}
	if s.dead {
		return
	}
	t := s.cur
	om, ow := t.intentMap, t.intentWrite
	t.intentMap, t.intentWrite = p, write
	if s.cfg.Strat.FavorMap && !s.cfg.Replay && len(s.run) > 0 && s.rng.Intn(3) == 0 {
		s.gateS = 1
	}
	if write {
		SP(11)
	} else {
		SP(12)
	}
	for _, o := range s.tasks {
		if o != t && o.intentMap == p && o.state != stDone && (write || o.intentWrite) {
			what := "concurrent map read and map write"
			if write && o.intentWrite {
				what = "concurrent map writes"
			}
			Fatal(what + fmt.Sprintf(" (tasks %d and %d)", t.ID, o.ID))
		}
	}
	t.intentMap, t.intentWrite = om, ow
}

// MR passes a map through for reading.
func MR[M any](m M) M {
	mapAccess(mapPtr(m), false)
	return m
}

// MW passes a map through for writing.
func MW[M any](m M) M {
	mapAccess(mapPtr(m), true)
	return m
}

// MDel deletes a key.
func MDel[M ~map[K]V, K comparable, V any](m M, k K) {
	mapAccess(mapPtr(m), true)
	delete(m, k)
}

// Item is one step of a map iteration.
type Item[K comparable, V any] struct {
	m map[K]V
	k K
}

func (it Item[K, V]) Next() (K, V, bool) {
	mapAccess(mapPtr(it.m), false)
	v, ok := it.m[it.k]
	return it.k, v, ok
}

// Iter lists the steps of an iteration over m in a seeded order.
func Iter[M ~map[K]V, K comparable, V any](m M) []Item[K, V] {
	mapAccess(mapPtr(m), false)
	items := make([]Item[K, V], 0, len(m))
	for k := range m {
		items = append(items, Item[K, V]{m, k})
	}
	sortItems(items)
	s := S
	if s != nil && s.cfg.MapOrder && len(items) > 1 {
		s.mapSeq++
		r := NewRand(s.derived(uint64(31)))
		p := r.Perm(len(items))
		out := make([]Item[K, V], len(items))
		for i, j := range p {
			out[i] = items[j]
		}
		s.Stats["map-order"]++
		return out
	}
	return items
}

// ReflectMapKeys is reflect.Value.MapKeys in a seeded order.
func ReflectMapKeys(v reflect.Value) []reflect.Value {
	mapAccess(v.UnsafePointer(), false)
	keys := v.MapKeys()
	sort.SliceStable(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	s := S
	if s != nil && s.cfg.MapOrder && len(keys) > 1 {
		s.mapSeq++
		out := make([]reflect.Value, len(keys))
		for i, j := range NewRand(s.derived(uint64(31))).Perm(len(keys)) {
			out[i] = keys[j]
		}
		s.Stats["map-order"]++
		return out
	}
	return keys
}

// MapIter is reflect.MapIter in a seeded order.
type MapIter struct {
	m    reflect.Value
	keys []reflect.Value
	at   int
}

func ReflectMapRange(v reflect.Value) *MapIter { return &MapIter{v, ReflectMapKeys(v), -1} }
func (it *MapIter) Next() bool                 { it.at++; return it.at < len(it.keys) }
func (it *MapIter) Key() reflect.Value         { return it.keys[it.at] }
func (it *MapIter) Value() reflect.Value       { return it.m.MapIndex(it.keys[it.at]) }

func sortItems[K comparable, V any](items []Item[K, V]) {
	if len(items) < 2 {
		return
	}
	switch any(items[0].k).(type) {
	case string:
		sort.Slice(items, func(i, j int) bool { return any(items[i].k).(string) < any(items[j].k).(string) })
	case int:
		sort.Slice(items, func(i, j int) bool { return any(items[i].k).(int) < any(items[j].k).(int) })
	default:
		rv := reflect.ValueOf(items[0].k)
		switch rv.Kind() {
		case reflect.String:
			sort.Slice(items, func(i, j int) bool {
				return reflect.ValueOf(items[i].k).String() < reflect.ValueOf(items[j].k).String()
			})
		case reflect.Ptr, reflect.UnsafePointer, reflect.Chan, reflect.Interface:
			sort.SliceStable(items, func(i, j int) bool { return keyRank(items[i].k) < keyRank(items[j].k) })
		default:
			sort.Slice(items, func(i, j int) bool { return fmt.Sprint(items[i].k) < fmt.Sprint(items[j].k) })
		}
	}
}

// Addresses used as keys are ordered by their first use as a key.
var (
	keyIDs map[unsafe.Pointer]int
)

func keyAddr(k any) (unsafe.Pointer, bool) {
	rv := reflect.ValueOf(k)
	switch rv.Kind() {
	case reflect.Ptr, reflect.UnsafePointer, reflect.Chan:
		return rv.UnsafePointer(), true
	}
	return nil, false
}

// PK passes a key of a map write through.
func PK[K any](k K) K {
	if p, ok := keyAddr(k); ok {
		if keyIDs == nil {
			keyIDs = map[unsafe.Pointer]int{}
		}
		if _, seen := keyIDs[p]; !seen {
			keyIDs[p] = len(keyIDs)
		}
	}
	return k
}

func keyRank(k any) string {
	if p, ok := keyAddr(k); ok {
		return fmt.Sprintf("p%09d", keyIDs[p])
	}
	return fmt.Sprintf("v%T%v", k, k)
}

// resetKeys forgets the keys of the previous execution.
func resetKeys() { keyIDs = nil }
