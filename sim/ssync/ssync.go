// Package ssync stands in for package sync.
package ssync

import (
	"verifsim/simrt"
)

type (
	Mutex     = simrt.Mutex
	RWMutex   = simrt.RWMutex
	Locker    = simrt.Locker
	Once      = simrt.Once
	WaitGroup = simrt.WaitGroup
	Cond      = simrt.Cond
)

// OnceFunc returns a function that calls f once; if f panics, every call does.
func OnceFunc(f func()) func() {
	var once Once
	var ok bool
	var p interface{}
	return func() {
		once.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func NewCond(l Locker) *Cond { return simrt.NewCond(l) }

// Map is a linearizable map with sync.Map's interface.
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	simrt.SP(50)
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) {
	simrt.SP(51)
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	simrt.SP(51)
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	simrt.SP(51)
	v, ok := m.m[k]
	delete(m.m, k)
	m.drop(k)
	return v, ok
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	simrt.SP(51)
	o, ok := m.m[k]
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	simrt.SP(51)
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	simrt.SP(51)
	if v, ok := m.m[k]; ok && v == o {
		delete(m.m, k)
		m.drop(k)
		return true
	}
	return false
}
func (m *Map) Clear() {
	simrt.SP(51)
	m.m, m.keys = nil, nil
}
func (m *Map) drop(k interface{}) {
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, k := range append([]interface{}{}, m.keys...) {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool never loses or shares an item.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	simrt.SP(52)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	simrt.SP(52)
	p.items = append(p.items, x)
}
