package main

import "sort"

// factMap maps expressions to ranges; it is copied on write.
type factMap struct {
	s      []factEnt
	shared bool
}
type factEnt struct {
	e *Expr
	n Num
}

func (m *factMap) find(e *Expr) (int, bool) {
	s := m.s
	lo, hi := 0, len(s)
	for lo < hi {
		mid := int(uint(lo+hi) >> 1)
		if s[mid].e.id < e.id {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return lo, lo < len(s) && s[lo].e == e
}
func (m *factMap) get(e *Expr) (Num, bool) {
	if e == nil {
		return Num{}, false
	}
	if i, ok := m.find(e); ok {
		return m.s[i].n, true
	}
	return Num{}, false
}
func (m *factMap) set(e *Expr, n Num) {
	if e == nil {
		return
	}
	i, ok := m.find(e)
	if m.shared {
		c := make([]factEnt, len(m.s), len(m.s)+16)
		copy(c, m.s)
		m.s = c
		m.shared = false
	}
	if ok {
		m.s[i].n = n
		return
	}
	m.s = append(m.s, factEnt{})
	copy(m.s[i+1:], m.s[i:])
	m.s[i] = factEnt{e, n}
}
func (m *factMap) copy() factMap {
	m.shared = true
	return factMap{m.s, true}
}
func (m *factMap) len() int { return len(m.s) }

// filter keeps the entries satisfying f.
func (m *factMap) filter(f func(e *Expr) bool) {
	c := make([]factEnt, 0, len(m.s))
	for _, x := range m.s {
		if f(x.e) {
			c = append(c, x)
		}
	}
	m.s, m.shared = c, false
}
func (m *factMap) sort() {
	sort.Slice(m.s, func(i, j int) bool { return m.s[i].e.id < m.s[j].e.id })
}

// heapMap maps object ids to their states; it is copied on write.
type heapMap struct {
	s      []heapEnt
	shared bool
}
type heapEnt struct {
	id int
	o  *ObjSt
}

func (m *heapMap) find(id int) (int, bool) {
	s := m.s
	lo, hi := 0, len(s)
	for lo < hi {
		mid := int(uint(lo+hi) >> 1)
		if s[mid].id < id {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	return lo, lo < len(s) && s[lo].id == id
}
func (m *heapMap) get(id int) *ObjSt {
	if i, ok := m.find(id); ok {
		return m.s[i].o
	}
	return nil
}
func (m *heapMap) set(id int, o *ObjSt) {
	i, ok := m.find(id)
	if m.shared {
		c := make([]heapEnt, len(m.s), len(m.s)+8)
		copy(c, m.s)
		m.s = c
		m.shared = false
	}
	if ok {
		m.s[i].o = o
		return
	}
	m.s = append(m.s, heapEnt{})
	copy(m.s[i+1:], m.s[i:])
	m.s[i] = heapEnt{id, o}
}
func (m *heapMap) copy() heapMap {
	m.shared = true
	return heapMap{m.s, true}
}
func (m *heapMap) len() int { return len(m.s) }
