package main

import (
	"errors"
	"fmt"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
)

// listModel pairs a list with the sequence it must be.
type listModel struct {
	l   *glist.List[int]
	seq []*glist.Element[int]
	val []int
}

func (m *listModel) idx(e *glist.Element[int]) int {
	for i, x := range m.seq {
		if x == e {
			return i
		}
	}
	return -1
}

func (m *listModel) insert(i int, e *glist.Element[int], v int) {
	m.seq = append(m.seq[:i:i], append([]*glist.Element[int]{e}, m.seq[i:]...)...)
	m.val = append(m.val[:i:i], append([]int{v}, m.val[i:]...)...)
}

func (m *listModel) remove(i int) {
	m.seq = append(m.seq[:i:i], m.seq[i+1:]...)
	m.val = append(m.val[:i:i], m.val[i+1:]...)
}

func (m *listModel) move(i, after int) { // the element at i is put after the element at position after (-1: front)
	e, v := m.seq[i], m.val[i]
	if i == after {
		return
	}
	m.remove(i)
	if after > i {
		after--
	}
	m.insert(after+1, e, v)
}

func (m *listModel) check(t *T) {
	t.Check(m.l.Len() == len(m.seq), "Len() = %d, want %d", m.l.Len(), len(m.seq))
	i := 0
	for e := m.l.Front(); e != nil; e = e.Next() {
		t.Check(i < len(m.seq), "forward traversal has more than %d elements", len(m.seq))
		t.Check(e == m.seq[i], "element %d of the forward traversal is the wrong element (value %d, want %d)", i, e.Value, m.val[i])
		t.Check(e.Value == m.val[i], "element %d has value %d, want %d", i, e.Value, m.val[i])
		i++
	}
	t.Check(i == len(m.seq), "forward traversal has %d elements, want %d", i, len(m.seq))
	i = len(m.seq)
	for e := m.l.Back(); e != nil; e = e.Prev() {
		i--
		t.Check(i >= 0, "backward traversal has more than %d elements", len(m.seq))
		t.Check(e == m.seq[i], "element %d met backwards is the wrong element (value %d, want %d)", i, e.Value, m.val[i])
	}
	t.Check(i == 0, "backward traversal misses %d elements", i)
	i = 0
	m.l.Range(func(e *glist.Element[int]) {
		t.Check(i < len(m.seq) && e == m.seq[i], "Range gives a wrong element at place %d", i)
		i++
	})
	t.Check(i == len(m.seq), "Range gives %d elements, want %d", i, len(m.seq))
}

// step performs operation op on list a (b is the other list) with parameters p and q.
func listStep(t *T, a, b *listModel, all *[]*glist.Element[int], next *int, op, p, q int) {
	pick := func(k int) *glist.Element[int] {
		if len(*all) == 0 {
			return nil
		}
		return (*all)[k%len(*all)]
	}
	name := func(e *glist.Element[int]) string {
		if i := a.idx(e); i >= 0 {
			return fmt.Sprintf("e%d", i)
		}
		if i := b.idx(e); i >= 0 {
			return fmt.Sprintf("foreign element %d", i)
		}
		return "removed element"
	}
	fresh := func(e *glist.Element[int], i int) {
		t.Check(e != nil, "the new element is nil")
		for _, x := range *all {
			t.Check(x != e, "the new element is an old one")
		}
		t.Check(e.Value == *next, "the new element has value %d, want %d", e.Value, *next)
		*all = append(*all, e)
		a.insert(i, e, *next)
		*next++
	}
	e, m := pick(p), pick(q)
	if e == nil && op > 1 && op < 8 {
		return
	}
	switch op {
	case 0:
		t.Op("PushFront(%d)", *next)
		fresh(a.l.PushFront(*next), 0)
	case 1:
		t.Op("PushBack(%d)", *next)
		fresh(a.l.PushBack(*next), len(a.seq))
	case 2:
		i := a.idx(e)
		t.Op("InsertBefore(%d, %s)", *next, name(e))
		r := a.l.InsertBefore(*next, e)
		if i < 0 {
			t.Check(r == nil, "an element was inserted before a mark that is not in the list")
		} else {
			fresh(r, i)
		}
	case 3:
		i := a.idx(e)
		t.Op("InsertAfter(%d, %s)", *next, name(e))
		r := a.l.InsertAfter(*next, e)
		if i < 0 {
			t.Check(r == nil, "an element was inserted after a mark that is not in the list")
		} else {
			fresh(r, i+1)
		}
	case 4:
		i := a.idx(e)
		t.Op("Remove(%s)", name(e))
		v := e.Value
		t.Check(a.l.Remove(e) == any(v), "Remove does not return the value %d", v)
		if i >= 0 {
			a.remove(i)
			t.Check(e.Next() == nil && e.Prev() == nil, "a removed element still has neighbours")
		}
	case 5:
		i := a.idx(e)
		t.Op("MoveToFront(%s)", name(e))
		a.l.MoveToFront(e)
		if i >= 0 {
			a.move(i, -1)
		}
	case 6:
		i := a.idx(e)
		t.Op("MoveToBack(%s)", name(e))
		a.l.MoveToBack(e)
		if i >= 0 {
			a.move(i, len(a.seq)-1)
		}
	case 7:
		i, j := a.idx(e), a.idx(m)
		if q%2 == 0 {
			t.Op("MoveBefore(%s, %s)", name(e), name(m))
			a.l.MoveBefore(e, m)
			if i >= 0 && j >= 0 && i != j {
				a.move(i, j-1)
			}
		} else {
			t.Op("MoveAfter(%s, %s)", name(e), name(m))
			a.l.MoveAfter(e, m)
			if i >= 0 && j >= 0 && i != j {
				a.move(i, j)
			}
		}
	case 8, 9:
		o, on := b, "the other list"
		if p%2 == 0 {
			o, on = a, "itself"
		}
		vals := clone(o.val)
		n := len(vals)
		if op == 8 {
			t.Op("PushBackList(%s)", on)
			k := len(a.seq)
			a.l.PushBackList(o.l)
			e := a.l.Back()
			for i := n - 1; i >= 0; i-- {
				t.Check(e != nil, "the list is too short after PushBackList")
				a.insert(k, e, vals[i])
				*all = append(*all, e)
				e = e.Prev()
			}
		} else {
			t.Op("PushFrontList(%s)", on)
			a.l.PushFrontList(o.l)
			e := a.l.Front()
			for i := 0; i < n; i++ {
				t.Check(e != nil, "the list is too short after PushFrontList")
				a.insert(i, e, vals[i])
				*all = append(*all, e)
				e = e.Next()
			}
		}
		for i, e := range a.seq {
			for _, f := range a.seq[:i] {
				t.Check(e != f, "an element occurs twice after appending a list")
			}
		}
	case 10: // Init, after which the former elements are used no more
		if len(a.seq) < 4 {
			var rest []*glist.Element[int]
			for _, x := range *all {
				if a.idx(x) < 0 {
					rest = append(rest, x)
				}
			}
			*all, a.seq, a.val = rest, nil, nil
			t.Op("Init()")
			t.Check(a.l.Init() == a.l, "Init does not return its list")
		}
	}
	a.check(t)
	b.check(t)
}

// ringCheck compares the ring through r with the cycle want (want[0] == r).
func ringCheck(t *T, r *gring.Ring[int], want []*gring.Ring[int]) {
	id := func(x *gring.Ring[int]) int {
		for i, y := range want {
			if x == y {
				return i
			}
		}
		return -1
	}
	t.Check(r.Len() == len(want), "Len() = %d, want %d", r.Len(), len(want))
	p := r
	for i := range want {
		t.Check(p == want[i], "going forward, element %d is element %d of the expected order", i, id(p))
		p = p.Next()
	}
	t.Check(p == r, "the ring is not closed forward after %d elements", len(want))
	for i := len(want) - 1; i >= 0; i-- {
		p = p.Prev()
		t.Check(p == want[i], "going backward, element %d is element %d of the expected order", i, id(p))
	}
	var vs []int
	r.Do(func(v any) { vs = append(vs, v.(int)) })
	t.Check(len(vs) == len(want), "Do visits %d elements, want %d", len(vs), len(want))
	for i, v := range vs {
		t.Check(v == want[i].Value, "Do visits value %d at place %d, want %d", v, i, want[i].Value)
	}
}

func rotate(c []*gring.Ring[int], i int) []*gring.Ring[int] {
	return append(clone(c[i:]), c[:i]...)
}

func init() {
	reg("C06", "operation histories on two lists (zero value and New, small-scope exhaustive, then random), every list compared with its sequence after every step", func(t *T) {
		run := func(zero bool, ops []int, par []int) {
			t.Case(func() string { return fmt.Sprintf("two lists (zero values: %v)", zero) }, func() {
				mk := func() *listModel {
					if zero {
						return &listModel{l: new(glist.List[int])}
					}
					return &listModel{l: glist.New[int]()}
				}
				a, b := mk(), mk()
				a.check(t)
				var all []*glist.Element[int]
				next := 1
				for i, op := range ops {
					x, y := a, b
					if op >= 16 {
						x, y = b, a
						t.Op("on the second list:")
					}
					listStep(t, x, y, &all, &next, op%16, par[2*i], par[2*i+1])
				}
			})
		}
		for n := 1; n <= 4; n++ { // all elements and marks of lists of up to 4 elements, one operation
			for op := 2; op <= 9; op++ {
				for p := 0; p < n+3; p++ {
					for q := 0; q < n+3; q++ {
						for _, z := range []bool{true, false} {
							var ops, par []int
							for i := 0; i < n; i++ {
								ops = append(ops, 1)
								par = append(par, 0, 0)
							}
							ops = append(ops, 17, 17, op)
							par = append(par, 0, 0, 0, 0, p, q)
							run(z, ops, par)
							run(z, append(clone(ops), 4, op), append(clone(par), q, 0, p, q))
						}
					}
				}
			}
		}
		for _, tup := range tuples([]int{0, 1, 2, 4, 5, 6, 7, 8, 9, 17, 20}, 3) {
			for k := 0; k < 4; k++ {
				var par []int
				for range tup {
					par = append(par, k, k/2)
				}
				run(k%2 == 0, tup, par)
			}
		}
		for t.Time() && (t.thorough || t.Frac2()) {
			n := 1 + t.R.Intn(60)
			ops, par := make([]int, n), make([]int, 2*n)
			for i := range ops {
				ops[i] = t.R.Intn(11)
				if ops[i] >= 8 && t.R.Intn(3) > 0 {
					ops[i] = t.R.Intn(8)
				}
				if t.R.Intn(4) == 0 {
					ops[i] += 16
				}
				par[2*i], par[2*i+1] = t.R.Intn(1000), t.R.Intn(1000)
			}
			size := 0
			for i, o := range ops { // appending lists doubles them: keep them small
				if o%16 == 8 || o%16 == 9 {
					size++
					if size > 4 {
						ops[i] = 4
					}
				}
			}
			run(t.R.Intn(2) == 0, ops, par)
		}
	})

	reg("C07", "rings of 1 to 9 elements (and larger ones), every pair of elements linked, every offset moved and unlinked, histories of links", func(t *T) {
		num := 0
		mk := func(n int) []*gring.Ring[int] {
			r := gring.New[int](n)
			var c []*gring.Ring[int]
			p := r
			for i := 0; i < n; i++ {
				c = append(c, p)
				p.Value = num
				num++
				p = p.Next()
			}
			return c
		}
		link := func(ca, cb []*gring.Ring[int], i, j int) {
			// ca != cb: splice the whole of cb starting at j after ca[i]
			a, b := rotate(ca, i), rotate(cb, j)
			n := a[0].Next()
			got := a[0].Link(b[0])
			t.Check(got == n, "Link does not return the old next element")
			ringCheck(t, a[0], append(append(clone(a[:1]), b...), a[1:]...))
		}
		cut := func(c []*gring.Ring[int], i, j int) {
			a := rotate(c, i)
			k := (j - i + len(c)) % len(c)
			n := a[0].Next()
			got := a[0].Link(a[k])
			t.Check(got == n, "Link does not return the old next element")
			if k == 0 {
				ringCheck(t, a[0], a[:1])
				if len(a) > 1 {
					ringCheck(t, n, a[1:])
				}
				return
			}
			ringCheck(t, a[0], append(clone(a[:1]), a[k:]...))
			if k > 1 {
				ringCheck(t, n, a[1:k])
			}
		}
		sizes := []int{1, 2, 3, 4, 5, 6, 7, 9}
		if t.thorough {
			sizes = append(sizes, 10, 12, 16, 17, 33)
		}
		t.Case(func() string { return "rings of no elements" }, func() {
			for _, n := range []int{0, -1, -5, -1 << 62} {
				t.Check(gring.New[int](n) == nil, "New(%d) is not nil", n)
			}
			var r *gring.Ring[int]
			t.Check(r.Len() == 0, "nil ring has length %d", r.Len())
			r.Do(func(any) { t.Fail("Do on a nil ring calls its function") })
		})
		for _, n := range append(sizes, 64, 100, 1000) {
			t.Case(func() string { return fmt.Sprintf("New(%d)", n) }, func() { c := mk(n); ringCheck(t, c[0], c) })
		}
		zero := func() []*gring.Ring[int] { return []*gring.Ring[int]{{Value: 7}} }
		t.Case(func() string { return "the zero Ring" }, func() {
			c := zero()
			ringCheck(t, c[0], c)
		})
		for _, f := range []struct {
			name string
			f    func(r *gring.Ring[int]) *gring.Ring[int]
		}{
			{"Next", func(r *gring.Ring[int]) *gring.Ring[int] { return r.Next() }},
			{"Prev", func(r *gring.Ring[int]) *gring.Ring[int] { return r.Prev() }},
			{"Move(3)", func(r *gring.Ring[int]) *gring.Ring[int] { return r.Move(3) }},
			{"Move(0)", func(r *gring.Ring[int]) *gring.Ring[int] { return r.Move(0) }},
			{"Move(-3)", func(r *gring.Ring[int]) *gring.Ring[int] { return r.Move(-3) }},
			{"Link(nil)", func(r *gring.Ring[int]) *gring.Ring[int] { return r.Link(nil) }},
			{"Link(itself)", func(r *gring.Ring[int]) *gring.Ring[int] { return r.Link(r) }},
			{"Unlink(5)", func(r *gring.Ring[int]) *gring.Ring[int] { return r.Unlink(5) }},
		} {
			t.Case(func() string { return "zero Ring: " + f.name }, func() {
				c := zero()
				t.Check(f.f(c[0]) == c[0], "%s of a zero ring is not the ring itself", f.name)
				ringCheck(t, c[0], c)
			})
		}
		for _, n := range sizes {
			for i := 0; i < n; i++ {
				for _, k := range []int{0, 1, 2, 3, n - 1, n, n + 1, 2*n - 1, 2 * n, 2*n + 1, 5 * n} {
					t.Case(func() string { return fmt.Sprintf("ring of %d, element %d, moved by %d", n, i, k) }, func() {
						c := mk(n)
						t.Check(c[i].Move(k) == c[(i+k)%n], "Move(%d) gives the wrong element", k)
						t.Check(c[i].Move(-k) == c[((i-k)%n+n)%n], "Move(%d) gives the wrong element", -k)
						ringCheck(t, c[0], c)
					})
					t.Case(func() string { return fmt.Sprintf("ring of %d, element %d, Unlink(%d)", n, i, k) }, func() {
						c := mk(n)
						a := rotate(c, i)
						got := a[0].Unlink(k)
						m := k % n
						if k <= 0 {
							t.Check(got == nil, "Unlink(%d) returns something", k)
						}
						ringCheck(t, a[0], append(clone(a[:1]), a[m+1:]...))
						if m > 0 {
							t.Check(got == a[1], "the removed ring does not start with the next element")
							ringCheck(t, got, a[1:m+1])
						}
						t.Check(c[i].Unlink(-k) == nil, "Unlink(%d) returns something", -k)
					})
				}
				for j := 0; j < n; j++ {
					t.Case(func() string { return fmt.Sprintf("ring of %d: element %d linked with element %d", n, i, j) }, func() { cut(mk(n), i, j) })
				}
				t.Case(func() string { return fmt.Sprintf("ring of %d: element %d linked with nil", n, i) }, func() {
					c := mk(n)
					t.Check(c[i].Link(nil) == c[(i+1)%n], "Link(nil) does not return the next element")
					ringCheck(t, c[0], c)
				})
			}
			for _, m := range sizes {
				for i := 0; i < n; i++ {
					for j := 0; j < m; j++ {
						t.Case(func() string {
							return fmt.Sprintf("element %d of a ring of %d linked with element %d of a ring of %d", i, n, j, m)
						}, func() { link(mk(n), mk(m), i, j) })
					}
				}
			}
			t.Case(func() string { return fmt.Sprintf("ring of %d linked with a zero ring", n) }, func() { link(mk(n), zero(), n/2, 0) })
			t.Case(func() string { return fmt.Sprintf("zero ring linked with a ring of %d", n) }, func() { link(zero(), mk(n), 0, n/2) })
		}
		t.Case(func() string { return "two zero rings linked" }, func() { link(zero(), zero(), 0, 0) })
		for t.Time() && (t.thorough || t.Frac2()) {
			t.Case(func() string { return "history of links" }, func() {
				var rings [][]*gring.Ring[int]
				for i := 0; i < 4; i++ {
					rings = append(rings, mk(1+t.R.Intn(9)))
				}
				for s := 0; s < 12; s++ {
					x, y := t.R.Intn(len(rings)), t.R.Intn(len(rings))
					i, j := t.R.Intn(len(rings[x])), t.R.Intn(len(rings[y]))
					t.Op("Link element %d of ring %d (%d elements), element %d of ring %d (%d elements)", i, x, len(rings[x]), j, y, len(rings[y]))
					if x == y {
						cut(rings[x], i, j)
						a := rotate(rings[x], i)
						k := (j - i + len(a)) % len(a)
						switch {
						case k == 0 && len(a) > 1:
							rings[x] = a[:1]
							rings = append(rings, a[1:])
						case k > 1:
							rings[x] = append(clone(a[:1]), a[k:]...)
							rings = append(rings, clone(a[1:k]))
						}
					} else {
						link(rings[x], rings[y], i, j)
						a, b := rotate(rings[x], i), rotate(rings[y], j)
						rings[x] = append(append(clone(a[:1]), b...), a[1:]...)
						rings = append(rings[:y:y], rings[y+1:]...)
					}
					for _, c := range rings {
						ringCheck(t, c[0], c)
					}
				}
			})
		}
	})

	reg("C08", "histories of queue operations compared with a slice", func(t *T) {
		type S struct {
			a int
			b string
		}
		check := func(q *gqueue.Queue[S], want []S) {
			t.Check(q.Len() == len(want), "Len() = %d, want %d", q.Len(), len(want))
			t.Check(gqueue.IsEmpty(q) == (len(want) == 0), "IsEmpty() = %v with %d elements", gqueue.IsEmpty(q), len(want))
			for i := 0; i < 2; i++ {
				all := gqueue.PeekAll(q)
				t.Check(same(all, want), "PeekAll = %v, want %v", all, want)
				v, err := gqueue.Peek(q)
				if len(want) == 0 {
					t.Check(errors.Is(err, gqueue.ErrorEmptyQueue) && v == S{}, "Peek on an empty queue: %v, %v", v, err)
				} else {
					t.Check(err == nil && v == want[0], "Peek = %v, %v, want %v", v, err, want[0])
				}
			}
		}
		run := func(n int, ops []int) {
			t.Case(func() string { return fmt.Sprintf("queue of %d elements made by Gen (New when -1)", n) }, func() {
				q := gqueue.New[S]()
				var want []S
				next := 0
				val := func() S { next++; return S{next, fmt.Sprint(next)} }
				if n >= 0 {
					for i := 0; i < n; i++ {
						want = append(want, val())
					}
					in := clone(want)
					q = gqueue.Gen(in)
					for i := range in {
						in[i] = S{-1, "overwritten"}
					}
				}
				check(q, want)
				for _, o := range ops {
					switch o {
					case 0, 5, 6:
						v := val()
						t.Op("Push(%v)", v)
						t.Check(q.Push(v) == nil, "Push fails")
						want = append(want, v)
					case 1, 7:
						v, err := q.Pop()
						t.Op("Pop() = %v, %v", v, err)
						if len(want) == 0 {
							t.Check(errors.Is(err, gqueue.ErrorEmptyQueue) && v == S{}, "Pop on an empty queue: %v, %v", v, err)
						} else {
							t.Check(err == nil && v == want[0], "Pop() = %v, %v, want %v", v, err, want[0])
							want = want[1:]
						}
					case 2:
						t.Op("Clear()")
						gqueue.Clear(q)
						want = nil
					case 3:
						t.Op("Iterator()")
						ch := gqueue.Iterator(q)
						var got []S
						for v := range ch {
							got = append(got, v)
						}
						t.Check(same(got, want), "the iterator gives %v, want %v", got, want)
						want = nil
					case 4:
						all := gqueue.PeekAll(q)
						for i := range all {
							all[i] = S{-2, "overwritten"}
						}
					}
					check(q, want)
				}
			})
		}
		for n := -1; n < 4; n++ {
			for _, ops := range tuples([]int{0, 1, 2, 3, 4}, 5) {
				run(n, ops)
			}
		}
		for t.Time() && (t.thorough || t.Frac2()) {
			ops := make([]int, t.R.Intn(80))
			for i := range ops {
				ops[i] = t.R.Intn(8)
			}
			run(t.R.Intn(40)-1, ops)
		}
	})
}
