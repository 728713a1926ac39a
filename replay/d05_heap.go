package main

import (
	"fmt"
	"sort"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
)

// a heap driven by a list of operations: op < 0 pops, otherwise pushes op
func checkHeap(t *T, data []int, ops []int, md int) {
	type el struct{ K, Id int }
	t.Case(func() string { return fmt.Sprintf("NewWithData(%v), then (pop = -1) %v, keys mod %d", data, ops, md) }, func() {
		key := func(v int) int {
			if md > 0 {
				return v % md
			}
			return v
		}
		less := func(a, b el) bool { return a.K < b.K }
		var bag []el
		id := 0
		mk := func(v int) el { id++; e := el{key(v), id}; bag = append(bag, e); return e }
		var h *gheap.Heap[el]
		if data == nil {
			h = gheap.New[el](less)
		} else {
			in := make([]el, 0, len(data))
			for _, v := range data {
				in = append(in, mk(v))
			}
			h = gheap.NewWithData[el](in, less)
		}
		pop := func() {
			e := gheap.Pop(h)
			at := -1
			for i, x := range bag {
				if x == e {
					at = i
				}
				t.Check(!less(x, e), "Pop = %v although %v is in the heap", e, x)
			}
			t.Check(at >= 0, "Pop = %v, which is not in the heap %v", e, bag)
			bag[at] = bag[len(bag)-1]
			bag = bag[:len(bag)-1]
		}
		for _, op := range ops {
			if op < 0 {
				if len(bag) > 0 {
					pop()
				}
			} else {
				gheap.Push(h, mk(op))
			}
		}
		for len(bag) > 0 {
			pop()
		}
		t.Check(Panics(func() { gheap.Pop(h) }) != nil, "an element is left after all were popped")
	})
}

func init() {
	reg("C05", "all heaps built from up to 6 elements over 4 values then drained, all histories of up to 6 pushes/pops over 3 values, random data and histories up to 300 elements", func(t *T) {
		for _, s := range tuples([]int{0, 1, 2, 3}, 6) {
			checkHeap(t, s, nil, 0)
		}
		for _, s := range tuples([]int{-1, 0, 1, 2}, 6) {
			checkHeap(t, nil, s, 0)
		}
		for _, n := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} {
			up := make([]int, n)
			dn := make([]int, n)
			for i := range up {
				up[i] = i
				dn[i] = n - i
			}
			for _, s := range [][]int{up, dn, t.R.Perm(n)} {
				checkHeap(t, s, nil, 0)
				checkHeap(t, nil, s, 0)
				checkHeap(t, s, s, 7)
			}
		}
		for i := 0; i < 400; i++ {
			if !t.Time() {
				break
			}
			n := t.R.Intn(40)
			if i%20 == 0 {
				n = t.R.Intn(300)
			}
			rg := []int{2, 3, 5, 10, 1000}[t.R.Intn(5)]
			d := make([]int, n)
			for j := range d {
				d[j] = t.R.Intn(rg)
			}
			o := make([]int, t.R.Intn(80))
			for j := range o {
				if t.R.Intn(2) == 0 {
					o[j] = -1
				} else {
					o[j] = t.R.Intn(rg)
				}
			}
			checkHeap(t, d, o, 0)
		}
		// other element types: strings and pointers, sorted by draining
		for i := 0; i < 60; i++ {
			n := t.R.Intn(30)
			ss := make([]string, n)
			for j := range ss {
				ss[j] = str(t.R.Intn(40))
			}
			t.Case(func() string { return fmt.Sprintf("strings %q", ss) }, func() {
				w := clone(ss)
				sort.Strings(w)
				h := gheap.NewWithData(clone(ss), func(a, b string) bool { return a < b })
				for k := range w {
					g := gheap.Pop(h)
					t.Check(g == w[k], "pop %d = %q want %q", k, g, w[k])
				}
			})
		}
	})
}
