package main

import (
	"fmt"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
)

func cpMap[K comparable, V any](m map[K]V) map[K]V {
	r := map[K]V{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func eqMap[K, V comparable](a, b map[K]V) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || w != v {
			return false
		}
	}
	return true
}

func checkMaps(t *T, m, o map[int]int, es []gconstraints.Entry[int, int]) {
	t.Case(func() string {
		return fmt.Sprintf("maps m=%v o=%v entries=%v (nil %v %v)", m, o, es, m == nil, o == nil)
	}, func() {
		m0, o0 := cpMap(m), cpMap(o)
		ks := gmap.Keys(m)
		t.Check(len(ks) == len(m), "Keys = %v", ks)
		seen := map[int]bool{}
		for _, k := range ks {
			_, ok := m[k]
			t.Check(ok && !seen[k], "Keys = %v", ks)
			seen[k] = true
		}
		vs := gmap.Values(m)
		cnt := map[int]int{}
		for _, v := range m {
			cnt[v]++
		}
		for _, v := range vs {
			cnt[v]--
		}
		t.Check(len(vs) == len(m), "Values = %v", vs)
		for _, c := range cnt {
			t.Check(c == 0, "Values = %v", vs)
		}
		en := gmap.Map2Entries(m)
		t.Check(len(en) == len(m), "Map2Entries = %v", en)
		seen = map[int]bool{}
		for _, e := range en {
			v, ok := m[e.Key]
			t.Check(ok && v == e.Value && !seen[e.Key], "Map2Entries = %v", en)
			seen[e.Key] = true
		}
		t.Check(eqMap(gmap.Entries2Map(en), m0), "Entries2Map(Map2Entries(m)) differs")
		want := map[int]int{}
		for _, e := range es {
			want[e.Key] = e.Value
		}
		g := gmap.Entries2Map(es)
		t.Check(eqMap(g, want), "Entries2Map = %v want %v", g, want)
		t.Check(gmap.Len(m) == len(m0), "Len")
		for k := -1; k < 6; k++ {
			_, ok := m0[k]
			t.Check(gmap.Contains(m, k) == ok, "Contains(%d) = %v", k, !ok)
		}
		for k := range m0 {
			t.Check(gmap.Contains(m, k), "Contains(%d) = false", k)
		}
		w := eqMap(m0, o0)
		t.Check(gmap.Equal(m, o) == w, "Equal = %v, want %v", !w, w)
		t.Check(gmap.EqualWithFunc(m, o, func(a, b int) bool { return a == b }) == w, "EqualWithFunc(==) = %v, want %v", !w, w)
		le := len(m) == len(o)
		for k, v := range m {
			x, ok := o[k]
			le = le && ok && v <= x
		}
		t.Check(gmap.EqualWithFunc(m, o, func(a, b int) bool { return a <= b }) == le, "EqualWithFunc(<=) = %v, want %v", !le, le)
		c := gmap.Copy(m)
		t.Check(eqMap(c, m0), "Copy = %v", c)
		c[77] = 1
		for k := range m0 {
			c[k] += 5
		}
		t.Check(eqMap(m, m0), "writing to the copy changes the original: %v", m)
		c = gmap.Copy(m)
		gmap.Clear(c)
		t.Check(len(c) == 0, "Clear leaves %v", c)
		t.Check(eqMap(m, m0) && eqMap(o, o0), "an argument was changed: %v %v", m, o)
		for k := range m0 {
			if m != nil {
				delete(m, k)
				t.Check(len(gmap.Keys(m)) == len(m), "Keys after delete")
			}
		}
		gmap.Clear(o)
		t.Check(len(o) == 0, "Clear leaves %v", o)
	})
}

func checkSet(t *T, ops []int) {
	t.Case(func() string { return "set history" }, func() {
		var s gset.Set[int]
		if len(ops)%2 == 0 {
			s = gset.NewSet[int]()
		} else {
			s = gset.NewSetWithSize[int](len(ops) % 5)
		}
		t.Check(len(s) == 0 && s != nil, "new set is not empty")
		ref := map[int]bool{}
		for _, op := range ops {
			k := op / 8
			switch op % 8 {
			case 0, 1, 2, 6:
				t.Op("Add %d", k)
				t.Check(gset.Add(s, k), "Add = false")
				ref[k] = true
			case 3, 4, 5:
				t.Op("Remove %d", k)
				t.Check(gset.Remove(s, k), "Remove = false")
				delete(ref, k)
			case 7:
				if k%5 == 0 {
					t.Op("Clear")
					gset.Clear(s)
					ref = map[int]bool{}
				}
			}
			t.Check(gset.Len(s) == len(ref), "Len = %d want %d", gset.Len(s), len(ref))
			for k := 0; k < 6; k++ {
				t.Check(gset.Contains(s, k) == ref[k], "Contains(%d) = %v", k, !ref[k])
			}
			t.Check(gset.Contains(s, op/8) == ref[op/8], "Contains(%d)", op/8)
			it := gset.Items(s)
			t.Check(len(it) == len(ref), "Items = %v", it)
			d := map[int]bool{}
			for _, k := range it {
				t.Check(ref[k] && !d[k], "Items = %v", it)
				d[k] = true
			}
		}
	})
}

func init() {
	reg("C03", "all pairs of maps over 3 keys and 2 values, entry lists up to length 4, set histories up to length 4 over 3 elements, then random ones", func(t *T) {
		// a map over 3 keys: each absent, 0 or 1
		mk := func(c int) map[int]int {
			m := map[int]int{}
			for k := 0; k < 3; k++ {
				if c%3 > 0 {
					m[k] = c%3 - 1
				}
				c /= 3
			}
			return m
		}
		es := []gconstraints.Entry[int, int]{{Key: 0, Value: 1}, {Key: 0, Value: 2}, {Key: 1, Value: 1}, {Key: 0, Value: 3}}
		for a := 0; a < 27; a++ {
			for b := 0; b < 27; b++ {
				checkMaps(t, mk(a), mk(b), es[:b%5])
			}
			checkMaps(t, nil, mk(a), nil)
			checkMaps(t, mk(a), nil, nil)
		}
		checkMaps(t, nil, nil, nil)
		var ee []gconstraints.Entry[int, int]
		for i := 0; i < 4; i++ {
			ee = append(ee, gconstraints.Entry[int, int]{Key: i / 2, Value: i % 2})
		}
		for _, l := range tuples(ee, 4) {
			checkMaps(t, mk(1), mk(2), l)
		}
		for _, o := range tuples([]int{0, 8, 16, 3, 11, 7}, 5) {
			checkSet(t, o)
		}
		for t.Time() {
			n := t.len()
			m, o := map[int]int{}, map[int]int{}
			var l []gconstraints.Entry[int, int]
			for i := 0; i < n; i++ {
				k, v := t.R.Intn(n+3), t.R.Intn(3)
				m[k] = v
				o[k] = v
				l = append(l, gconstraints.Entry[int, int]{Key: k / 2, Value: i})
			}
			switch t.R.Intn(4) {
			case 0:
				o[t.R.Intn(n+3)] = t.R.Intn(3)
			case 1:
				delete(o, t.R.Intn(n+3))
			case 2:
				delete(o, t.R.Intn(n+3))
				o[n+5] = 0
			}
			checkMaps(t, m, o, l)
			var ops []int
			for i := 0; i < n && i < 300; i++ {
				ops = append(ops, t.R.Intn(8*(n+1)))
			}
			checkSet(t, ops)
		}
	})
}
