package main

import (
	"fmt"
	"math/bits"
	"reflect"
	"sort"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
)

type rbModel[K comparable] struct {
	m    map[K]int
	keys []K // every key that may occur
	less func(a, b K) bool
}

func (m *rbModel[K]) sorted() []K {
	ks := make([]K, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m.less(ks[i], ks[j]) })
	return ks
}

// rbMap compares the whole map with the model.
func rbMap[K comparable](t *T, r *rbt.RbTree[K, int], m *rbModel[K], calls *int) {
	ks := m.sorted()
	t.Check(r.Len() == len(ks), "Len is %d with %d keys", r.Len(), len(ks))
	t.Check(r.Empty() == (len(ks) == 0), "Empty is %v with %d keys", r.Empty(), len(ks))
	for _, k := range m.keys {
		v, has := m.m[k]
		t.Check(r.Search(k) == has, "Search(%v) is %v", k, r.Search(k))
		t.Check(r.Get(k) == v, "Get(%v) is %v, expected %v", k, r.Get(k), v)
	}
	got := r.Keys()
	t.Check(len(got) == len(ks), "Keys has %d keys of %d", len(got), len(ks))
	vals := r.Values()
	t.Check(len(vals) == len(ks), "Values has %d values of %d", len(vals), len(ks))
	nodes := r.Nodes()
	t.Check(len(nodes) == len(ks), "Nodes has %d pairs of %d", len(nodes), len(ks))
	for i, k := range ks {
		t.Check(got[i] == k, "key %d is %v, expected %v", i, got[i], k)
		t.Check(vals[i] == m.m[k], "value %d is %v, expected %v", i, vals[i], m.m[k])
		p := reflect.ValueOf(nodes[i])
		t.Check(p.Field(0).Equal(reflect.ValueOf(k)) && p.Field(1).Int() == int64(m.m[k]), "pair %d is %v, expected %v %v", i, nodes[i], k, m.m[k])
	}
}

// rbBalance checks the comparisons that lookups take, and the colours of the tree as long as it is made of the nodes it is now.
func rbBalance[K comparable](t *T, r *rbt.RbTree[K, int], m *rbModel[K], calls *int) {
	n := len(m.m)
	most := 2 * (bits.Len(uint(n+1)) - 1)
	if (n+1)&n != 0 {
		most += 2 // the logarithm is not whole
	}
	for _, k := range m.keys {
		*calls = 0
		r.Search(k)
		t.Check(*calls <= most, "Search(%v) compares %d times among %d keys, at most %d are allowed", k, *calls, n, most)
	}
	v := reflect.ValueOf(r).Elem()
	root, nilNode := v.FieldByName("root"), v.FieldByName("sentinel")
	if !root.IsValid() || !nilNode.IsValid() || root.Kind() != reflect.Pointer || nilNode.Kind() != reflect.Pointer || root.IsNil() {
		return
	}
	for _, f := range []string{"left", "right", "color", "key"} {
		if !root.Elem().FieldByName(f).IsValid() {
			return
		}
	}
	if root.Elem().FieldByName("color").Kind() != reflect.Bool {
		return
	}
	black := func(x reflect.Value) bool { return x.Elem().FieldByName("color").Bool() }
	var walk func(x reflect.Value) int
	walk = func(x reflect.Value) int {
		if x.Pointer() == nilNode.Pointer() {
			return 1
		}
		l, r := x.Elem().FieldByName("left"), x.Elem().FieldByName("right")
		key := fmt.Sprint(x.Elem().FieldByName("key"))
		if !black(x) {
			t.Check(black(l) && black(r), "the red node %s has a red child", key)
		}
		a, b := walk(l), walk(r)
		t.Check(a == b, "the paths below %s have %d and %d black nodes", key, a, b)
		if black(x) {
			a++
		}
		return a
	}
	t.Check(black(root), "the root is red")
	walk(root)
}

func rbRange[K comparable](t *T, r *rbt.RbTree[K, int], m *rbModel[K], calls *int) {
	same := func(sub *rbt.RbTree[K, int], in func(K) bool) {
		s := &rbModel[K]{m: map[K]int{}, keys: m.keys, less: m.less}
		for k, v := range m.m {
			if in(k) {
				s.m[k] = v
			}
		}
		rbMap(t, sub, s, calls)
		rbMap(t, r, m, calls)
		// the extracted tree and its source are independent
		k := m.keys[t.R.Intn(len(m.keys))]
		old, has := s.m[k]
		t.Check(sub.Delete(k) == old, "Delete(%v) on the extracted tree does not return %v", k, old)
		delete(s.m, k)
		j := m.keys[t.R.Intn(len(m.keys))]
		sub.Insert(j, -7)
		s.m[j] = -7
		rbMap(t, sub, s, calls)
		rbMap(t, r, m, calls)
		_ = has
	}
	a, b := m.keys[t.R.Intn(len(m.keys))], m.keys[t.R.Intn(len(m.keys))]
	x, y := t.R.Intn(2) == 0, t.R.Intn(2) == 0
	switch t.R.Intn(4) {
	case 0:
		t.Op("SubTree(%v, %v, %v, %v)", a, x, b, y)
		if m.less(b, a) {
			died := func() (d bool) {
				defer func() { d = recover() != nil }()
				r.SubTree(a, x, b, y)
				return
			}()
			t.Check(died, "SubTree(%v, %v) does not panic although the bounds cross", a, b)
			return
		}
		same(r.SubTree(a, x, b, y), func(k K) bool {
			return k == a && x || k == b && y || m.less(a, k) && m.less(k, b)
		})
	case 1:
		t.Op("LeftSubTree(%v, %v)", a, x)
		same(r.LeftSubTree(a, x), func(k K) bool { return k == a && x || m.less(k, a) })
	case 2:
		t.Op("RightSubTree(%v, %v)", a, x)
		same(r.RightSubTree(a, x), func(k K) bool { return k == a && x || m.less(a, k) })
	default:
		want := map[K]bool{}
		for _, k := range m.keys {
			want[k] = t.R.Intn(3) > 0
		}
		t.Op("GetIf(%v)", want)
		vs := r.GetIf(func(k K) bool { return want[k] })
		i := 0
		for _, k := range m.sorted() {
			if want[k] {
				t.Check(i < len(vs) && vs[i] == m.m[k], "GetIf returns %v: value %d is not %v, that of %v", vs, i, m.m[k], k)
				i++
			}
		}
		t.Check(i == len(vs), "GetIf returns %d values, expected %d", len(vs), i)
		rbMap(t, r, m, calls)
	}
}

func rbHistory[K comparable](t *T, keys []K, less func(a, b K) bool, steps int, look func(*T, *rbt.RbTree[K, int], *rbModel[K], *int), always bool) {
	t.Case(func() string {
		return fmt.Sprintf("one history over %d keys of type %T", len(keys), keys[0])
	}, func() {
		calls := 0
		r := rbt.New[K, int](gconstraints.Less[K](func(a, b K) bool { calls++; return less(a, b) }))
		m := &rbModel[K]{m: map[K]int{}, keys: keys, less: less}
		bias, run := t.R.Intn(9), t.R.Intn(4)
		at := 0
		for i := 1; i <= steps; i++ {
			k := keys[t.R.Intn(len(keys))]
			if run == 0 {
				at = (at + 1) % len(keys)
				k = keys[at]
			} else if run == 1 {
				at = (at + len(keys) - 1) % len(keys)
				k = keys[at]
			}
			was := m.m[k]
			_, has := m.m[k]
			switch x := t.R.Intn(12); {
			case x <= bias:
				t.Op("Insert(%v)", k)
				t.Check(r.Insert(k, i) == was, "Insert(%v) does not return the former value %v", k, was)
				m.m[k] = i
			case x == 10:
				t.Op("Update(%v)", k)
				v, ok := r.Update(k, i)
				t.Check(ok == has && v == was, "Update(%v) returns %v, %v, expected %v, %v", k, v, ok, was, has)
				if has {
					m.m[k] = i
				}
			case x == 11 && t.R.Intn(40) == 0:
				t.Op("Clear()")
				r.Clear()
				m.m = map[K]int{}
			default:
				t.Op("Delete(%v)", k)
				v := r.Delete(k)
				t.Check(v == was, "Delete(%v) returns %v, expected %v", k, v, was)
				delete(m.m, k)
			}
			if always || len(keys) < 40 || i%50 == 49 {
				look(t, r, m, &calls)
			}
			if t.R.Intn(60) == 0 {
				bias, run = t.R.Intn(9), t.R.Intn(4)
			}
		}
	})
}

func init() {
	type pt struct{ x, y int }
	for _, p := range []struct {
		id, rule string
		ints     func(*T, *rbt.RbTree[int, int], *rbModel[int], *int)
		pts      func(*T, *rbt.RbTree[pt, int], *rbModel[pt], *int)
	}{
		{"C11", "random histories of inserts, updates and deletes over 1 to 30 (and sometimes 300) integer or struct keys under ascending, descending and lexicographic orders, the whole map compared with a model", rbMap[int], rbMap[pt]},
		{"C12", "random histories of inserts, updates and deletes over 1 to 30 (and sometimes 300) integer or struct keys, the comparisons of every lookup counted and the colours of the nodes checked", rbBalance[int], rbBalance[pt]},
		{"C13", "random histories over 1 to 30 (and sometimes 300) integer or struct keys, one range extraction or filtered listing after every step, compared with a model; then both trees are changed and looked at again", rbRange[int], rbRange[pt]},
	} {
		p := p
		reg(p.id, p.rule, func(t *T) {
			for i := 0; t.Time() && (t.Frac2() || i < 50); i++ {
				n := 1 + t.R.Intn(30)
				if i%40 == 5 {
					n = 300
				}
				ints := make([]int, n)
				pts := make([]pt, n)
				for j := range ints {
					ints[j] = (j - n/2) * 3
					pts[j] = pt{j % 5, j / 5}
				}
				up := i%3 != 0
				rbHistory(t, ints, func(a, b int) bool {
					if up {
						return a < b
					}
					return a > b
				}, 1+t.R.Intn(30*n), p.ints, false)
				if i%2 == 0 {
					rbHistory(t, pts, func(a, b pt) bool { return a.x < b.x || a.x == b.x && a.y < b.y }, 1+t.R.Intn(10*n), p.pts, false)
				}
			}
		})
	}
}
