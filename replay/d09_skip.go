package main

import (
	"fmt"
	"sort"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
)

// skVal carries its key, which an entry does not show.
type skVal[K any] struct {
	k   K
	gen int
}

type skModel[K gconstraints.Ordered] struct {
	m    map[K]int
	keys []K
}

func (m *skModel[K]) sorted() []K {
	ks := make([]K, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// skMap checks the map operations, skOrder the traversals.
func skMap[K gconstraints.Ordered](t *T, l *gskiplist.SkipList[K, skVal[K]], m *skModel[K]) {
	ks := m.sorted()
	t.Check(l.GetNodeCount() == len(ks), "GetNodeCount is %d with %d keys", l.GetNodeCount(), len(ks))
	t.Check(l.IsEmpty() == (len(ks) == 0), "IsEmpty is %v with %d keys", l.IsEmpty(), len(ks))
	for _, k := range m.keys {
		v, ok := l.Find(k)
		g, has := m.m[k]
		t.Check(ok == has, "Find(%v) reports %v, expected %v", k, ok, has)
		if ok {
			t.Check(v.k == k && v.gen == g, "Find(%v) returns the value %v of key %v, expected %v", k, v.gen, v.k, g)
		}
		e, ok := l.FindGreaterOrEqual(k)
		i := sort.Search(len(ks), func(i int) bool { return ks[i] >= k })
		t.Check(ok == (i < len(ks)) && ok == (e != nil), "FindGreaterOrEqual(%v) reports %v, %d keys are at least that", k, ok, len(ks)-i)
		if ok {
			t.Check(e.GetValue().k == ks[i] && e.GetValue().gen == m.m[ks[i]], "FindGreaterOrEqual(%v) finds %v, expected %v", k, e.GetValue().k, ks[i])
		}
	}
}

func skOrder[K gconstraints.Ordered](t *T, l *gskiplist.SkipList[K, skVal[K]], m *skModel[K]) {
	ks := m.sorted()
	lo, hi := l.GetSmallestNode(), l.GetLargestNode()
	if len(ks) == 0 {
		t.Check(lo == nil && hi == nil, "an empty list has a smallest or largest entry")
		return
	}
	t.Check(lo != nil && lo.GetValue().k == ks[0], "the smallest entry is not that of %v", ks[0])
	t.Check(hi != nil && hi.GetValue().k == ks[len(ks)-1], "the largest entry is not that of %v", ks[len(ks)-1])
	e := lo
	for i := range ks {
		t.Check(e != nil && e.GetValue().k == ks[i] && e.GetValue().gen == m.m[ks[i]], "going forward, entry %d is not that of %v", i, ks[i])
		e = l.Next(e)
	}
	t.Check(e == lo, "going forward from the last entry does not lead to the first")
	e = hi
	for i := len(ks) - 1; i >= 0; i-- {
		t.Check(e != nil && e.GetValue().k == ks[i], "going backward, entry %d is not that of %v", i, ks[i])
		e = l.Prev(e)
	}
	t.Check(e == hi, "going backward from the first entry does not lead to the last")
}

func skHistory[K gconstraints.Ordered](t *T, keys []K, steps int, look func(*T, *gskiplist.SkipList[K, skVal[K]], *skModel[K])) {
	t.Case(func() string {
		return fmt.Sprintf("one history over %d keys of type %T (levels are random)", len(keys), keys[0])
	}, func() {
		l := gskiplist.New[K, skVal[K]]()
		m := &skModel[K]{m: map[K]int{}, keys: keys}
		bias := t.R.Intn(8)
		for i := 0; i < steps; i++ {
			k := keys[t.R.Intn(len(keys))]
			switch x := t.R.Intn(10); {
			case x <= bias:
				t.Op("Insert(%v)", k)
				l.Insert(k, skVal[K]{k, i})
				m.m[k] = i
			case x == 9:
				t.Op("ChangeValue(%v)", k)
				ok := l.ChangeValue(k, skVal[K]{k, i})
				_, has := m.m[k]
				t.Check(ok == has, "ChangeValue(%v) reports %v, expected %v", k, ok, has)
				if has {
					m.m[k] = i
				}
			default:
				t.Op("Delete(%v)", k)
				l.Delete(k)
				delete(m.m, k)
			}
			if len(keys) < 50 || i%50 == 49 {
				look(t, l, m)
			}
			if t.R.Intn(200) == 0 {
				for k := range m.m {
					t.Op("Delete(%v)", k)
					l.Delete(k)
				}
				m.m = map[K]int{}
				look(t, l, m)
				bias = t.R.Intn(8)
			}
		}
	})
}

func skDrive[T1 any](t *T, small func(n, steps int), big func()) {
	for i := 0; t.Time() && (t.Frac2() || i < 50); i++ {
		small(1+t.R.Intn(12), 1+t.R.Intn(150))
		if i%40 == 5 {
			big()
		}
	}
}

func init() {
	ints := func(n int) []int {
		ks := make([]int, n)
		for i := range ks {
			ks[i] = (i - n/2) * 3
		}
		return ks
	}
	strs := func(n int) []string {
		ks := make([]string, n)
		for i := range ks {
			ks[i] = fmt.Sprintf("%c%d", 'a'+i%26, i)
		}
		return ks
	}
	reg("C09", "random histories of inserts, value changes and deletes over 1 to 12 (and sometimes 400) integer or string keys, the whole map compared with a model after every step", func(t *T) {
		skDrive[int](t, func(n, s int) {
			skHistory(t, ints(n), s, skMap[int])
			skHistory(t, strs(n), s, skMap[string])
		}, func() { skHistory(t, ints(400), 2000, skMap[int]) })
	})
	reg("C10", "random histories of inserts, value changes and deletes over 1 to 12 (and sometimes 400) integer or string keys, a full traversal in both directions after every step", func(t *T) {
		skDrive[int](t, func(n, s int) {
			skHistory(t, ints(n), s, skOrder[int])
			skHistory(t, strs(n), s, skOrder[string])
		}, func() { skHistory(t, ints(400), 2000, skOrder[int]) })
	})
}
