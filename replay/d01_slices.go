package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
)

// interesting lengths: around powers of two
var lens = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097}

func (t *T) len() int {
	switch t.R.Intn(10) {
	case 0:
		return lens[t.R.Intn(len(lens))]
	case 1:
		return lens[t.R.Intn(30)]
	case 2, 3:
		return t.R.Intn(40)
	}
	return t.R.Intn(9)
}

func (t *T) ints() []int {
	n := t.len()
	m := []int{1, 2, 3, 5, 10, 100, 1 << 30}[t.R.Intn(7)]
	s := make([]int, n)
	for i := range s {
		s[i] = t.R.Intn(m) - m/2
	}
	if t.R.Intn(4) == 0 {
		sort.Ints(s)
		if n > 1 && t.R.Intn(2) == 0 {
			i := t.R.Intn(n)
			s[i] += t.R.Intn(3) - 1
		}
	}
	return s
}

// placed puts the contents inside a larger array with sentinels around; check tells whether they survived.
func placed[V comparable](s []V, sentinel V, pre, post int) (sl []V, intact func() bool) {
	a := make([]V, pre+len(s)+post)
	for i := range a {
		a[i] = sentinel
	}
	copy(a[pre:], s)
	sl = a[pre : pre+len(s)]
	return sl, func() bool {
		for i := 0; i < pre; i++ {
			if a[i] != sentinel {
				return false
			}
		}
		for i := pre + len(s); i < len(a); i++ {
			if a[i] != sentinel {
				return false
			}
		}
		return true
	}
}

func str(v int) string { return strings.Repeat("x", v&3) + fmt.Sprint(v) }

func checkQueries(t *T, s []int, b []int) {
	t.Case(func() string { return fmt.Sprintf("queries over s=%v b=%v nil=%v,%v", s, b, s == nil, b == nil) }, func() {
		s0, b0 := clone(s), clone(b)
		eq := func(x, y int) bool { return x == y }
		want := len(s) == len(b)
		for i := 0; want && i < len(s); i++ {
			want = s[i] == b[i]
		}
		t.Check(gslice.Equal(s, b) == want, "Equal = %v, want %v", !want, want)
		t.Check(gslice.EqualWithFunc(s, b, eq) == want, "EqualWithFunc = %v, want %v", !want, want)
		// an asymmetric comparison between different types
		ss := make([]string, len(b))
		for i, v := range b {
			ss[i] = fmt.Sprint(v)
		}
		t.Check(gslice.EqualWithFunc(s, ss, func(x int, y string) bool { return fmt.Sprint(x) == y }) == want, "EqualWithFunc[int,string] = %v, want %v", !want, want)
		le := len(s) == len(b)
		for i := 0; le && i < len(s); i++ {
			le = s[i] <= b[i]
		}
		t.Check(gslice.EqualWithFunc(s, b, func(x, y int) bool { return x <= y }) == le, "EqualWithFunc(<=) = %v, want %v", !le, le)
		targets := []int{-2, -1, 0, 1, 2, 3}
		if len(s) > 0 {
			targets = append(targets, s[len(s)-1], s[len(s)/2], s[t.R.Intn(len(s))], s[0]+1)
		}
		for _, v := range targets {
			idx := -1
			for i := len(s) - 1; i >= 0; i-- {
				if s[i] == v {
					idx = i
				}
			}
			got := gslice.Index(s, v)
			t.Check(got == idx, "Index(%d) = %d, want %d", v, got, idx)
			got = gslice.IndexWithFunc(s, func(x int) bool { return x == v })
			t.Check(got == idx, "IndexWithFunc(==%d) = %d, want %d", v, got, idx)
			t.Check(gslice.Contains(s, v) == (idx >= 0), "Contains(%d) = %v", v, idx < 0)
			t.Check(gslice.ContainsWithFunc(s, func(x int) bool { return x == v }) == (idx >= 0), "ContainsWithFunc(==%d) = %v", v, idx < 0)
			gt := -1
			for i := len(s) - 1; i >= 0; i-- {
				if s[i] > v {
					gt = i
				}
			}
			got = gslice.IndexWithFunc(s, func(x int) bool { return x > v })
			t.Check(got == gt, "IndexWithFunc(>%d) = %d, want %d", v, got, gt)
			t.Check(gslice.ContainsWithFunc(s, func(x int) bool { return x > v }) == (gt >= 0), "ContainsWithFunc(>%d)", v)
		}
		t.Check(gslice.Len(s) == len(s), "Len")
		sorted, strict := true, true
		for i := 1; i < len(s); i++ {
			sorted = sorted && !(s[i] < s[i-1])
			strict = strict && !(s[i] > s[i-1])
		}
		t.Check(gslice.IsSorted(s) == sorted, "IsSorted = %v, want %v", !sorted, sorted)
		t.Check(gslice.IsSortedFunc(s, func(x, y int) bool { return x < y }) == sorted, "IsSortedFunc(<) = %v, want %v", !sorted, sorted)
		t.Check(gslice.IsSortedFunc(s, func(x, y int) bool { return x > y }) == strict, "IsSortedFunc(>) = %v, want %v", !strict, strict)
		st := make([]string, len(s))
		fl := make([]float64, len(s))
		by := make([]byte, len(s))
		for i, v := range s {
			st[i] = str(v)
			fl[i] = float64(v) / 2
			by[i] = byte(v)
		}
		sst := true
		sby := true
		for i := 1; i < len(s); i++ {
			sst = sst && !(st[i] < st[i-1])
			sby = sby && !(by[i] < by[i-1])
		}
		t.Check(gslice.IsSorted(st) == sst, "IsSorted(%q) = %v", st, !sst)
		t.Check(gslice.IsSorted(fl) == sorted, "IsSorted(%v) = %v", fl, !sorted)
		t.Check(gslice.IsSorted(by) == sby, "IsSorted(%v) = %v", by, !sby)
		t.Check(same(s, s0) && same(b, b0), "a query wrote to its argument: %v %v", s, b)
	})
}

func checkTransforms(t *T, s, b []int, pre, post int, nilS bool) {
	t.Case(func() string {
		return fmt.Sprintf("transformations of s=%v (in an array with %d before, %d spare; nil=%v) b=%v", s, pre, post, nilS, b)
	}, func() {
		const mark = -987654
		sl, intact := placed(s, mark, pre, post)
		bl, intactB := placed(b, mark, 1, post)
		if nilS {
			sl = nil
		}
		checkIn := func(what string) {
			t.Check(same(sl, s) && intact(), "%s wrote to the caller's array: %v", what, sl[:cap(sl)])
			t.Check(same(bl, b) && intactB(), "%s wrote to the second argument's array: %v", what, bl[:cap(bl)])
		}
		sep := func(what string, r []int) {
			r = r[:cap(r)]
			for i := range r {
				r[i] = mark + 1
			}
			checkIn("writing to the result of " + what)
		}
		c := gslice.Copy(sl)
		t.Check(same(c, s), "Copy = %v", c)
		if !(len(s) == 0) {
			sep("Copy", c)
		}
		checkIn("Copy")
		m := gslice.Merge(sl, bl)
		t.Check(same(m, append(clone(s), b...)), "Merge = %v", m)
		checkIn("Merge")
		m2 := gslice.Merge(sl, bl)
		m3 := gslice.Merge(sl, clone(b))
		sep("Merge", m3)
		t.Check(same(m2, append(clone(s), b...)), "second Merge changed by writing to the third: %v", m2)
		sep("Merge", m)
		if !nilS {
			mm := gslice.Merge(sl, sl)
			t.Check(same(mm, append(clone(s), s...)), "Merge(s,s) = %v", mm)
			checkIn("Merge(s,s)")
		}
		me := gslice.Merge(sl, nil)
		t.Check(same(me, s), "Merge(s,nil) = %v", me)
		sep("Merge(s,nil)", me)
		me = gslice.Merge(nil, bl)
		t.Check(same(me, b), "Merge(nil,b) = %v", me)
		sep("Merge(nil,b)", me)
		for _, md := range []int{0, 2, 3} {
			key := func(v int) int {
				if md == 0 {
					return v
				}
				return ((v % md) + md) % md
			}
			seen := map[int]bool{}
			var want []int
			for _, v := range s {
				if !seen[key(v)] {
					seen[key(v)] = true
					want = append(want, v)
				}
			}
			var got []int
			var n int
			if md == 0 {
				got, n = gslice.Unique(sl)
			} else {
				got, n = gslice.UniqueWithFunc(sl, key)
			}
			t.Check(n == len(want) && same(got, want), "Unique(mod %d) = %v, %d want %v, %d", md, got, n, want, len(want))
			checkIn("Unique")
			sep("Unique", got)
		}
		// strings
		ss := make([]string, len(s))
		for i, v := range s {
			ss[i] = str(v)
		}
		gu, gn := gslice.UniqueWithFunc(ss, func(v string) int { return len(v) })
		seen := map[int]bool{}
		var wu []string
		for _, v := range ss {
			if !seen[len(v)] {
				seen[len(v)] = true
				wu = append(wu, v)
			}
		}
		t.Check(gn == len(wu) && same(gu, wu), "UniqueWithFunc(len) = %q want %q", gu, wu)
		r := gslice.Reverse(sl)
		want := make([]int, len(s))
		for i, v := range s {
			want[len(s)-1-i] = v
		}
		t.Check(same(sl, want), "Reverse leaves %v, want %v", sl, want)
		t.Check(len(r) == len(sl) && (len(r) == 0 || &r[0] == &sl[0]), "Reverse returns another slice")
		t.Check(intact(), "Reverse wrote outside its argument")
	})
}

func init() {
	reg("C01", "all int slices up to length 5 over 3 values, pairs up to length 4 over 2 values, then random slices up to length 4097 with duplicates and nearly sorted ones", func(t *T) {
		for _, s := range tuples([]int{0, 1, 2}, 5) {
			checkQueries(t, s, clone(s))
			if len(s) > 0 {
				checkQueries(t, s, s[:len(s)-1])
				checkQueries(t, s[:len(s)-1], s)
				d := clone(s)
				d[t.R.Intn(len(d))]++
				checkQueries(t, s, d)
			}
		}
		checkQueries(t, nil, nil)
		checkQueries(t, nil, []int{})
		checkQueries(t, []int{}, nil)
		checkQueries(t, nil, []int{0})
		small := tuples([]int{0, 1}, 4)
		for _, a := range small {
			for _, b := range small {
				checkQueries(t, a, b)
			}
		}
		for _, n := range lens {
			s := make([]int, n)
			for i := range s {
				s[i] = i * 2
			}
			checkQueries(t, s, clone(s))
			for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
				if i >= 0 && i < n {
					d := clone(s)
					d[i] -= 3
					checkQueries(t, d, s)
					d[i] += 7
					checkQueries(t, d, s)
				}
			}
		}
		for t.Time() {
			s := t.ints()
			b := clone(s)
			if len(b) > 0 && t.R.Intn(2) == 0 {
				b[t.R.Intn(len(b))] += t.R.Intn(3) - 1
			}
			checkQueries(t, s, b)
		}
	})
	reg("C02", "all int slices up to length 5 over 3 values with 0..3 spare capacity, pairs up to length 3, then random slices up to length 4097", func(t *T) {
		for _, s := range tuples([]int{0, 1, 2}, 5) {
			for post := 0; post < 3; post++ {
				checkTransforms(t, s, []int{7, 8}[:post], post%2, post*2, false)
			}
		}
		checkTransforms(t, nil, nil, 0, 0, true)
		checkTransforms(t, nil, []int{1}, 0, 1, true)
		small := tuples([]int{0, 1}, 3)
		for _, a := range small {
			for _, b := range small {
				checkTransforms(t, a, b, 1, 4, false)
			}
		}
		for _, n := range lens {
			s := make([]int, n)
			for i := range s {
				s[i] = i
			}
			checkTransforms(t, s, s[:n/2], 1, n, false)
			checkTransforms(t, s[:n/2], s, 1, n, false)
		}
		for t.Time() {
			s, b := t.ints(), t.ints()
			checkTransforms(t, s, b, t.R.Intn(3), t.R.Intn(2*len(b)+3), false)
		}
	})
}
