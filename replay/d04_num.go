package main

import (
	"fmt"

	"github.com/miniLCT/gosb/gogenerics/gnumerics"
)

type kv struct{ K, Id int }

func checkExt(t *T, s []int) {
	t.Case(func() string { return fmt.Sprintf("collection %v", s) }, func() {
		s0 := clone(s)
		mx, mn := 0, 0
		for i, v := range s {
			if i == 0 || v > mx {
				mx = v
			}
			if i == 0 || v < mn {
				mn = v
			}
		}
		t.Check(gnumerics.MaxCollection(s) == mx, "MaxCollection = %d want %d", gnumerics.MaxCollection(s), mx)
		t.Check(gnumerics.MinCollection(s) == mn, "MinCollection = %d want %d", gnumerics.MinCollection(s), mn)
		fs := make([]float64, len(s))
		st := make([]string, len(s))
		us := make([]uint8, len(s))
		smx, smn := "", ""
		var umx, umn uint8
		for i, v := range s {
			fs[i] = float64(v) / 4
			st[i] = str(v)
			us[i] = uint8(v)
			if i == 0 || st[i] > smx {
				smx = st[i]
			}
			if i == 0 || st[i] < smn {
				smn = st[i]
			}
			if i == 0 || us[i] > umx {
				umx = us[i]
			}
			if i == 0 || us[i] < umn {
				umn = us[i]
			}
		}
		t.Check(gnumerics.MaxCollection(fs) == float64(mx)/4, "MaxCollection(%v) = %v", fs, gnumerics.MaxCollection(fs))
		t.Check(gnumerics.MinCollection(fs) == float64(mn)/4, "MinCollection(%v) = %v", fs, gnumerics.MinCollection(fs))
		t.Check(gnumerics.MaxCollection(st) == smx, "MaxCollection(%q) = %q", st, gnumerics.MaxCollection(st))
		t.Check(gnumerics.MinCollection(st) == smn, "MinCollection(%q) = %q", st, gnumerics.MinCollection(st))
		t.Check(gnumerics.MaxCollection(us) == umx, "MaxCollection(%v) = %v", us, gnumerics.MaxCollection(us))
		t.Check(gnumerics.MinCollection(us) == umn, "MinCollection(%v) = %v", us, gnumerics.MinCollection(us))
		for _, md := range []int{1, 2, 3, 0} {
			ks := make([]kv, len(s))
			for i, v := range s {
				k := v
				if md > 0 {
					k = ((v % md) + md) % md
				}
				ks[i] = kv{k, i + 1}
			}
			var bx, bn kv
			for i, v := range ks {
				if i == 0 || v.K > bx.K {
					bx = v
				}
				if i == 0 || v.K < bn.K {
					bn = v
				}
			}
			g := gnumerics.MaxBy(ks, func(a, b kv) bool { return a.K > b.K })
			t.Check(g == bx, "MaxBy(%v) = %v want %v (the first greatest)", ks, g, bx)
			g = gnumerics.MinBy(ks, func(a, b kv) bool { return a.K < b.K })
			t.Check(g == bn, "MinBy(%v) = %v want %v (the first least)", ks, g, bn)
		}
		t.Check(same(s, s0), "argument changed: %v", s)
		for i := 1; i < len(s) && i < 6; i++ {
			a, b := s[i-1], s[i]
			x, n := a, b
			if b > a {
				x, n = b, a
			}
			t.Check(gnumerics.Max(a, b) == x, "Max(%d,%d) = %d", a, b, gnumerics.Max(a, b))
			t.Check(gnumerics.Min(a, b) == n, "Min(%d,%d) = %d", a, b, gnumerics.Min(a, b))
			t.Check(gnumerics.Max(str(a), str(b)) >= str(a) && gnumerics.Max(str(a), str(b)) >= str(b), "Max(%q,%q)", str(a), str(b))
			t.Check(gnumerics.Min(str(a), str(b)) <= str(a) && gnumerics.Min(str(a), str(b)) <= str(b), "Min(%q,%q)", str(a), str(b))
		}
	})
}

func init() {
	reg("C04", "all int collections up to length 6 over 3 values, then random ones up to length 4097", func(t *T) {
		checkExt(t, nil)
		for _, s := range tuples([]int{-1, 0, 1}, 6) {
			checkExt(t, s)
		}
		for _, s := range tuples([]int{-5, -4, 3, 7}, 4) {
			checkExt(t, s)
		}
		for _, n := range lens {
			for _, at := range []int{0, 1, n / 2, n - 2, n - 1} {
				if at >= 0 && at < n {
					for _, d := range []int{-1, 1} {
						s := make([]int, n)
						s[at] = d
						checkExt(t, s)
						for i := range s {
							s[i] -= 9
						}
						checkExt(t, s)
					}
				}
			}
		}
		for t.Time() {
			checkExt(t, t.ints())
		}
	})
}
