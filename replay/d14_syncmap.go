package main

import (
	"fmt"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
)

// smHistory runs one history of operations against an ordinary map; vals are the values used, same compares them.
func smHistory[V comparable](t *T, what string, keys int, vals []V) {
	t.Case(func() string { return fmt.Sprintf("sync.Map with int keys and %s values, from empty", what) }, func() {
		var m gsync.Map[int, V]
		ref := map[int]V{}
		n := 1 + t.R.Intn(60)
		if t.R.Intn(4) == 0 {
			n = 60 + t.R.Intn(300)
		}
		// a history prefers some of the operations
		w := make([]int, 11)
		tot := 0
		for i := range w {
			w[i] = t.R.Intn(4)
			tot += w[i]
		}
		w[0]++
		tot++
		var zero V
		for i := 0; i < n; i++ {
			k := t.R.Intn(keys)
			v := vals[t.R.Intn(len(vals))]
			u := vals[t.R.Intn(len(vals))]
			cur, has := ref[k]
			if has && t.R.Intn(2) == 0 {
				u = cur
			}
			r, op := t.R.Intn(tot), 0
			for r >= w[op] {
				r -= w[op]
				op++
			}
			switch op {
			case 0:
				t.Op("Store(%d, %v)", k, v)
				m.Store(k, v)
				ref[k] = v
			case 1, 2:
				t.Op("Load(%d)", k)
				g, ok := m.Load(k)
				t.Check(ok == has && g == cur, "Load(%d) = %v, %v; the map has %v, %v", k, g, ok, cur, has)
			case 3:
				t.Op("LoadOrStore(%d, %v)", k, v)
				g, ok := m.LoadOrStore(k, v)
				want := v
				if has {
					want = cur
				}
				t.Check(ok == has && g == want, "LoadOrStore(%d, %v) = %v, %v; expected %v, %v", k, v, g, ok, want, has)
				ref[k] = want
			case 4:
				t.Op("LoadAndDelete(%d)", k)
				g, ok := m.LoadAndDelete(k)
				t.Check(ok == has && g == cur, "LoadAndDelete(%d) = %v, %v; expected %v, %v", k, g, ok, cur, has)
				delete(ref, k)
			case 5:
				t.Op("Delete(%d)", k)
				m.Delete(k)
				delete(ref, k)
			case 6:
				t.Op("Swap(%d, %v)", k, v)
				g, ok := m.Swap(k, v)
				t.Check(ok == has && g == cur, "Swap(%d, %v) = %v, %v; expected %v, %v", k, v, g, ok, cur, has)
				ref[k] = v
			case 7:
				t.Op("CompareAndSwap(%d, %v, %v)", k, u, v)
				ok := m.CompareAndSwap(k, u, v)
				want := has && cur == u
				t.Check(ok == want, "CompareAndSwap(%d, %v, %v) = %v with the current value %v, %v", k, u, v, ok, cur, has)
				if want {
					ref[k] = v
				}
			case 8:
				t.Op("CompareAndDelete(%d, %v)", k, u)
				ok := m.CompareAndDelete(k, u)
				want := has && cur == u
				t.Check(ok == want, "CompareAndDelete(%d, %v) = %v with the current value %v, %v", k, u, ok, cur, has)
				if want {
					delete(ref, k)
				}
			case 9:
				stop := t.R.Intn(len(ref) + 2)
				t.Op("Range, stopping after %d pairs", stop)
				seen := map[int]bool{}
				stopped := false
				m.Range(func(k int, v V) bool {
					t.Check(!stopped, "Range goes on with %d, %v after it was told to stop", k, v)
					x, ok := ref[k]
					t.Check(ok && x == v, "Range visits %d, %v; the map has %v, %v", k, v, x, ok)
					t.Check(!seen[k], "Range visits %d twice", k)
					seen[k] = true
					stopped = len(seen) == stop
					return !stopped
				})
				if stop > 0 && stop <= len(ref) {
					t.Check(len(seen) == stop, "Range visits %d pairs, told to stop after %d of %d", len(seen), stop, len(ref))
				} else {
					t.Check(len(seen) == len(ref), "Range visits %d of %d pairs", len(seen), len(ref))
				}
			case 10:
				// miss as often as it takes to promote
				c := t.R.Intn(keys + 2)
				t.Op("%d times Load of a key never stored", c)
				for j := 0; j < c; j++ {
					g, ok := m.Load(-1)
					t.Check(!ok && g == zero, "Load(-1) = %v, %v", g, ok)
				}
			}
			if t.R.Intn(8) == 0 {
				for k := 0; k < keys; k++ {
					t.Op("Load(%d)", k)
					g, ok := m.Load(k)
					cur, has := ref[k]
					t.Check(ok == has && g == cur, "Load(%d) = %v, %v; the map has %v, %v", k, g, ok, cur, has)
				}
			}
		}
		cnt := 0
		t.Op("Range over all")
		m.Range(func(k int, v V) bool {
			x, ok := ref[k]
			t.Check(ok && x == v, "Range visits %d, %v; the map has %v, %v", k, v, x, ok)
			cnt++
			return true
		})
		t.Check(cnt == len(ref), "Range visits %d of %d pairs", cnt, len(ref))
	})
}

func init() {
	reg("C14", "random histories of every operation on few keys, compared with an ordinary map; values are ints, structs, interfaces (including nil), pointers (including nil) and empty structs", func(t *T) {
		type st struct {
			A int
			B string
		}
		p, q := new(int), new(int)
		for t.Time() {
			keys := 1 + t.R.Intn(6)
			switch t.R.Intn(6) {
			case 0, 1:
				smHistory(t, "int", keys, []int{0, 1, 2, 3, -1, 1 << 62})
			case 2:
				smHistory(t, "struct", keys, []st{{}, {1, "a"}, {1, "b"}, {2, "a"}})
			case 3:
				smHistory(t, "any", keys, []any{nil, 0, "", 1, st{}, 1.5, int32(1)})
			case 4:
				smHistory(t, "pointer", keys, []*int{nil, p, q})
			case 5:
				smHistory(t, "empty struct", keys, []struct{}{{}})
			}
		}
	})
}
