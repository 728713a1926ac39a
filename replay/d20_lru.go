package main

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/library/cachex"
)

// lruOp is one step: g Get, s Set, m MGet, w MSet, d Delete.
type lruOp struct {
	kind byte
	keys []int
	dead bool // written with a lifetime that is already over
}

func (o lruOp) String() string {
	n := map[byte]string{'g': "Get", 's': "Set", 'm': "MGet", 'w': "MSet", 'd': "Delete"}[o.kind]
	s := fmt.Sprintf("%s%v", n, o.keys)
	if o.dead {
		s += " with ttl -1s"
	}
	return s
}

type lruEnt struct {
	k, v, used int
	dead       bool
}

// lruModel is the cache as the property describes it: most recent first.
type lruModel []lruEnt

func (m lruModel) find(k int) int {
	for i, e := range m {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (m lruModel) without(i int) lruModel {
	return append(append(lruModel{}, m[:i]...), m[i+1:]...)
}

func (m lruModel) get(k, maxUsed int) (lruModel, int, bool) {
	i := m.find(k)
	if i < 0 {
		return m, 0, false
	}
	e := m[i]
	rest := m.without(i)
	if maxUsed > 0 && e.used >= maxUsed || e.dead {
		return rest, 0, false
	}
	e.used++
	return append(lruModel{e}, rest...), e.v, true
}

func (m lruModel) set(k, v int, dead bool, cap int) lruModel {
	if i := m.find(k); i >= 0 {
		m = m.without(i)
	}
	m = append(lruModel{{k, v, 0, dead}}, m...)
	if len(m) > cap {
		m = m[:cap]
	}
	return m
}

func (m lruModel) key() string { return fmt.Sprint([]lruEnt(m)) }

func perms(ks []int) [][]int {
	if len(ks) <= 1 {
		return [][]int{clone(ks)}
	}
	var out [][]int
	for i := range ks {
		rest := append(clone(ks[:i]), ks[i+1:]...)
		for _, p := range perms(rest) {
			out = append(out, append([]int{ks[i]}, p...))
		}
	}
	return out
}

// lruRun runs a history and keeps every model state that explains what was observed
// (a batch write may be applied in any order).
func lruRun(t *T, capn, maxUsed int, ops []lruOp) {
	ctx := context.Background()
	c := cachex.NewLRUCacheV2[int, int](capn, maxUsed)
	states := []lruModel{{}}
	next := 100
	step := func(o lruOp) {
		ttl := time.Hour
		if o.dead {
			ttl = -time.Second
		}
		var ns []lruModel
		seen := map[string]bool{}
		keep := func(m lruModel) {
			if s := m.key(); !seen[s] {
				seen[s] = true
				ns = append(ns, m)
			}
		}
		obs := ""
		switch o.kind {
		case 'g':
			v, ok, err := c.Get(ctx, o.keys[0])
			t.Check(err == nil, "%v: error %v", o, err)
			obs = fmt.Sprint(v, ok)
			for _, m := range states {
				if m2, v2, ok2 := m.get(o.keys[0], maxUsed); v2 == v && ok2 == ok {
					keep(m2)
				}
			}
		case 'm':
			vs, oks, err := c.MGet(ctx, o.keys...)
			t.Check(err == nil && len(vs) == len(o.keys) && len(oks) == len(o.keys), "%v: %v %v %v", o, vs, oks, err)
			obs = fmt.Sprint(vs, oks)
			for _, m := range states {
				good := true
				for i, k := range o.keys {
					var v int
					var ok bool
					m, v, ok = m.get(k, maxUsed)
					good = good && v == vs[i] && ok == oks[i]
				}
				if good {
					keep(m)
				}
			}
		case 's':
			next++
			t.Check(c.Set(ctx, o.keys[0], next, ttl) == nil, "%v: error", o)
			obs = fmt.Sprint("value ", next)
			for _, m := range states {
				keep(m.set(o.keys[0], next, o.dead, capn))
			}
		case 'w':
			kvs := map[int]int{}
			for _, k := range o.keys {
				next++
				kvs[k] = next
			}
			t.Check(c.MSet(ctx, kvs, ttl) == nil, "%v: error", o)
			obs = fmt.Sprint("values ", kvs)
			for _, m := range states {
				for _, p := range perms(o.keys) {
					m2 := m
					for _, k := range p {
						m2 = m2.set(k, kvs[k], o.dead, capn)
					}
					keep(m2)
				}
			}
		case 'd':
			t.Check(c.Delete(ctx, o.keys...) == nil, "%v: error", o)
			for _, m := range states {
				for _, k := range o.keys {
					if i := m.find(k); i >= 0 {
						m = m.without(i)
					}
				}
				keep(m)
			}
		}
		t.Op("%v: %s", o, obs)
		if len(ns) == 0 {
			t.Fail("%v gives %s: no cache of capacity %d and use limit %d behaves like this (possible contents before, most recent first, as {key value uses expired}: %v)", o, obs, capn, maxUsed, states)
		}
		states = ns
	}
	for _, o := range ops {
		step(o)
	}
	// which keys are left
	for k := 0; k < 6; k++ {
		step(lruOp{kind: 'g', keys: []int{k}})
	}
}

func lruExhaustive(t *T, alpha []lruOp, n int, caps, uses []int) {
	for _, capn := range caps {
		for _, mu := range uses {
			idx := make([]int, n)
			for t.Time() {
				ops := make([]lruOp, n)
				for i, j := range idx {
					ops[i] = alpha[j]
				}
				t.Case(func() string { return fmt.Sprintf("LRU cache of capacity %d, use limit %d", capn, mu) }, func() { lruRun(t, capn, mu, ops) })
				i := 0
				for ; i < n; i++ {
					if idx[i]++; idx[i] < len(alpha) {
						break
					}
					idx[i] = 0
				}
				if i == n {
					break
				}
			}
		}
	}
}

func lruRandom(t *T, dead bool, uses []int) {
	for t.Time() {
		capn := 1 + t.R.Intn(6)
		mu := uses[t.R.Intn(len(uses))]
		nk := 2 + t.R.Intn(7)
		ops := make([]lruOp, 5+t.R.Intn(40))
		for i := range ops {
			o := lruOp{kind: "gggssssmmwd"[t.R.Intn(11)], dead: dead && t.R.Intn(4) == 0}
			n := 1
			if o.kind == 'm' || o.kind == 'd' {
				n = t.R.Intn(4)
			}
			used := map[int]bool{}
			if o.kind == 'w' {
				n = t.R.Intn(4)
			}
			for len(o.keys) < n && len(used) < nk {
				k := t.R.Intn(nk)
				if o.kind == 'w' && used[k] {
					continue
				}
				used[k] = true
				o.keys = append(o.keys, k)
			}
			ops[i] = o
		}
		t.Case(func() string { return fmt.Sprintf("LRU cache of capacity %d, use limit %d", capn, mu) }, func() { lruRun(t, capn, mu, ops) })
	}
}

func init() {
	reg("C20", "all histories of up to 4 reads, writes, deletes and batches over 3-4 keys with capacities 1-3 against a recency list, then random longer ones", func(t *T) {
		t.Case(func() string { return "NewLRUCacheV2 with capacity 0 and -1" }, func() {
			t.Check(Panics(func() { cachex.NewLRUCacheV2[int, int](0, 0) }) != nil && Panics(func() { cachex.NewLRUCacheV2[int, int](-1, 0) }) != nil, "no panic")
		})
		k := func(kind byte, ks ...int) lruOp { return lruOp{kind: kind, keys: ks} }
		alpha := []lruOp{k('g', 0), k('g', 1), k('s', 0), k('s', 1), k('s', 2), k('s', 3), k('m', 0, 1), k('m', 1, 0, 1), k('w', 0), k('w', 1, 2), k('d', 0), k('d', 1, 2)}
		for n := 1; n <= 3; n++ {
			lruExhaustive(t, alpha, n, []int{1, 2, 3}, []int{0, 4})
		}
		if t.thorough {
			lruExhaustive(t, alpha, 4, []int{2}, []int{0, 4})
		}
		if t.thorough {
			lruExhaustive(t, alpha, 5, []int{2, 3}, []int{0})
		}
		lruRandom(t, true, []int{0, 0, 2, 5})
	})
	reg("C21", "all histories of up to 4 reads, writes with past and long lifetimes, deletes and batches with use limits 0-3 against a model, real short lifetimes, then random longer ones", func(t *T) {
		ctx := context.Background()
		for _, mu := range []int{0, 2} {
			for _, batch := range []bool{false, true} {
				t.Case(func() string { return fmt.Sprintf("lifetimes of 30 ms, use limit %d, batch writes %v", mu, batch) }, func() {
					c := cachex.NewLRUCacheV2[string, int](4, mu)
					set := func(k string, v int, ttl time.Duration) {
						if batch {
							c.MSet(ctx, map[string]int{k: v}, ttl)
						} else {
							c.Set(ctx, k, v, ttl)
						}
					}
					t0 := time.Now()
					set("a", 1, 30*time.Millisecond)
					set("b", 2, 30*time.Millisecond)
					set("c", 3, time.Hour)
					_, ok, _ := c.Get(ctx, "a")
					t.Check(ok || time.Since(t0) > 25*time.Millisecond, "a missed within its lifetime")
					time.Sleep(15 * time.Millisecond)
					set("b", 4, 200*time.Millisecond) // restarts the lifetime
					t1 := time.Now()
					time.Sleep(30 * time.Millisecond)
					_, ok, _ = c.Get(ctx, "a")
					t.Check(!ok, "a found after its lifetime")
					v, ok, _ := c.Get(ctx, "b")
					t.Check(ok && v == 4 || time.Since(t1) > 150*time.Millisecond, "b missed (%v %v) although it was written again with a longer lifetime", v, ok)
					v, ok, _ = c.Get(ctx, "c")
					t.Check(ok && v == 3, "c missed")
					set("d", 5, time.Hour)
					set("b", 6, 20*time.Millisecond) // shortens it
					time.Sleep(30 * time.Millisecond)
					vs, oks, _ := c.MGet(ctx, "b", "d", "a", "b")
					t.Check(same(oks, []bool{false, true, false, false}) && same(vs, []int{0, 5, 0, 0}), "MGet b d a b: %v %v", vs, oks)
				})
			}
		}
		k := func(kind byte, ks ...int) lruOp { return lruOp{kind: kind, keys: ks} }
		x := func(kind byte, ks ...int) lruOp { return lruOp{kind: kind, keys: ks, dead: true} }
		alpha := []lruOp{k('g', 0), k('g', 1), k('s', 0), k('s', 1), k('m', 0, 1), k('m', 0, 0, 0), k('w', 0, 1), k('d', 0), x('s', 0), x('w', 0, 2), k('s', 2)}
		for n := 1; n <= 3; n++ {
			lruExhaustive(t, alpha, n, []int{1, 3}, []int{0, 1, 2, 3})
		}
		lruExhaustive(t, alpha, 4, []int{2}, []int{1, 2})
		if t.thorough {
			lruExhaustive(t, alpha, 5, []int{2}, []int{0, 2})
		}
		lruRandom(t, true, []int{0, 1, 2, 3})
	})
	reg("C22", "concurrent operations under the race detector, atomicity of batches and of Set", func(t *T) {
		ctx := context.Background()
		par := func(n int, f func(g int)) {
			var wg sync.WaitGroup
			for g := 0; g < n; g++ {
				wg.Add(1)
				g := g
				go func() { defer wg.Done(); f(g) }()
			}
			wg.Wait()
		}
		for t.Time() {
			t.Case(func() string { return "two goroutines running every pair of operations of an LRU cache" }, func() {
				ops := []func(c *cachex.LRUCacheV2[int, int]){
					func(c *cachex.LRUCacheV2[int, int]) { c.Get(ctx, 1) },
					func(c *cachex.LRUCacheV2[int, int]) { c.Set(ctx, 1, 5, time.Hour) },
					func(c *cachex.LRUCacheV2[int, int]) { c.Set(ctx, 7, 5, -time.Hour) },
					func(c *cachex.LRUCacheV2[int, int]) { c.MGet(ctx, 1, 2, 3) },
					func(c *cachex.LRUCacheV2[int, int]) { c.MSet(ctx, map[int]int{1: 2, 3: 4}, time.Hour) },
					func(c *cachex.LRUCacheV2[int, int]) { c.Delete(ctx, 1, 2) },
					func(c *cachex.LRUCacheV2[int, int]) { c.Delete(ctx, 1) },
					func(c *cachex.LRUCacheV2[int, int]) { c.MGet(ctx, 1) },
					func(c *cachex.LRUCacheV2[int, int]) { c.MSet(ctx, map[int]int{1: 3}, time.Hour) },
				}
				for _, mu := range []int{0, 1} {
					for i := range ops {
						for j := range ops {
							c := cachex.NewLRUCacheV2[int, int](2, mu)
							c.Set(ctx, 1, 1, time.Hour)
							c.Set(ctx, 2, 2, -time.Hour)
							par(2, func(g int) { ops[[]int{i, j}[g]](c) })
							// still usable
							c.Set(ctx, 9, 9, time.Hour)
							v, ok, _ := c.Get(ctx, 9)
							t.Check(ok && v == 9, "after operations %d and %d the cache misses what was just written", i, j)
						}
					}
				}
			})
			t.Case(func() string { return "batches of an LRU cache are atomic" }, func() {
				c := cachex.NewLRUCacheV2[int, int](4, 0)
				c.MSet(ctx, map[int]int{1: 0, 2: 0}, time.Hour)
				var stop atomic.Bool
				var bad atomic.Value
				par(3, func(g int) {
					for i := 1; i < 400 && !stop.Load(); i++ {
						switch g {
						case 0:
							if i%5 == 0 {
								c.Delete(ctx, 1, 2)
							} else {
								c.MSet(ctx, map[int]int{1: i, 2: i}, time.Hour)
							}
						default:
							vs, oks, _ := c.MGet(ctx, 1, 2)
							if vs[0] != vs[1] || oks[0] != oks[1] {
								bad.Store(fmt.Sprint("MGet(1, 2) sees half of a batch write or delete: ", vs, oks))
								stop.Store(true)
							}
						}
					}
				})
				if b := bad.Load(); b != nil {
					t.Fail("%v", b)
				}
			})
			t.Case(func() string { return "every use of an entry with a use limit is counted" }, func() {
				c := cachex.NewLRUCacheV2[int, int](4, 50)
				c.Set(ctx, 1, 1, time.Hour)
				var hits atomic.Int64
				par(4, func(g int) {
					for i := 0; i < 30; i++ {
						if _, ok, _ := c.Get(ctx, 1); ok {
							hits.Add(1)
						}
					}
				})
				t.Check(hits.Load() == 50, "%d hits with a use limit of 50", hits.Load())
			})
			t.Case(func() string { return "two goroutines running every pair of operations of a bit set" }, func() {
				other := bitset.New(0xf0, 1)
				ops := []func(b *bitset.BitSet){
					func(b *bitset.BitSet) { b.Set(3, true) },
					func(b *bitset.BitSet) { b.Set(100, true) },
					func(b *bitset.BitSet) { b.Set(-1, false) },
					func(b *bitset.BitSet) { b.Get(3) },
					func(b *bitset.BitSet) { b.Get(-2) },
					func(b *bitset.BitSet) { b.Range(func(int, bool) bool { return true }) },
					func(b *bitset.BitSet) { b.Count(0, -1) },
					func(b *bitset.BitSet) { b.Not() },
					func(b *bitset.BitSet) { b.And(other) },
					func(b *bitset.BitSet) { b.Or(other) },
					func(b *bitset.BitSet) { b.Xor(other) },
					func(b *bitset.BitSet) { b.AndNot(other) },
					func(b *bitset.BitSet) { other.Or(b) },
					func(b *bitset.BitSet) { other.And(b) },
					func(b *bitset.BitSet) { b.Clear() },
					func(b *bitset.BitSet) { b.Size() },
					func(b *bitset.BitSet) { b.Bytes() },
					func(b *bitset.BitSet) { b.Binary(" ") },
					func(b *bitset.BitSet) { _ = b.String() },
					func(b *bitset.BitSet) { b.Sub(1, 9) },
				}
				for i := range ops {
					for j := i; j < len(ops); j++ {
						b := bitset.New(0xaa, 0x55, 0x0f)
						par(2, func(g int) { ops[[]int{i, j}[g]](b) })
						b.Set(5, true)
						t.Check(b.Get(5), "after operations %d and %d the bit set is not usable", i, j)
					}
				}
			})
			t.Case(func() string { return "Set of a bit set is atomic" }, func() {
				b := bitset.New(0)
				var first atomic.Int64
				par(4, func(g int) {
					for i := 0; i < 64; i++ {
						if was, err := b.Set(i, true); err == nil && !was {
							first.Add(1)
						}
					}
				})
				t.Check(first.Load() == 64 && b.Count(0, -1) == 64, "64 bits set, %d calls saw a clear bit, count %d", first.Load(), b.Count(0, -1))
			})
			if !t.thorough && t.res.Evaluations > 200 {
				return
			}
		}
	})
}
