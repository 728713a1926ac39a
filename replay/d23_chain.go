package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
)

// lvl is a cache level that records what it is asked.
type lvl struct {
	id                    int
	data                  map[int]string
	getErr, setErr, delEr error
	shortNil              bool // a failing MGet returns nil slices
	once                  bool // a key is answered once only
	log                   *[]string
}

func kvText(kvs map[int]string) string {
	var ks []int
	for k := range kvs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var b []string
	for _, k := range ks {
		b = append(b, fmt.Sprintf("%d=%s", k, kvs[k]))
	}
	return strings.Join(b, ",")
}

func (l *lvl) add(f string, a ...any) {
	*l.log = append(*l.log, fmt.Sprintf("level %d ", l.id)+fmt.Sprintf(f, a...))
}

func (l *lvl) take(k int) (string, bool) {
	v, ok := l.data[k]
	if ok && l.once {
		delete(l.data, k)
	}
	return v, ok
}

func (l *lvl) Get(_ context.Context, k int) (string, bool, error) {
	l.add("Get %d", k)
	if l.getErr != nil {
		return "", false, l.getErr
	}
	v, ok := l.data[k]
	return v, ok, nil
}

func (l *lvl) Set(_ context.Context, k int, v string, ttl time.Duration) error {
	l.add("Set %d=%s ttl %v", k, v, ttl)
	return l.setErr
}

func (l *lvl) MSet(_ context.Context, kvs map[int]string, ttl time.Duration) error {
	l.add("MSet %s ttl %v", kvText(kvs), ttl)
	return l.setErr
}

func (l *lvl) Delete(_ context.Context, keys ...int) error {
	l.add("Delete %v", keys)
	return l.delEr
}

func (l *lvl) MGet(_ context.Context, keys ...int) ([]string, []bool, error) {
	l.add("MGet %v", keys)
	if l.getErr != nil {
		if l.shortNil {
			return nil, nil, l.getErr
		}
		return make([]string, len(keys)), make([]bool, len(keys)), l.getErr
	}
	vs, oks := make([]string, len(keys)), make([]bool, len(keys))
	for i, k := range keys {
		vs[i], oks[i] = l.take(k)
	}
	return vs, oks, nil
}

type chainCase struct {
	n         int
	state     []int // per level: bit k means key k is present
	get, set  []bool
	del       []bool
	goOn      bool
	sliceless bool
	once      bool
}

func (c chainCase) String() string {
	return fmt.Sprintf("a chain of %d levels (keys held by level as bits: %v, failing reads %v, failing writes %v, failing deletes %v, continue on read errors: %v, a key is answered once only: %v)", c.n, c.state, c.get, c.set, c.del, c.goOn, c.once)
}

func (c chainCase) build() (*cachex.Chain[int, string], []*lvl, *[]string) {
	log := &[]string{}
	ch := &cachex.Chain[int, string]{ContinueOnReadErr: c.goOn}
	var ls []*lvl
	for i := 0; i < c.n; i++ {
		l := &lvl{id: i, data: map[int]string{}, log: log, shortNil: c.sliceless, once: c.once}
		for k := 0; k < 4; k++ {
			if c.state[i]>>uint(k)&1 == 1 {
				l.data[k] = fmt.Sprintf("v%d.%d", i, k)
			}
		}
		if c.get[i] {
			l.getErr = fmt.Errorf("read error of level %d", i)
		}
		if c.set[i] {
			l.setErr = fmt.Errorf("write error of level %d", i)
		}
		if c.del[i] {
			l.delEr = fmt.Errorf("delete error of level %d", i)
		}
		ls = append(ls, l)
		ch.Caches = append(ch.Caches, &cachex.ChainItem[int, string]{Cache: l, TTL: time.Duration(i+1) * time.Second})
	}
	return ch, ls, log
}

func sameLog(t *T, what string, got, want []string) {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		t.Check(g == w, "%s: call %d to a level is %q, expected %q (all calls: %v)", what, i+1, g, w, got)
	}
}

func randChain(t *T) chainCase {
	c := chainCase{n: t.R.Intn(5), goOn: t.R.Intn(2) == 0, sliceless: t.R.Intn(2) == 0, once: t.R.Intn(3) == 0}
	fails := t.R.Intn(3)
	for i := 0; i < c.n; i++ {
		c.state = append(c.state, t.R.Intn(16)&t.R.Intn(16))
		c.get = append(c.get, fails > 0 && t.R.Intn(3) == 0)
		c.set = append(c.set, fails > 1 && t.R.Intn(2) == 0)
		c.del = append(c.del, fails > 1 && t.R.Intn(2) == 0)
	}
	return c
}

// every chain of up to three levels with at most keys 0 and 1
func allChains(f func(c chainCase) bool) {
	for n := 0; n <= 3; n++ {
		for code := 0; code < 1<<uint(5*n+1); code++ {
			c := chainCase{n: n}
			x := code
			bit := func() bool { b := x&1 == 1; x >>= 1; return b }
			c.goOn = bit()
			for i := 0; i < n; i++ {
				s := 0
				if bit() {
					s |= 1
				}
				if bit() {
					s |= 2
				}
				c.state = append(c.state, s)
				c.get = append(c.get, bit())
				c.set = append(c.set, bit())
				c.del = append(c.del, bit())
			}
			if !f(c) {
				return
			}
		}
	}
}

func chainSingle(t *T, c chainCase, key int) {
	ctx := context.Background()
	t.Case(func() string { return fmt.Sprintf("Get(%d) on %v", key, c) }, func() {
		ch, ls, log := c.build()
		var want []string
		wantV, wantHas := "", false
		var lastErr error
		for i, l := range ls {
			want = append(want, fmt.Sprintf("level %d Get %d", i, key))
			if l.getErr != nil {
				lastErr = l.getErr
				if !c.goOn {
					break
				}
				continue
			}
			lastErr = nil
			if v, ok := l.data[key]; ok {
				wantV, wantHas = v, true
				for j := 0; j < i; j++ {
					want = append(want, fmt.Sprintf("level %d Set %d=%s ttl %v", j, key, v, ch.Caches[j].TTL))
				}
				break
			}
		}
		v, has, err := ch.Get(ctx, key)
		sameLog(t, "Get", *log, want)
		t.Check(has == wantHas, "Get reports found=%v, expected %v", has, wantHas)
		if has {
			t.Check(v == wantV && err == nil, "Get returns %q, error %v; the first hit is %q", v, err, wantV)
		} else if lastErr != nil && !c.goOn {
			t.Check(errors.Is(err, lastErr), "the search stopped at %q but Get returns error %v", lastErr, err)
		}
	})
	writes := []struct {
		name string
		f    func(ch *cachex.Chain[int, string]) error
		log  func(i int) string
		err  func(l *lvl) error
	}{
		{"Set", func(ch *cachex.Chain[int, string]) error { return ch.Set(ctx, key, "w", 99*time.Hour) },
			func(i int) string {
				return fmt.Sprintf("level %d Set %d=w ttl %v", i, key, time.Duration(i+1)*time.Second)
			},
			func(l *lvl) error { return l.setErr }},
		{"MSet", func(ch *cachex.Chain[int, string]) error {
			return ch.MSet(ctx, map[int]string{key: "w", 9: "x"}, 99*time.Hour)
		},
			func(i int) string {
				return fmt.Sprintf("level %d MSet %d=w,9=x ttl %v", i, key, time.Duration(i+1)*time.Second)
			},
			func(l *lvl) error { return l.setErr }},
		{"Delete", func(ch *cachex.Chain[int, string]) error { return ch.Delete(ctx, key, 7, key) },
			func(i int) string { return fmt.Sprintf("level %d Delete %v", i, []int{key, 7, key}) },
			func(l *lvl) error { return l.delEr }},
	}
	for _, w := range writes {
		w := w
		t.Case(func() string { return fmt.Sprintf("%s of key %d on %v", w.name, key, c) }, func() {
			ch, ls, log := c.build()
			err := w.f(ch)
			var want []string
			failed := false
			for i, l := range ls {
				want = append(want, w.log(i))
				failed = failed || w.err(l) != nil
			}
			sameLog(t, w.name, *log, want)
			t.Check((err != nil) == failed, "%s returns %v although failing of some level is %v", w.name, err, failed)
			for _, l := range ls {
				if e := w.err(l); e != nil {
					t.Check(errors.Is(err, e), "%s returns %v, which does not report %q", w.name, err, e)
				}
			}
		})
	}
}

func chainBatch(t *T, c chainCase, keys []int) {
	ctx := context.Background()
	t.Case(func() string { return fmt.Sprintf("MGet(%v) on %v", keys, c) }, func() {
		ch, own, log := c.build()
		_, ls, _ := c.build() // the levels of the oracle
		for i := range ls {
			ls[i].getErr = own[i].getErr
		}
		asked := clone(keys)
		vals, found := make([]string, len(keys)), make([]bool, len(keys))
		var want []string
		var stop error
		missing := make([]int, len(keys))
		for i := range missing {
			missing[i] = i
		}
		for i, l := range ls {
			if len(missing) == 0 {
				break
			}
			var ask []int
			for _, p := range missing {
				ask = append(ask, keys[p])
			}
			want = append(want, fmt.Sprintf("level %d MGet %v", i, ask))
			if l.getErr != nil {
				if !c.goOn {
					stop = l.getErr
					break
				}
				continue
			}
			hits := map[int]string{}
			var rest []int
			for _, p := range missing {
				if v, ok := l.take(keys[p]); ok {
					hits[keys[p]] = v
					vals[p], found[p] = v, true
				} else {
					rest = append(rest, p)
				}
			}
			missing = rest
			if len(hits) > 0 {
				for j := 0; j < i; j++ {
					want = append(want, fmt.Sprintf("level %d MSet %s ttl %v", j, kvText(hits), ch.Caches[j].TTL))
				}
			}
		}
		vs, oks, err := ch.MGet(ctx, keys...)
		sameLog(t, "MGet", *log, want)
		t.Check(same(keys, asked), "MGet changes the caller's keys to %v", keys)
		if stop != nil {
			t.Check(errors.Is(err, stop), "MGet stopped at %q but returns error %v", stop, err)
			return
		}
		t.Check(len(vs) == len(keys) && len(oks) == len(keys), "%d values and %d hits for %d keys", len(vs), len(oks), len(keys))
		for i, k := range keys {
			t.Check(oks[i] == found[i], "position %d (key %d): found=%v, expected %v", i, k, oks[i], found[i])
			if found[i] {
				t.Check(vs[i] == vals[i], "position %d (key %d): value %q, expected %q", i, k, vs[i], vals[i])
			}
		}
		ch, _, _ = c.build()
		r, err2 := cachex.MGet[int, string](ctx, ch, keys...)
		t.Check((err == nil) == (err2 == nil), "the MGet helper returns error %v, the chain %v", err2, err)
		mgetViews(t, r, keys, func(i int) (string, bool) { return vals[i], found[i] })
	})
}

// mgetViews checks every view of a batch result.
func mgetViews(t *T, r cachex.MGetResult[int, string], keys []int, at func(i int) (string, bool)) {
	var hits, misses []int
	var hitVals []string
	vals := map[int]string{}
	for i, k := range keys {
		if v, ok := at(i); ok {
			hits = append(hits, k)
			hitVals = append(hitVals, v)
			vals[k] = v
		} else {
			misses = append(misses, k)
		}
	}
	t.Check(same(r.HitKeys(), hits), "HitKeys %v, expected %v", r.HitKeys(), hits)
	t.Check(same(r.MissKeys(), misses), "MissKeys %v, expected %v", r.MissKeys(), misses)
	h, m := r.HitMissKeys()
	t.Check(same(h, hits) && same(m, misses), "HitMissKeys %v %v, expected %v %v", h, m, hits, misses)
	t.Check(kvText(r.HitMapValues()) == kvText(vals), "HitMapValues %v, expected %v", r.HitMapValues(), vals)
	for stop := 0; stop <= len(keys)+1; stop++ {
		n := 0
		r.Range(func(k int, hit bool, v string) bool {
			t.Check(n < len(keys) && n <= stop, "Range goes on after its callback returned false, or past the end")
			w, ok := at(n)
			t.Check(k == keys[n] && hit == ok && (!ok || v == w), "Range visits %d %v %q at position %d, expected %d %v %q", k, hit, v, n, keys[n], ok, w)
			n++
			return n <= stop
		})
		t.Check(n == min(stop+1, len(keys)), "Range visits %d positions with a callback stopping after %d", n, stop+1)
		n = 0
		r.RangeHit(func(k int, v string) bool {
			t.Check(n < len(hits) && n <= stop, "RangeHit goes on after its callback returned false, or past the end")
			t.Check(k == hits[n] && v == hitVals[n], "RangeHit visits %d %q as hit %d, expected %d %q", k, v, n, hits[n], hitVals[n])
			n++
			return n <= stop
		})
		t.Check(n == min(stop+1, len(hits)), "RangeHit visits %d positions with a callback stopping after %d, %d hits", n, stop+1, len(hits))
		n = 0
		r.RangeMiss(func(k int) bool {
			t.Check(n < len(misses) && n <= stop, "RangeMiss goes on after its callback returned false, or past the end")
			t.Check(k == misses[n], "RangeMiss visits %d as miss %d, expected %d", k, n, misses[n])
			n++
			return n <= stop
		})
		t.Check(n == min(stop+1, len(misses)), "RangeMiss visits %d positions with a callback stopping after %d, %d misses", n, stop+1, len(misses))
	}
}

func init() {
	reg("C23", "every chain of up to 2 levels (3 when time allows) over hit/miss/failure patterns and both settings, then random chains of up to 4 levels: the exact calls made to every level against the statement", func(t *T) {
		allChains(func(c chainCase) bool {
			chainSingle(t, c, 0)
			return t.Time() && (c.n < 3 || t.Frac2())
		})
		for t.Time() {
			c := randChain(t)
			for i := 0; i < 20; i++ {
				chainSingle(t, c, t.R.Intn(4))
			}
			c.sliceless = true
		}
	})
	reg("C24", "every key list of length at most 3 over 2 keys on every chain of up to 2 levels, random key lists on chains of up to 4 levels, on LRU caches and on NoCache; every view of every result", func(t *T) {
		lists := tuples([]int{0, 1}, 3)
		allChains(func(c chainCase) bool {
			if c.n == 3 || !t.Time() {
				return false
			}
			for i := range c.set {
				if c.set[i] || c.del[i] {
					return true
				}
			}
			for _, ks := range lists {
				if len(ks) > 0 {
					chainBatch(t, c, ks)
					c.once = true
					chainBatch(t, c, ks)
					c.once = false
				}
			}
			return t.Frac2()
		})
		ctx := context.Background()
		for t.Time() {
			c := randChain(t)
			for i := 0; i < 10; i++ {
				keys := make([]int, 1+t.R.Intn(7))
				for j := range keys {
					keys[j] = t.R.Intn(5)
				}
				chainBatch(t, c, keys)
				held := t.R.Intn(32)
				t.Case(func() string {
					return fmt.Sprintf("MGet(%v) on an LRU cache and on NoCache; the LRU cache holds keys %05b (bits)", keys, held)
				}, func() {
					cap := 1 + t.R.Intn(6)
					lru := cachex.NewLRUCacheV2[int, string](cap, 0)
					ref := map[int]string{}
					var order []int
					for k := 0; k < 5; k++ {
						if held>>uint(k)&1 == 1 {
							lru.Set(ctx, k, fmt.Sprint("v", k), time.Hour)
							ref[k] = fmt.Sprint("v", k)
							order = append(order, k)
						}
					}
					for len(order) > cap {
						delete(ref, order[0])
						order = order[1:]
					}
					at := func(i int) (string, bool) { v, ok := ref[keys[i]]; return v, ok }
					vs, oks, err := lru.MGet(ctx, keys...)
					t.Check(err == nil && len(vs) == len(keys) && len(oks) == len(keys), "LRU MGet returns %d values, %d hits, error %v for %d keys", len(vs), len(oks), err, len(keys))
					for i := range keys {
						v, ok := at(i)
						t.Check(oks[i] == ok && (!ok || vs[i] == v), "LRU MGet position %d: %q %v, expected %q %v", i, vs[i], oks[i], v, ok)
					}
					r, err := cachex.MGet[int, string](ctx, lru, keys...)
					t.Check(err == nil, "error %v", err)
					mgetViews(t, r, keys, at)
					no := &cachex.NoCache[int, string]{}
					vs, oks, err = no.MGet(ctx, keys...)
					t.Check(err == nil && len(vs) == len(keys) && len(oks) == len(keys), "NoCache MGet returns %d values, %d hits, error %v for %d keys", len(vs), len(oks), err, len(keys))
					for i := range keys {
						t.Check(!oks[i], "NoCache reports a hit at %d", i)
					}
					r, err = cachex.MGet[int, string](ctx, no, keys...)
					t.Check(err == nil, "error %v", err)
					mgetViews(t, r, keys, func(int) (string, bool) { return "", false })
				})
			}
		}
	})
}
