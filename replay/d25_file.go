package main

import (
	"context"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"
)

type fileRec struct {
	A int
	B string
	C []string
	D map[string]int
}

type fileEntry[V any] struct {
	v    V
	live bool // far from its end; otherwise past it
}

// foreign are files and directories in the directory of the cache that are not cache files.
func makeForeign(t *T, dir string) map[string]string {
	files := map[string]string{
		"keep.txt":             "keep",
		"cache":                "plain name",
		"x.cache.bak":          "{}",
		"a.cachex":             "not json",
		".cach":                "",
		"sub/data.json":        `{"Exp":0}`,
		"sub/deep/n.CACHE":     "upper case",
		"dir.cache/inside.txt": "in a directory named like a cache file",
		"1cache":               "no dot",
	}
	for n, c := range files {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0o777)
		if os.WriteFile(p, []byte(c), 0o666) != nil {
			panic("scratch")
		}
	}
	os.MkdirAll(filepath.Join(dir, "empty.cache"), 0o777)
	os.MkdirAll(filepath.Join(dir, "empty"), 0o777)
	files["empty.cache/"] = ""
	files["empty/"] = ""
	return files
}

func checkForeign(t *T, dir string, files map[string]string, what string) {
	for n, c := range files {
		p := filepath.Join(dir, n)
		if strings.HasSuffix(n, "/") {
			st, err := os.Stat(p)
			t.Check(err == nil && st.IsDir(), "%s: the directory %s is gone", what, n)
			continue
		}
		b, err := os.ReadFile(p)
		t.Check(err == nil, "%s: the file %s is gone", what, n)
		t.Check(string(b) == c, "%s: the file %s holds %q", what, n, b)
	}
}

func countCache(dir string) int {
	n := 0
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasSuffix(p, ".cache") {
			n++
		}
		return nil
	})
	return n
}

// fileHistory runs one random history against a map.
func fileHistory[K comparable, V any](t *T, keys []K, vals []V, cycle time.Duration, steps int) {
	dir, err := os.MkdirTemp("", "filecache")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	foreign := makeForeign(t, dir)
	f := &cachex.FileStore[K, V]{Dir: dir, GCCycle: cycle}
	ctx := context.Background()
	m := map[K]fileEntry[V]{}
	// every lifetime ends well before or well after the history
	ttl := func() (time.Duration, bool) {
		switch t.R.Intn(8) {
		case 0:
			return 0, false
		case 1:
			return -time.Second, false
		case 2:
			return -time.Duration(1 << 62), false
		case 3:
			return math.MaxInt64, true
		case 4:
			return 290 * 365 * 24 * time.Hour, true
		case 5:
			return math.MaxInt64 - 1, true
		}
		return time.Hour, true
	}
	check := func(k K, v V, ok bool, what string) {
		e, had := m[k]
		t.Check(ok == (had && e.live), "%s(%v): found %v, want %v", what, k, ok, had && e.live)
		if ok {
			t.Check(reflect.DeepEqual(v, e.v), "%s(%v) = %#v, want %#v", what, k, v, e.v)
		} else {
			t.Check(reflect.ValueOf(&v).Elem().IsZero(), "%s(%v): a miss returns %#v", what, k, v)
		}
	}
	for i := 0; i < steps; i++ {
		k := keys[t.R.Intn(len(keys))]
		switch t.R.Intn(12) {
		case 0, 1, 2, 3:
			v := vals[t.R.Intn(len(vals))]
			d, live := ttl()
			t.Op("Set(%v, %.60v, %v)", k, fmt.Sprint(v), d)
			err := f.Set(ctx, k, v, d)
			t.Check(err == nil, "Set: %v", err)
			m[k] = fileEntry[V]{v, live}
			// it is there at once, unless it is past its time
			w, ok, err := f.Get(ctx, k)
			t.Check(err == nil, "Get: %v", err)
			check(k, w, ok, "Get")
		case 4, 5:
			t.Op("Get(%v)", k)
			w, ok, err := f.Get(ctx, k)
			t.Check(err == nil, "Get: %v", err)
			check(k, w, ok, "Get")
		case 6:
			ks := make([]K, t.R.Intn(5))
			for j := range ks {
				ks[j] = keys[t.R.Intn(len(keys))]
			}
			t.Op("MGet(%v)", ks)
			vs, oks, err := f.MGet(ctx, ks...)
			t.Check(err == nil, "MGet: %v", err)
			t.Check(len(vs) == len(ks) && len(oks) == len(ks), "MGet returns %d values and %d states for %d keys", len(vs), len(oks), len(ks))
			for j, k := range ks {
				check(k, vs[j], oks[j], "MGet")
			}
		case 7, 8:
			kvs := map[K]V{}
			for j := t.R.Intn(5); j > 0; j-- {
				kvs[keys[t.R.Intn(len(keys))]] = vals[t.R.Intn(len(vals))]
			}
			d, live := ttl()
			t.Op("MSet(%.200v, %v)", fmt.Sprint(kvs), d)
			err := f.MSet(ctx, kvs, d)
			t.Check(err == nil, "MSet: %v", err)
			for k, v := range kvs {
				m[k] = fileEntry[V]{v, live}
			}
		case 9, 10:
			ks := make([]K, t.R.Intn(4))
			for j := range ks {
				ks[j] = keys[t.R.Intn(len(keys))]
				delete(m, ks[j])
			}
			t.Op("Delete(%v)", ks)
			err := f.Delete(ctx, ks...)
			t.Check(err == nil, "Delete: %v", err)
		case 11:
			if t.R.Intn(3) == 0 {
				t.Op("Purge()")
				err := f.Purge()
				t.Check(err == nil, "Purge: %v", err)
				m = map[K]fileEntry[V]{}
				t.Check(countCache(dir) == 0, "Purge leaves %d cache files", countCache(dir))
				checkForeign(t, dir, foreign, "Purge")
			}
		}
	}
	for _, k := range keys {
		w, ok, err := f.Get(ctx, k)
		t.Check(err == nil, "Get: %v", err)
		check(k, w, ok, "at the end Get")
	}
	checkForeign(t, dir, foreign, "at the end")
}

// fileClean lets the background cleaning run and looks what is left.
func fileClean(t *T) {
	dir, err := os.MkdirTemp("", "filecache")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	foreign := makeForeign(t, dir)
	f := &cachex.FileStore[string, string]{Dir: dir, GCCycle: 1}
	ctx := context.Background()
	for i := 0; i < 20; i++ {
		d := time.Hour
		if i%2 == 1 {
			d = -1
		}
		if i%5 == 0 {
			d = math.MaxInt64
		}
		if i%5 == 0 && i%2 == 1 {
			d = -time.Hour
		}
		t.Check(f.Set(ctx, fmt.Sprint("k", i), fmt.Sprint("v", i), d) == nil, "Set fails")
	}
	until := time.Now().Add(300 * time.Millisecond)
	for countCache(dir) > 10 && time.Now().Before(until) {
		f.Get(ctx, "k0")
		time.Sleep(5 * time.Millisecond)
	}
	for i := 0; i < 20; i += 2 {
		v, ok, err := f.Get(ctx, fmt.Sprint("k", i))
		t.Check(ok && err == nil && v == fmt.Sprint("v", i), "after cleaning Get(k%d) = %q, %v, %v", i, v, ok, err)
	}
	checkForeign(t, dir, foreign, "background cleaning")
}

// fileShort stores entries with short lifetimes: each is there until its time is over and not after it.
func fileShort(t *T) {
	dir, err := os.MkdirTemp("", "filecache")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	f := &cachex.FileStore[string, int]{Dir: dir}
	ctx := context.Background()
	for i := 0; i < 8; i++ {
		d := []time.Duration{20, 130, 300}[i%3] * time.Millisecond
		t.Op("Set(k, %d, %v)", i, d)
		from := time.Now()
		t.Check(f.Set(ctx, "k", i, d) == nil, "Set fails")
		to := time.Now()
		for n := 0; ; n++ {
			before := time.Now()
			v, ok, err := f.Get(ctx, "k")
			after := time.Now()
			t.Check(err == nil && (!ok || v == i), "Get = %d, %v, %v", v, ok, err)
			if after.Sub(from) < d-5*time.Millisecond {
				t.Check(ok, "the entry is gone %v after it was stored", after.Sub(from))
			}
			if before.Sub(to) > d+5*time.Millisecond {
				t.Check(!ok, "the entry is still there %v after it was stored", before.Sub(to))
				break
			}
			time.Sleep(d / 7)
		}
	}
}

func init() {
	reg("C25", "random histories of Set, Get, MGet, MSet, Delete and Purge against a map, with lifetimes past, long and endless, several key and value types, with and without background cleaning at every call, among files and directories that are not the cache's", func(t *T) {
		strs := []string{"", "a", "A", "a ", " a", "a\n", "a b", "a/b", "../x", "..", "key", "key.cache", "\x00", "é", strings.Repeat("k", 500), "10", "1", "01", "<nil>", "true"}
		texts := []string{"", "v", "line\nline", "<&>\u2028", `"`, "null", strings.Repeat("long ", 3000)}
		ints := []int{0, 1, -1, 10, 100, math.MaxInt64, math.MinInt64}
		recs := []fileRec{{}, {A: 1, B: "b"}, {C: []string{"x", ""}, D: map[string]int{"k": -1}}, {A: math.MaxInt64, B: "\\u0000"}}
		many := make([]int, 300)
		for i := range many {
			many[i] = i * 7919
		}
		for n := 0; n < 4 || t.Time(); n++ {
			cycle := []time.Duration{1, 0}[n%2]
			d := func() string { return fmt.Sprintf("GCCycle %v", cycle) }
			t.Case(func() string { return d() + ", text keys" }, func() { fileHistory(t, strs, texts, cycle, 40) })
			t.Case(func() string { return d() + ", number keys" }, func() { fileHistory(t, ints, recs, cycle, 40) })
			t.Case(func() string { return d() + ", floating point keys, number values" }, func() {
				fileHistory(t, []float64{0, 1.5, -1.5, 1e300, 1e-300, 123456.789}, ints, cycle, 30)
			})
			t.Case(func() string { return d() + ", array keys, pointer values" }, func() {
				a, b := 1, 2
				fileHistory(t, [][2]string{{"a", "b"}, {"", "ab"}, {"ab", ""}, {"x", "x"}}, []*int{&a, &b, nil}, cycle, 30)
			})
			if n < 2 || n%16 == 0 {
				t.Case(func() string { return d() + ", many keys" }, func() { fileHistory(t, many, texts[:3], cycle, 400) })
			}
			if n == 0 {
				t.Case(func() string { return "short lifetimes" }, func() { fileShort(t) })
			}
			if n%4 == 0 {
				t.Case(func() string { return d() + ", long values" }, func() {
					fileHistory(t, strs[:5], []string{strings.Repeat("x", 1<<16), strings.Repeat("y", 1<<17)}, cycle, 200)
				})
				t.Case(func() string { return "background cleaning" }, func() { fileClean(t) })
			}
		}
	})
}
