package main

import (
	"errors"
	"fmt"
	"math"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"github.com/miniLCT/gosb/hack/fastrand"
	"github.com/miniLCT/gosb/hack/unsafex"
)

// source feeds the generators: first the words chosen, then random ones.
type source struct {
	t  *T
	ws []uint64
	n  int
}

func (s *source) word() uint64 {
	s.n++
	if len(s.ws) > 0 {
		w := s.ws[0]
		s.ws = s.ws[1:]
		return w
	}
	return s.t.R.Uint64()
}

func withSource(t *T, ws []uint64, f func()) {
	a, b := fastrand.Uint32, fastrand.Uint64
	s := &source{t: t, ws: ws}
	fastrand.Uint32 = func() uint32 { return uint32(s.word()) }
	fastrand.Uint64 = func() uint64 { return s.word() }
	defer func() { fastrand.Uint32, fastrand.Uint64 = a, b }()
	f()
}

var edgeWords = []uint64{0, 1, 2, 3, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<53 - 1, 1 << 53, 1<<62 - 1, 1 << 62, 1<<63 - 2, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1,
	1<<11 - 1, 1 << 11, 0xffffff00, 0x00ffffff, 0xff000000, 0xffffffff00000000, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa}

func edgeBounds() []int64 {
	var out []int64
	for k := uint(0); k < 63; k++ {
		for d := int64(-2); d <= 2; d++ {
			if v := int64(1)<<k + d; v > 0 {
				out = append(out, v)
			}
		}
	}
	out = append(out, math.MaxInt64, math.MaxInt64-1, 3, 5, 6, 7, 10, 100, 1000, 12345, 1<<62+1<<61, 6148914691236517205)
	return out
}

func init() {
	reg("C30", "every generator with the bounds 2^k-2..2^k+2 and others, the underlying source answering with edge words or random words", func(t *T) {
		one := func(ws []uint64, n int64) {
			t.Case(func() string { return fmt.Sprintf("bound %d, source words %v", n, ws) }, func() {
				src := func(f func()) { withSource(t, clone(ws), f) }
				src(func() { v := fastrand.Int(); t.Check(v >= 0, "Int() = %d", v) })
				src(func() { v := fastrand.Int31(); t.Check(v >= 0, "Int31() = %d", v) })
				src(func() { v := fastrand.Int63(); t.Check(v >= 0, "Int63() = %d", v) })
				src(func() { v := fastrand.Float64(); t.Check(v >= 0 && v < 1, "Float64() = %v", v) })
				src(func() { v := fastrand.Float32(); t.Check(v >= 0 && v < 1, "Float32() = %v", v) })
				src(func() { v := fastrand.Int63n(n); t.Check(v >= 0 && v < n, "Int63n(%d) = %d", n, v) })
				src(func() { v := fastrand.Intn(int(n)); t.Check(v >= 0 && int64(v) < n, "Intn(%d) = %d", n, v) })
				src(func() { v := fastrand.Uint64n(uint64(n)); t.Check(v < uint64(n), "Uint64n(%d) = %d", n, v) })
				src(func() {
					u := uint64(n) << 1
					if u != 0 {
						v := fastrand.Uint64n(u + 1)
						t.Check(v < u+1, "Uint64n(%d) = %d", u+1, v)
					}
				})
				if n <= math.MaxInt32 {
					src(func() { v := fastrand.Int31n(int32(n)); t.Check(v >= 0 && int64(v) < n, "Int31n(%d) = %d", n, v) })
				}
				if n <= math.MaxUint32 {
					src(func() { v := fastrand.Uint32n(uint32(n)); t.Check(int64(v) < n, "Uint32n(%d) = %d", n, v) })
				}
			})
		}
		for _, n := range []int64{0, -1, -5, math.MinInt32, math.MinInt64, math.MinInt32 + 1} {
			t.Case(func() string { return fmt.Sprintf("bound %d", n) }, func() {
				t.Check(Panics(func() { fastrand.Int63n(n) }) != nil, "Int63n(%d) does not panic", n)
				t.Check(Panics(func() { fastrand.Intn(int(n)) }) != nil, "Intn(%d) does not panic", n)
				if n >= math.MinInt32 {
					t.Check(Panics(func() { fastrand.Int31n(int32(n)) }) != nil, "Int31n(%d) does not panic", n)
				}
			})
		}
		bs := edgeBounds()
		for _, n := range bs {
			for _, w := range edgeWords {
				one([]uint64{w}, n)
			}
		}
		for _, n := range bs {
			// words around the multiples of the bound
			for _, d := range []uint64{0, 1} {
				one([]uint64{uint64(n) - d, uint64(n) - d}, n)
				one([]uint64{math.MaxUint64 - math.MaxUint64%uint64(n) - d}, n)
				one([]uint64{math.MaxInt64 - math.MaxInt64%uint64(n) - d}, n)
				if n < 1<<32 {
					one([]uint64{(1<<32)/uint64(n) - d, (1 << 32) / uint64(n)}, n)
				}
			}
			for i := 0; i < 5 && t.Time(); i++ {
				one([]uint64{t.R.Uint64(), edgeWords[t.R.Intn(len(edgeWords))]}, n)
			}
		}
		for t.Time() && t.Frac2() {
			one([]uint64{t.R.Uint64()}, bs[t.R.Intn(len(bs))])
			one([]uint64{t.R.Uint64()}, t.R.Int63()>>uint(t.R.Intn(62))+1)
		}
	})
	reg("C31", "Perm(n) for n up to 200, gslice.Shuffle of slices up to 100 elements inside a larger array, Shuffle calls (also n beyond 2^31, first calls only), source answering with edge or random words", func(t *T) {
		perm := func(ws []uint64, n int) {
			t.Case(func() string { return fmt.Sprintf("n = %d, source words %v", n, ws) }, func() {
				withSource(t, clone(ws), func() {
					p := fastrand.Perm(n)
					seen := make([]bool, n)
					t.Check(len(p) == n, "Perm(%d) has length %d", n, len(p))
					for _, v := range p {
						t.Check(v >= 0 && v < n && !seen[v], "Perm(%d) = %v is not a permutation", n, p)
						seen[v] = true
					}
				})
				withSource(t, clone(ws), func() {
					base := make([]int, n+4)
					for i := range base {
						base[i] = i % (n/2 + 1)
					}
					b0 := clone(base)
					s := base[2 : n+2]
					r := gslice.Shuffle(s)
					cnt := map[int]int{}
					for _, v := range b0[2 : n+2] {
						cnt[v]++
					}
					for _, v := range s {
						cnt[v]--
					}
					for v, c := range cnt {
						t.Check(c == 0, "Shuffle changed the number of elements %d: %v to %v", v, b0[2:n+2], s)
					}
					t.Check(same(base[:2], b0[:2]) && same(base[n+2:], b0[n+2:]), "Shuffle wrote outside the slice")
					t.Check(same(r, s), "Shuffle returned %v, the slice is %v", r, s)
				})
			})
		}
		sh := func(ws []uint64, n int) {
			t.Case(func() string { return fmt.Sprintf("Shuffle(%d), source words %v", n, ws) }, func() {
				withSource(t, clone(ws), func() {
					k := 0
					type stop struct{}
					r := Panics(func() {
						fastrand.Shuffle(n, func(i, j int) {
							t.Check(i >= 0 && i < n && j >= 0 && j < n, "swap(%d, %d) is outside the range", i, j)
							if k++; k > 200 {
								panic(stop{})
							}
						})
					})
					if _, ok := r.(stop); r != nil && !ok {
						panic(r)
					}
				})
			})
		}
		for _, n := range []int{-1, -2, math.MinInt64} {
			t.Case(func() string { return fmt.Sprintf("n = %d", n) }, func() {
				t.Check(Panics(func() { fastrand.Shuffle(n, func(i, j int) {}) }) != nil, "Shuffle(%d) does not panic", n)
				t.Check(Panics(func() { fastrand.Perm(n) }) != nil, "Perm(%d) does not panic", n)
			})
		}
		rep := func(w uint64, n int) []uint64 {
			o := make([]uint64, n)
			for i := range o {
				o[i] = w
			}
			return o
		}
		for n := 0; n < 70; n++ {
			for _, w := range edgeWords {
				perm(rep(w, 4), n)
				sh(rep(w, 4), n)
			}
		}
		for _, n := range []int{1<<31 - 3, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<31 + 100, 1 << 32, 1<<32 + 1, 1 << 40, math.MaxInt64 - 1, math.MaxInt64} {
			for _, w := range edgeWords {
				sh(rep(w, 2), n)
				sh(rep(w, 150), n)
			}
		}
		for i := 0; i < 3000 && t.Time(); i++ {
			perm(nil, t.R.Intn(200))
			sh(nil, t.R.Intn(1000))
		}
	})
	reg("C35", "pairs, pointers and emptiness over many types and values, error holders under all histories of up to 5 sets over 8 errors of different concrete types", func(t *T) {
		type st struct {
			A int
			B string
		}
		chk := func(v int, s string) {
			t.Case(func() string { return fmt.Sprintf("values %d %q", v, s) }, func() {
				a, b := gconstraints.Pack(v, s).Unpack()
				t.Check(a == v && b == s, "Pack(%d, %q).Unpack() = %d, %q", v, s, a, b)
				c, d := gconstraints.Pack(s, &v).Unpack()
				t.Check(c == s && d == &v, "Pack(%q, &v).Unpack() = %q", s, c)
				e, g := gconstraints.Pack(v, v+1).Unpack()
				t.Check(e == v && g == v+1, "Pack(%d, %d).Unpack() = %d, %d", v, v+1, e, g)
				p := gconstraints.ToPtr(v)
				q := gconstraints.ToPtr(v)
				t.Check(*p == v && p != q, "ToPtr(%d)", v)
				*p = v + 1
				t.Check(*q == v, "ToPtr shares storage")
				t.Check(gconstraints.ToValue(q) == v, "ToValue(ToPtr(%d)) = %d", v, gconstraints.ToValue(q))
				t.Check(gconstraints.ToValue(&s) == s, "ToValue(&%q)", s)
				t.Check(gconstraints.IsEmpty(v) == (v == 0), "IsEmpty(%d)", v)
				t.Check(gconstraints.IsNotEmpty(v) == (v != 0), "IsNotEmpty(%d)", v)
				t.Check(gconstraints.IsEmpty(s) == (s == ""), "IsEmpty(%q)", s)
				t.Check(gconstraints.IsNotEmpty(s) == (s != ""), "IsNotEmpty(%q)", s)
				x := st{v, s}
				t.Check(gconstraints.IsEmpty(x) == (v == 0 && s == ""), "IsEmpty(%v)", x)
				t.Check(gconstraints.IsNotEmpty(x) == (v != 0 || s != ""), "IsNotEmpty(%v)", x)
				t.Check(!gconstraints.IsEmpty(&x) && gconstraints.IsNotEmpty(&x), "IsEmpty(pointer)")
			})
		}
		for _, v := range []int{0, 1, -1, 2, 1 << 40, math.MinInt64, math.MaxInt64} {
			for _, s := range []string{"", "a", "0", " ", "\x00", "longer text"} {
				chk(v, s)
			}
		}
		t.Case(func() string { return "nil pointers and zero values" }, func() {
			t.Check(gconstraints.ToValue[int](nil) == 0 && gconstraints.ToValue[string](nil) == "" && gconstraints.ToValue[st](nil) == st{} && gconstraints.ToValue[*int](nil) == nil, "ToValue(nil) is not the zero value")
			t.Check(gconstraints.IsEmpty[*int](nil) && !gconstraints.IsNotEmpty[*int](nil) && gconstraints.IsEmpty(0.0) && gconstraints.IsEmpty(false) && !gconstraints.IsEmpty(true) && gconstraints.IsEmpty[any](nil) && !gconstraints.IsEmpty[any](0), "IsEmpty of zero values")
			t.Check(gconstraints.Empty[int]() == 0 && gconstraints.Empty[string]() == "" && gconstraints.Empty[*int]() == nil, "Empty")
		})
		e1 := errors.New("one")
		errs := []error{nil, e1, errors.New("one"), fmt.Errorf("wrap %w", e1), errT1("x"), errT1(""), (*errT2)(nil), &errT2{1}}
		var rec func(ae *gconstraints.AtomicError, last error, n int, h []int)
		run := func(h []int) {
			t.Case(func() string { return fmt.Sprintf("error holder: set errors number %v of %v", h, errs) }, func() {
				var ae gconstraints.AtomicError
				t.Check(ae.Load() == nil, "Load of a new holder = %v", ae.Load())
				var last error
				for _, i := range h {
					t.Op("Set(%T %v)", errs[i], i)
					ae.Set(errs[i])
					if errs[i] != nil {
						last = errs[i]
					}
					g := ae.Load()
					t.Check(g == last, "Load = %v (%T) want %v (%T)", g, g, last, last)
				}
			})
		}
		rec = func(_ *gconstraints.AtomicError, _ error, n int, h []int) {
			run(h)
			if n == 0 {
				return
			}
			for i := range errs {
				rec(nil, nil, n-1, append(clone(h), i))
			}
		}
		rec(nil, nil, 4, nil)
	})
	reg("C36", "histories of gets and puts on pools of integers, pointers, strings and slices", func(t *T) {
		for it := 0; it < 300 && t.Time(); it++ {
			mode := it % 3
			t.Case(func() string { return fmt.Sprintf("pool history, mode %d", mode) }, func() {
				type obj struct{ id int }
				made := map[*obj]bool{}
				in := map[*obj]int{}
				p := gpool.New(func() *obj { o := &obj{len(made)}; made[o] = true; return o })
				used := map[*obj]bool{}
				var held []*obj
				ip := gpool.New(func() int { return -7 })
				inInt := map[int]int{}
				for k := 0; k < 60; k++ {
					if t.R.Intn(2) == 0 {
						o := p.Get()
						t.Op("Get = %p", o)
						t.Check(o != nil, "Get = nil")
						if in[o] > 0 {
							in[o]--
						} else {
							t.Check(made[o] && !used[o], "Get returned a value that is neither new nor in the pool")
						}
						used[o] = true
						held = append(held, o)
						v := ip.Get()
						t.Check(v == -7 || inInt[v] > 0, "Get = %d, which was not put in", v)
						if inInt[v] > 0 {
							inInt[v]--
						}
					} else {
						if len(held) > 0 && mode != 1 {
							i := t.R.Intn(len(held))
							o := held[i]
							held = append(held[:i], held[i+1:]...)
							t.Op("Put(%p)", o)
							in[o]++
							p.Put(o)
						} else {
							o := &obj{1000 + k}
							t.Op("Put(new %p)", o)
							in[o]++
							used[o] = true
							p.Put(o)
						}
						inInt[k]++
						ip.Put(k)
					}
				}
			})
			size := uint([]int{0, 1, 2, 7, 8, 64, 100, 1000}[it%8])
			t.Case(func() string { return fmt.Sprintf("array pool of size %d", size) }, func() {
				ap := gpool.NewArrayPool[int](size)
				s := ap.Get()
				t.Check(len(s) == 0 && uint(cap(s)) == size && s != nil, "new slice: len %d cap %d want 0 %d", len(s), cap(s), size)
				s2 := ap.Get()
				if size > 0 {
					a, b := append(s, 1), append(s2, 2)
					t.Check(a[0] == 1 && b[0] == 2, "two slices of the pool share storage")
				}
				x := make([]int, 3, 3+size+1)
				x[0], x[1], x[2] = 4, 5, 6
				ap.Put(x)
				y := ap.Get()
				if len(y) == 0 {
					t.Check(uint(cap(y)) == size, "new slice: cap %d", cap(y))
				} else {
					t.Check(len(y) == 3 && cap(y) == cap(x) && &y[0] == &x[0], "Get = %v is neither new nor the slice put in", y)
				}
			})
		}
	})
	reg("C37", "strings and byte slices of every length up to 300 and larger ones, all byte values, sub-slices and sub-strings", func(t *T) {
		one := func(b []byte) {
			t.Case(func() string { return fmt.Sprintf("bytes %v (len %d cap %d)", b[:min(len(b), 40)], len(b), cap(b)) }, func() {
				s := unsafex.SliceToString(b)
				t.Check(len(s) == len(b), "SliceToString has length %d want %d", len(s), len(b))
				for i := range b {
					t.Check(s[i] == b[i], "SliceToString: byte %d = %d want %d", i, s[i], b[i])
				}
				t.Check(s == string(b), "SliceToString = %q", s)
				str := string(b)
				c := unsafex.StringToSlice(str)
				t.Check(len(c) == len(str), "StringToSlice has length %d want %d", len(c), len(str))
				for i := range c {
					t.Check(c[i] == str[i], "StringToSlice: byte %d = %d want %d", i, c[i], str[i])
				}
				if len(str) > 2 {
					d := unsafex.StringToSlice(str[1 : len(str)-1])
					t.Check(string(d) == str[1:len(str)-1], "StringToSlice of a substring = %q", d)
				}
			})
		}
		one(nil)
		one([]byte{})
		for n := 0; n < 300; n++ {
			b := make([]byte, n+8)
			t.R.Read(b)
			one(b[:n:n])
			one(b[3 : 3+n])
		}
		for _, n := range []int{1 << 12, 1<<16 - 1, 1 << 16, 1<<16 + 1, 1 << 20} {
			b := make([]byte, n)
			t.R.Read(b)
			one(b)
		}
	})
}

type errT1 string

func (e errT1) Error() string { return string(e) }

type errT2 struct{ n int }

func (e *errT2) Error() string { return "t2" }
