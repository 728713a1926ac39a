package main

import (
	"fmt"
	"strings"

	"github.com/miniLCT/gosb/library/bitset"
)

func bitsOf(b []byte) []bool {
	out := make([]bool, 8*len(b))
	for i := range out {
		out[i] = b[i/8]>>(7-i%8)&1 == 1
	}
	return out
}

func bytesOf(bits []bool) []byte {
	out := make([]byte, (len(bits)+7)/8)
	for i, v := range bits {
		if v {
			out[i/8] |= 1 << (7 - i%8)
		}
	}
	return out
}

// sampleSets are byte contents: all single bytes of a list, and sequences over edge bytes.
func sampleSets(t *T, maxLen int) [][]byte {
	out := tuples([]byte{0, 0xff, 0x80, 0x01, 0xa5}, 2)
	for _, b := range []byte{0x3c, 0x55, 0xaa, 0x7f, 0xfe, 0xc3, 0x10} {
		out = append(out, []byte{b}, []byte{b, ^b}, []byte{^b, b, 0x69})
	}
	for n := 3; n <= maxLen; n++ {
		for k := 0; k < 2; k++ {
			s := make([]byte, n)
			t.R.Read(s)
			out = append(out, s)
		}
	}
	return out
}

func offsets(n int) []int {
	var out []int
	for i := -n - 9; i <= n+9; i++ {
		out = append(out, i)
	}
	return append(out, n+64, n+100, 2*n+17, -2*n-30, 1000)
}

func init() {
	reg("C17", "all offsets around the ends of small sets with edge bytes, histories of Set/Get against a bit sequence, hex texts valid and broken", func(t *T) {
		for _, init := range sampleSets(t, 6) {
			for _, off := range offsets(8 * len(init)) {
				for _, v := range []bool{false, true} {
					t.Case(func() string { return fmt.Sprintf("New(%v), Set(%d, %v)", init, off, v) }, func() {
						ref := bitsOf(init)
						b := bitset.New(clone(init)...)
						checkBits(t, b, ref)
						ref = checkBitSet(t, b, ref, off, v)
						checkBits(t, b, ref)
					})
				}
			}
			if !t.Frac2() {
				break
			}
		}
		for _, n := range []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096} {
			for _, off := range []int{0, 8*n - 1, 8 * n, 8*n + 1, 16*n - 1, 16 * n, 16*n + 1, 9 * n, -1, -8 * n, -8*n - 1} {
				t.Case(func() string { return fmt.Sprintf("a set of %d bytes, Set(%d, true)", n, off) }, func() {
					init := make([]byte, n)
					t.R.Read(init)
					ref := bitsOf(init)
					b := bitset.New(clone(init)...)
					ref = checkBitSet(t, b, ref, off, true)
					checkBits(t, b, ref)
				})
			}
		}
		hexes := []string{"", "0", "00", "ff", "FF", "aBcD", "0g", "g0", "zz", "12 4", "c020", "0x12", "abc", "\x00\x00", "é1"}
		for i := 0; i < 256; i++ {
			hexes = append(hexes, fmt.Sprintf("%02x%02X", i, 255-i), string([]byte{byte(i), '0'}), string([]byte{'0', byte(i)}))
		}
		for _, h := range hexes {
			t.Case(func() string { return fmt.Sprintf("NewFromHex(%q)", h) }, func() {
				var ref []byte
				ok := len(h)%2 == 0
				for i := 0; ok && i < len(h); i += 2 {
					a, b := strings.IndexByte("0123456789abcdef", h[i]|0x20), strings.IndexByte("0123456789abcdef", h[i+1]|0x20)
					if h[i] < '0' || h[i+1] < '0' || a < 0 || b < 0 {
						ok = false
						break
					}
					ref = append(ref, byte(16*a+b))
				}
				s, err := bitset.NewFromHex(h)
				t.Check((err == nil) == ok, "error %v", err)
				if ok {
					checkBits(t, s, bitsOf(ref))
				}
			})
		}
		for t.Time() {
			init := make([]byte, t.R.Intn(4))
			t.R.Read(init)
			t.Case(func() string { return fmt.Sprintf("history on New(%v)", init) }, func() {
				ref := bitsOf(init)
				b := bitset.New(clone(init)...)
				for k := 0; k < 20; k++ {
					off := t.R.Intn(2*len(ref)+20) - len(ref) - 3
					v := t.R.Intn(2) == 0
					t.Op("Set(%d, %v)", off, v)
					ref = checkBitSet(t, b, ref, off, v)
					checkBits(t, b, ref)
				}
			})
		}
	})

	reg("C18", "all ranges of small sets with edge bytes, ranges at the ends of longer ones", func(t *T) {
		one := func(init []byte, s, e int) {
			t.Case(func() string { return fmt.Sprintf("set %08b, range %d..%d", init, s, e) }, func() {
				ref := bitsOf(init)
				b := bitset.New(clone(init)...)
				lo, hi := s, e
				if lo < 0 {
					lo += len(ref)
				}
				if hi < 0 {
					hi += len(ref)
				}
				if lo < 0 {
					lo = 0
				}
				if hi >= len(ref) {
					hi = len(ref) - 1
				}
				var want []bool
				if lo <= hi && lo < len(ref) {
					want = ref[lo : hi+1]
				}
				n := 0
				for _, v := range want {
					if v {
						n++
					}
				}
				got := b.Count(s, e)
				t.Check(got == n, "Count = %d, want %d", got, n)
				sub := b.Sub(s, e)
				t.Check(string(sub.Bytes()) == string(bytesOf(want)), "Sub = %08b, want %08b", sub.Bytes(), bytesOf(want))
				t.Check(string(b.Bytes()) == string(init), "the source became %08b", b.Bytes())
				sub.Set(0, true)
				sub.Set(3, false)
				t.Check(string(b.Bytes()) == string(init), "writing the result changed the source to %08b", b.Bytes())
			})
		}
		for _, init := range sampleSets(t, 4) {
			n := 8 * len(init)
			for s := -n - 2; s <= n+1; s++ {
				for e := -n - 2; e <= n+1; e++ {
					one(init, s, e)
				}
				if !t.Time() {
					return
				}
			}
			one(init, 1000, 2000)
			one(init, -1000, 1000)
			one(init, 3, -1000)
		}
		for t.Time() {
			init := make([]byte, 1+t.R.Intn(40))
			if t.R.Intn(20) == 0 {
				init = make([]byte, 1+t.R.Intn(700))
			}
			t.R.Read(init)
			n := 8 * len(init)
			for k := 0; k < 30; k++ {
				s := t.R.Intn(2*n+4) - n - 2
				one(init, s, t.R.Intn(2*n+4)-n-2)
				one(init, s, s+t.R.Intn(20))
			}
		}
	})

	reg("C19", "all operations on pairs and triples of edge-byte sets of different lengths, against byte-wise results", func(t *T) {
		vec := func(op string, a []byte, bs [][]byte) []byte {
			n := len(a)
			for _, b := range bs {
				if len(b) > n {
					n = len(b)
				}
			}
			out := make([]byte, n)
			copy(out, a)
			for _, b := range bs {
				x := make([]byte, n)
				copy(x, b)
				for i := range out {
					switch op {
					case "And":
						out[i] &= x[i]
					case "Or":
						out[i] |= x[i]
					case "Xor":
						out[i] ^= x[i]
					case "AndNot":
						out[i] &^= x[i]
					}
				}
			}
			return out
		}
		alg := func(a []byte, bs [][]byte) {
			t.Case(func() string { return fmt.Sprintf("receiver %08b, operands %08b", a, bs) }, func() {
				r := bitset.New(clone(a)...)
				var os []*bitset.BitSet
				for _, b := range bs {
					os = append(os, bitset.New(clone(b)...))
				}
				check := func(name string, f func(...*bitset.BitSet) *bitset.BitSet) {
					res := f(os...)
					if len(os) == 0 {
						t.Check(res == r, "%s() is not the receiver", name)
						return
					}
					want := vec(name, a, bs)
					t.Check(string(res.Bytes()) == string(want), "%s = %08b, want %08b", name, res.Bytes(), want)
					for i := 0; i < res.Size(); i++ {
						res.Set(i, !want2(want, i))
					}
					t.Check(string(r.Bytes()) == string(a), "%s changed (or shares with) the receiver: %08b", name, r.Bytes())
					for i, o := range os {
						t.Check(string(o.Bytes()) == string(bs[i]), "%s changed (or shares with) operand %d: %08b", name, i, o.Bytes())
					}
				}
				check("And", r.And)
				check("Or", r.Or)
				check("Xor", r.Xor)
				check("AndNot", r.AndNot)
				// the locks are free again
				r.Set(0, want2(a, 0))
			})
		}
		unary := func(a []byte, sep string) {
			t.Case(func() string { return fmt.Sprintf("set %08b, separator %q", a, sep) }, func() {
				b := bitset.New(clone(a)...)
				not := b.Not()
				want := make([]byte, len(a))
				hexs, bins := "", ""
				for i, v := range a {
					want[i] = ^v
					hexs += string("0123456789abcdef"[v>>4]) + string("0123456789abcdef"[v&15])
					if i > 0 {
						bins += sep
					}
					for k := 7; k >= 0; k-- {
						bins += string('0' + rune(v>>k&1))
					}
				}
				t.Check(string(not.Bytes()) == string(want), "Not = %08b, want %08b", not.Bytes(), want)
				not.Set(0, true)
				not.Set(1, false)
				t.Check(b.String() == hexs, "String = %q, want %q", b.String(), hexs)
				t.Check(b.Binary(sep) == bins, "Binary = %q, want %q", b.Binary(sep), bins)
				c := b.Bytes()
				t.Check(string(c) == string(a), "Bytes = %v, want %v", c, a)
				for i := range c {
					c[i] ^= 0xff
				}
				t.Check(string(b.Bytes()) == string(a), "Bytes shares memory with the set")
				b.Clear()
				t.Check(string(b.Bytes()) == string(make([]byte, len(a))), "Clear left %08b", b.Bytes())
			})
		}
		small := tuples([]byte{0, 0xff, 0x5a}, 2)
		for _, a := range small {
			alg(a, nil)
			for _, b := range small {
				alg(a, [][]byte{b})
				for _, c := range small {
					alg(a, [][]byte{b, c})
				}
			}
		}
		for _, a := range sampleSets(t, 20) {
			for _, sep := range []string{"", " ", ",", "--", "0", "1", "01", "\x00", "é"} {
				unary(a, sep)
			}
		}
		for n := 0; n < 256; n++ {
			unary([]byte{byte(n)}, "")
			unary([]byte{byte(n), byte(n + 1), 0}, "0")
		}
		for t.Time() {
			mk := func() []byte {
				b := make([]byte, t.R.Intn(12))
				if t.R.Intn(10) == 0 {
					b = make([]byte, t.R.Intn(300))
				}
				t.R.Read(b)
				return b
			}
			var bs [][]byte
			for k := t.R.Intn(5); k > 0; k-- {
				bs = append(bs, mk())
			}
			alg(mk(), bs)
			unary(mk(), []string{"", " ", "x0"}[t.R.Intn(3)])
		}
	})
}

func want2(b []byte, i int) bool { return i < 8*len(b) && b[i/8]>>(7-i%8)&1 == 1 }

func checkBitSet(t *T, b *bitset.BitSet, ref []bool, off int, v bool) []bool {
	was, err := b.Set(off, v)
	e := off
	if e < 0 {
		e += len(ref)
	}
	if e < 0 {
		t.Check(err != nil, "Set(%d) on %d bits was not refused", off, len(ref))
		return ref
	}
	t.Check(err == nil, "Set(%d) on %d bits failed: %v", off, len(ref), err)
	want := e < len(ref) && ref[e]
	t.Check(was == want, "Set(%d, %v) returned %v, previous value %v", off, v, was, want)
	for len(ref) <= e {
		ref = append(ref, make([]bool, 8)...)
	}
	ref[e] = v
	return ref
}

func checkBits(t *T, b *bitset.BitSet, ref []bool) {
	t.Check(b.Size() == len(ref), "size %d, want %d", b.Size(), len(ref))
	t.Check(string(b.Bytes()) == string(bytesOf(ref)), "contents %08b, want %08b", b.Bytes(), bytesOf(ref))
	for _, i := range []int{0, 1, 7, 8, len(ref) - 1, len(ref), len(ref) + 1, len(ref) + 100, -1, -2, -8, -len(ref), -len(ref) - 1} {
		e := i
		if e < 0 {
			e += len(ref)
		}
		want := e >= 0 && e < len(ref) && ref[e]
		t.Check(b.Get(i) == want, "Get(%d) = %v, want %v", i, !want, want)
	}
	for _, stop := range []int{-1, 0, 1, len(ref) / 2, len(ref) - 1} {
		n := 0
		b.Range(func(off int, truth bool) bool {
			t.Check(off == n, "Range visits %d, want %d", off, n)
			t.Check(off < len(ref) && truth == ref[off], "Range reports bit %d as %v", off, truth)
			n++
			return n-1 != stop
		})
		want := len(ref)
		if stop >= 0 && stop < len(ref) {
			want = stop + 1
		}
		t.Check(n == want, "Range made %d calls, want %d", n, want)
	}
}
