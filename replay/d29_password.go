package main

import (
	"fmt"
	"time"

	"github.com/miniLCT/gosb/library/password"
)

// pwWant is the answer the property asks for.
func pwWant(pw string, flag password.Flag, minLen int, maxLen []int) bool {
	if len(pw) < minLen || len(maxLen) > 0 && len(pw) > maxLen[0] {
		return false
	}
	var d, l, u, s bool
	for i := 0; i < len(pw); i++ {
		c := pw[i]
		switch {
		case c <= ' ' || c >= 127:
			return false
		case '0' <= c && c <= '9':
			d = true
		case 'a' <= c && c <= 'z':
			l = true
		case 'A' <= c && c <= 'Z':
			u = true
		default:
			s = true
		}
	}
	has := func(f password.Flag) bool { return flag&f != 0 }
	if has(password.N) != d || has(password.S) != s {
		return false
	}
	if (has(password.LorU) || has(password.L) || has(password.U)) != (l || u) {
		return false
	}
	return (!has(password.L) || l) && (!has(password.U) || u)
}

func init() {
	reg("C29", "every flag value with strings over the boundary characters of every class (and bytes outside ASCII), with length bounds around the length", func(t *T) {
		one := func(pw string, flag password.Flag, minLen int, maxLen []int) {
			t.Case(func() string { return fmt.Sprintf("CheckPassword(%q, %d, %d, %v)", pw, flag, minLen, maxLen) }, func() {
				got, want := password.CheckPassword(pw, flag, minLen, maxLen...), pwWant(pw, flag, minLen, maxLen)
				t.Check(got == want, "got %v, want %v", got, want)
			})
		}
		all := func(pw string) {
			for f := 0; f < 256; f++ {
				one(pw, password.Flag(f), 0, nil)
			}
		}
		for c := 0; c < 256; c++ {
			all(string([]byte{byte(c)}))
			all("a" + string([]byte{byte(c)}))
		}
		edges := []string{"0", "9", "a", "z", "A", "Z", "!", "/", ":", "@", "[", "`", "{", "~", " ", "\x7f", "\x00", "é", "\xff", "5", "m", "M", "0٣", "K", "ſ"}
		var f []password.Flag
		for i := 0; i < 64; i++ {
			f = append(f, password.Flag(i))
		}
		f = append(f, 255, 128, 64, 0xff-1)
		for _, tup := range tuples(edges, 3) {
			s := ""
			for _, p := range tup {
				s += p
			}
			for _, fl := range f {
				one(s, fl, 0, nil)
			}
			if !t.Frac2() {
				break
			}
		}
		good := []string{"", "a", "a1", "aB1", "aB1!", "Aa@123456", "abcdefgh"}
		for _, pw := range good {
			for _, fl := range f {
				for d := -2; d <= 2; d++ {
					for e := -2; e <= 2; e++ {
						one(pw, fl, len(pw)+d, []int{len(pw) + e})
						one(pw, fl, len(pw)+d, []int{len(pw) + e, 0})
					}
					one(pw, fl, len(pw)+d, nil)
				}
				one(pw, fl, -1<<63, []int{0})
				one(pw, fl, 1<<62, []int{1 << 62})
				one(pw, fl, 0, []int{1 << 62})
				one(pw, fl, 0, []int{-1})
			}
		}
		end := time.Now().Add(2 * time.Second)
		for t.Time() && (t.thorough || time.Now().Before(end)) {
			n := t.R.Intn(40)
			b := make([]byte, n)
			k := 1 + t.R.Intn(4)
			cls := []string{"0123456789", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", " \x00\x80\xff\t"}
			pick := t.R.Perm(5)[:k]
			for i := range b {
				s := cls[pick[t.R.Intn(k)]]
				b[i] = s[t.R.Intn(len(s))]
			}
			fl := password.Flag(t.R.Intn(256))
			one(string(b), fl, t.R.Intn(45)-2, nil)
			one(string(b), fl, 0, []int{t.R.Intn(45)})
		}
	})
}
