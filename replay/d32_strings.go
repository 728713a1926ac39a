package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/miniLCT/gosb/library/stringx"
)

// allTexts calls f with every text of up to n pieces of the alphabet, then with random ones.
func (t *T) allTexts(alphabet []string, n int, f func(s string)) {
	var rec func(s string, n int)
	rec = func(s string, n int) {
		t.Distinct()
		f(s)
		if n == 0 {
			return
		}
		for _, a := range alphabet {
			if !t.Frac2() {
				return
			}
			rec(s+a, n-1)
		}
	}
	rec("", n)
	for t.Time() {
		k := 1 + t.R.Intn(24)
		var b strings.Builder
		for i := 0; i < k; i++ {
			if t.R.Intn(6) == 0 {
				b.WriteByte(byte(t.R.Intn(256)))
			} else {
				b.WriteString(alphabet[t.R.Intn(len(alphabet))])
			}
		}
		f(b.String())
	}
}

func isUp(c byte) bool  { return 'A' <= c && c <= 'Z' }
func isLow(c byte) bool { return 'a' <= c && c <= 'z' }

// snakeWant: an underscore before an upper-case letter if a character other than the underscore came since
// the last upper-case letter that had none before it, or the last one inserted; then lower case.
func snakeWant(s string) string {
	var b strings.Builder
	armed := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if isUp(c) {
			if armed {
				b.WriteByte('_')
			}
			armed = false
		} else if c != '_' {
			armed = true
		}
		b.WriteByte(c)
	}
	return strings.ToLower(b.String())
}

func camelWant(s string) string {
	var b strings.Builder
	seen := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if seen && c == '_' && i+1 < len(s) && isLow(s[i+1]) {
			i++
			b.WriteByte(s[i] - 'a' + 'A')
			continue
		}
		if isLow(c) && !seen {
			c = c - 'a' + 'A'
		}
		if isUp(c) || isLow(c) {
			seen = true
		}
		b.WriteByte(c)
	}
	return b.String()
}

func jsonWant(s string) string { return string([]rune(s)) }

// strictLiteral tells whether the text is a JSON string literal and what it stands for (ours, beside the library's).
func strictLiteral(s string) (string, bool) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' || !utf8.ValidString(s) {
		return "", false
	}
	s = s[1 : len(s)-1]
	var b strings.Builder
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c < 0x20 || c == '"':
			return "", false
		case c != '\\':
			b.WriteByte(c)
			i++
		case i+1 >= len(s):
			return "", false
		case s[i+1] == 'u':
			if i+6 > len(s) {
				return "", false
			}
			v, err := strconv.ParseUint(s[i+2:i+6], 16, 32)
			if err != nil || v >= 0xd800 && v < 0xe000 {
				return "", false
			}
			b.WriteRune(rune(v))
			i += 6
		default:
			k := strings.IndexByte(`"\/bfnrt`, s[i+1])
			if k < 0 {
				return "", false
			}
			b.WriteByte("\"\\/\b\f\n\r\t"[k])
			i += 2
		}
	}
	return b.String(), true
}

func init() {
	reg("C32", "every one-byte and two-byte text, every text of up to 5 pieces of an alphabet of plain, escaped, multi-byte and broken characters, then random texts, with and without HTML escaping", func(t *T) {
		one := func(s string) {
			for _, html := range []bool{false, true} {
				t.Case(func() string { return fmt.Sprintf("StringMarshalJSON(%q, %v)", s, html) }, func() {
					in := string([]byte(s))
					got := string(stringx.StringMarshalJSON(in, html))
					t.Check(in == s, "the argument became %q", in)
					back, ok := strictLiteral(got)
					t.Check(ok, "%q is no JSON string literal", got)
					t.Check(back == jsonWant(s), "%q stands for %q", got, back)
					var lib string
					err := json.Unmarshal([]byte(got), &lib)
					t.Check(err == nil && lib == back, "json.Unmarshal of %q gives %q and %v", got, lib, err)
					t.Check(!strings.ContainsAny(got, "\u2028\u2029"), "%q holds U+2028 or U+2029", got)
					if html {
						t.Check(!strings.ContainsAny(got, "<>&"), "%q holds <, > or &", got)
					}
				})
			}
		}
		for i := 0; i < 256; i++ {
			one(string([]byte{byte(i)}))
		}
		for r := rune(0); r < 0x11000; r++ {
			if t.Frac2() || r < 0x2100 {
				one(string(r))
			}
		}
		for i := 0; i < 1<<16 && t.Frac2(); i++ {
			one(string([]byte{byte(i >> 8), byte(i)}))
		}
		t.allTexts([]string{"a", "<", "&", "\"", "\\", "\n", "\x1f", "\x7f", "/", "é", "\u2028", "\u2029", "\u202a", "\xe2\x80", "\xff", "�", "😀", "\x00", "\t", "\r", ">"}, 4, one)
	})

	reg("C33", "every text of up to 5 characters of an alphabet of letters, their neighbours, underscores and non-ASCII bytes, then random texts", func(t *T) {
		one := func(s string) {
			t.Case(func() string { return fmt.Sprintf("text %q", s) }, func() {
				in := string([]byte(s))
				got, want := stringx.SnakeString(in), snakeWant(s)
				t.Check(got == want, "SnakeString gives %q, not %q", got, want)
				got, want = stringx.CamelString(in), camelWant(s)
				t.Check(got == want, "CamelString gives %q, not %q", got, want)
				t.Check(in == s, "the argument became %q", in)
			})
		}
		for i := 0; i < 256; i++ {
			for _, p := range []string{"", "a", "A", "_", "a_", "A_", "_a", "1", "1_"} {
				for _, q := range []string{"", "a", "A", "_", "_a", "_A", "1"} {
					one(p + string([]byte{byte(i)}) + q)
				}
			}
		}
		t.allTexts([]string{"_", "a", "A", "z", "Z", "@", "[", "`", "{", "0", "é", "\xff"}, 6, one)
	})

	reg("C34", "texts made of pieces that are, or almost are, targets of the helper, up to 4 pieces, then random texts", func(t *T) {
		start := func(name string, args ...any) func() string {
			return func() string {
				s := make([]string, len(args))
				for i, a := range args {
					s[i] = fmt.Sprintf("%q", a)
					if n, ok := a.(int); ok {
						s[i] = strconv.Itoa(n)
					}
				}
				return name + "(" + strings.Join(s, ", ") + ")"
			}
		}
		indent := func(s, p string) {
			t.Case(start("Indent", s, p), func() {
				var b strings.Builder
				for i := 0; i < len(s); i++ {
					if i == 0 || s[i-1] == '\n' {
						b.WriteString(p)
					}
					b.WriteByte(s[i])
				}
				want := b.String()
				if s == "" {
					want = p
				}
				got := stringx.Indent(s, p)
				t.Check(got == want, "%q, not %q", got, want)
			})
		}
		lint := func(s string) {
			t.Case(start("LintCamelString", s), func() {
				got := stringx.LintCamelString(s)
				t.Check(!utf8.ValidString(s) || lintTarget(s) || got == s, "%q", got)
			})
		}
		entity := func(s string, base int) {
			t.Case(start("HTMLEntityToUTF8", s, base), func() {
				got := stringx.HTMLEntityToUTF8(s, base)
				if want, ok := entityWant(s, base); ok {
					t.Check(got == want, "%q, not %q", got, want)
				}
			})
		}
		point := func(s string, base int) {
			t.Case(start("CodePointToUTF8", s, base), func() {
				got := stringx.CodePointToUTF8(s, base)
				if want, ok := pointWant(s, base); ok {
					t.Check(got == want, "%q, not %q", got, want)
				}
			})
		}
		space := func(s string) {
			t.Case(start("SpaceInOne", s), func() {
				got := stringx.SpaceInOne(s)
				has := func(s string) bool {
					for _, f := range spaceTargets {
						if strings.Contains(s, f) {
							return true
						}
					}
					return false
				}
				t.Check(has(s) || got == s, "%q", got)
				t.Check(!has(got), "%q holds a run of spaces", got)
				t.Check(dropSpace(got) == dropSpace(s), "%q: other characters changed", got)
			})
		}
		bases := []int{16, 10, 0, 2, 8, 36, 1, 37, -1}
		all := func(s string) {
			indent(s, "  ")
			lint(s)
			entity(s, 16)
			point(s, 16)
			space(s)
		}
		for _, s := range []string{"", "_", "__", "a", "A", "\n", "\\u", "\\u\\u", "&#;", "&#", "\\", "u", "\\u0", "&#0;"} {
			all(s)
			for _, b := range bases {
				entity(s, b)
				point(s, b)
			}
			for _, p := range []string{"", " ", "\n", "\n\n", "ab", "é"} {
				indent(s, p)
			}
		}
		pick := func(a []string) string {
			var b strings.Builder
			for i := t.R.Intn(7); i >= 0; i-- {
				b.WriteString(a[t.R.Intn(len(a))])
			}
			return b.String()
		}
		short := func(a []string, f func(string)) {
			for _, x := range a {
				f(x)
				for _, y := range a {
					f(x + y)
					for _, z := range a {
						f(x + y + z)
					}
				}
			}
		}
		indents := []string{"a", "\n", "\r", " ", "bc", "é", "\xff", "\n\n"}
		prefixes := []string{"", " ", "\n", "> ", "\t", "a", "\nb", "é"}
		short(indents, func(s string) {
			for _, p := range prefixes {
				indent(s, p)
			}
		})
		lints := []string{"a", "A", "_", "__", "id", "ID", "Id", "url", "9", "é", "É", "ⓐ", "ſ", "xx", "Yy", "\xff", "HTTPS", "ǆ", "ǅ"}
		short(lints, lint)
		entities := []string{"&#5496;", "&#7c;", "&#7c", ";", "&", "#", "&#", "a", "é", "zz", "&#zz;", "&#fffffffff;", "&#;", "&#110000;", "&#d800;", "&#41;", " ", "&lt;", "&#x41;", "&#;41"}
		short(entities, func(s string) { entity(s, 16) })
		points := []string{`\u5496`, `\u7c`, `\u`, `\`, "u", "41", "a", "é", `\u00e9x`, `\uzz`, `\ud800`, `\U0041`, " ", `\u-41`, `\u+041`, `\u0000`, "0041", `\u_`}
		short(points, func(s string) { point(s, 16) })
		spaces := append([]string{"a", "é", " ", "\n", "\r", "\t", "\v", "\f", "\u0085", "\u00a0", "\xc2", "\x85", "\xa0", "\u2003"}, spaceTargets...)
		short(spaces, space)
		for t.Time() {
			indent(pick(indents), pick(prefixes))
			lint(pick(lints))
			b := bases[0]
			if t.R.Intn(2) == 0 {
				b = bases[t.R.Intn(len(bases))]
			}
			entity(pick(entities), b)
			point(pick(points), b)
			space(pick(spaces))
		}
	})
}
