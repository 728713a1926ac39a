package main

import (
	"strconv"
	"strings"
	"unicode"
)

var spaceTargets = []string{"  ", "\n\n", "\r\r", "\t\t", "\r\n\r\n", " \n", "\t\n", " \t", "\t ", "\v\v", "\f\f", "\u0085\u0085", "\u00a0\u00a0"}

func dropSpace(s string) string {
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(" \n\r\t\v\f\u0085\u00a0", r) {
			return -1
		}
		return r
	}, strings.ToValidUTF8(s, "?"))
}

var lintWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("ACL API ASCII CPU CSS DNS EOF GUID HTML HTTP HTTPS ID IP JSON LHS QPS RAM RHS RPC SLA SMTP SQL SSH TCP TLS TTL UDP UI UID UUID URI URL UTF8 VM XML XMPP XSRF XSS") {
		lintWords[w] = true
	}
}

// lintTarget tells whether the name holds an underscore, a word that does not begin in upper case or an
// initialism that is not in upper case. A word begins at the start and where a lower-case letter ends.
func lintTarget(s string) bool {
	if s == "_" {
		return false
	}
	r := []rune(s)
	w := 0
	for i := range r {
		if r[i] == '_' {
			return true
		}
		if i+1 < len(r) && !(unicode.IsLower(r[i]) && !unicode.IsLower(r[i+1])) {
			continue
		}
		word := string(r[w : i+1])
		if unicode.ToUpper(r[w]) != r[w] {
			return true
		}
		if up := strings.ToUpper(word); lintWords[up] && up != word {
			return true
		}
		w = i + 1
	}
	return false
}

func alnum(c byte) bool { return '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }

// entityWant is the decoded text, if no reference is part of another one.
func entityWant(s string, base int) (string, bool) {
	type ref struct{ text, to string }
	var out strings.Builder
	var refs []ref
	for i := 0; i < len(s); {
		j := i + 2
		if strings.HasPrefix(s[i:], "&#") {
			for j < len(s) && alnum(s[j]) {
				j++
			}
		}
		if j == i+2 {
			out.WriteByte(s[i])
			i++
			continue
		}
		digits := s[i+2 : j]
		for j < len(s) && s[j] == ';' {
			j++
		}
		if v, err := strconv.ParseInt(digits, base, 32); err == nil {
			out.WriteString(string(rune(v)))
			refs = append(refs, ref{text: s[i:j]})
		} else {
			out.WriteString(s[i:j])
		}
		i = j
	}
	for _, a := range refs {
		for _, b := range refs {
			if a.text != b.text && strings.HasPrefix(a.text, b.text) {
				return "", false
			}
		}
		// nor is it the start of one that does not parse
		for k := 0; k < len(s); k++ {
			if strings.HasPrefix(s[k:], a.text) && k+len(a.text) < len(s) {
				if c := s[k+len(a.text)]; c == ';' || !strings.HasSuffix(a.text, ";") && alnum(c) {
					return "", false
				}
			}
		}
	}
	return out.String(), true
}

// pointWant is the decoded text, if each \u is followed by at most four characters or by text that is no number.
func pointWant(s string, base int) (string, bool) {
	parts := strings.Split(s, `\u`)
	if len(parts) == 1 {
		return s, true
	}
	out := parts[0]
	for i, p := range parts[1:] {
		rest := ""
		if len(p) > 4 {
			if i+2 < len(parts) {
				return "", false
			}
			p, rest = p[:4], p[4:]
		}
		v, err := strconv.ParseInt(p, base, 32)
		if err != nil {
			// what is no code point stays, without or with its mark
			return "", false
		}
		out += string(rune(v)) + rest
	}
	return out, true
}
