package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"hash/fnv"

	"github.com/miniLCT/gosb/library/cryptox"
)

type cryptoMode struct {
	name string
	enc  func(key, plain []byte, b64 ...bool) []byte
	dec  func(key, text []byte, b64 ...bool) ([]byte, error)
	// plain gives the plaintext of raw ciphertext (nil and false for malformed input)
	plain func(key, raw []byte) ([]byte, bool)
	// make gives raw ciphertext that decrypts to the given (padded) bytes
	make func(key, padded []byte) []byte
}

func cryptoUnpad(p []byte) ([]byte, bool) {
	if len(p) == 0 {
		return nil, false
	}
	n := int(p[len(p)-1])
	if n < 1 || n > 16 || n > len(p) {
		return nil, false
	}
	for _, c := range p[len(p)-n:] {
		if int(c) != n {
			return nil, false
		}
	}
	return p[:len(p)-n], true
}

var cryptoModes = []cryptoMode{
	{"AES (ECB)", cryptox.AESEncrypt, cryptox.AESDecrypt, func(key, raw []byte) ([]byte, bool) {
		if len(raw)%16 != 0 {
			return nil, false
		}
		b, _ := aes.NewCipher(key)
		p := make([]byte, len(raw))
		for i := 0; i < len(raw); i += 16 {
			b.Decrypt(p[i:i+16], raw[i:i+16])
		}
		return cryptoUnpad(p)
	}, func(key, padded []byte) []byte {
		b, _ := aes.NewCipher(key)
		p := make([]byte, len(padded))
		for i := 0; i < len(p); i += 16 {
			b.Encrypt(p[i:i+16], padded[i:i+16])
		}
		return p
	}},
	{"AESCBC", cryptox.AESCBCEncrypt, cryptox.AESCBCDecrypt, func(key, raw []byte) ([]byte, bool) {
		if len(raw) < 16 || len(raw)%16 != 0 {
			return nil, false
		}
		b, _ := aes.NewCipher(key)
		p := make([]byte, len(raw)-16)
		cipher.NewCBCDecrypter(b, raw[:16]).CryptBlocks(p, raw[16:])
		return cryptoUnpad(p)
	}, func(key, padded []byte) []byte {
		b, _ := aes.NewCipher(key)
		r := make([]byte, 16+len(padded))
		copy(r, "0123456789abcdef")
		cipher.NewCBCEncrypter(b, r[:16]).CryptBlocks(r[16:], padded)
		return r
	}},
	{"AESCTR", cryptox.AESCTREncrypt, cryptox.AESCTRDecrypt, func(key, raw []byte) ([]byte, bool) {
		if len(raw) < 16 {
			return nil, false
		}
		b, _ := aes.NewCipher(key)
		p := make([]byte, len(raw)-16)
		cipher.NewCTR(b, raw[:16]).XORKeyStream(p, raw[16:])
		return p, true
	}, func(key, padded []byte) []byte {
		b, _ := aes.NewCipher(key)
		r := make([]byte, 16+len(padded))
		copy(r, "0123456789abcdef")
		cipher.NewCTR(b, r[:16]).XORKeyStream(r[16:], padded)
		return r
	}},
}

var cryptoFlags = [][]bool{nil, {false}, {true}, {true, false}, {false, true}}

// cryptoSlice is a copy of b in the middle of a larger array, with spare capacity; ok tells whether that array is still as it was.
func cryptoSlice(b []byte, spare int) (s []byte, ok func() bool) {
	arr := make([]byte, 5+len(b)+spare)
	for i := range arr {
		arr[i] = byte(0xa0 + i%7)
	}
	copy(arr[5:], b)
	keep := append([]byte(nil), arr...)
	return arr[5 : 5+len(b)], func() bool { return bytes.Equal(arr, keep) }
}

func cryptoText(raw []byte, b64 bool) []byte {
	if b64 {
		return []byte(base64.RawURLEncoding.EncodeToString(raw))
	}
	return []byte(hex.EncodeToString(raw))
}

func cryptoRaw(text []byte, b64 bool) ([]byte, bool) {
	if b64 {
		r, err := base64.RawURLEncoding.DecodeString(string(text))
		return r, err == nil
	}
	r, err := hex.DecodeString(string(text))
	return r, err == nil
}

// cryptoSizes are the lengths around the powers of two and the multiples of common chunk sizes.
func cryptoSizes() []int {
	var out []int
	for _, n := range []int{256, 512, 1024, 2048, 4096, 8192, 12288, 16384, 32768, 65536} {
		for _, d := range []int{-17, -16, -15, -1, 0, 1, 15, 16, 17} {
			out = append(out, n+d)
		}
	}
	return append(out, 1000, 10000, 100000)
}

func cryptoHex(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%x... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func init() {
	rnd := func(t *T, n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(t.R.Intn(256))
		}
		return b
	}
	is64 := func(f []bool) bool { return len(f) > 0 && f[0] }
	reg("C26", "plaintexts of every length around the block boundaries and around the powers of two up to 65536, keys of the three lengths, the three modes and both encodings, in slices with spare capacity; the caller's memory is compared before and after", func(t *T) {
		one := func(m cryptoMode, key, plain []byte, f []bool, spare int) {
			t.Case(func() string {
				return fmt.Sprintf("%s with the key %x, the plaintext %s and base64 %v", m.name, key, cryptoHex(plain), f)
			}, func() {
				k, kok := cryptoSlice(key, spare)
				p, pok := cryptoSlice(plain, spare)
				text := m.enc(k, p, f...)
				t.Check(kok() && pok(), "encryption changed the memory of its arguments (length %d, spare capacity %d)", len(plain), spare)
				raw, ok := cryptoRaw(text, is64(f))
				t.Check(ok, "the result %q is not encoded as asked for", text)
				want, ok := m.plain(key, raw)
				t.Check(ok && bytes.Equal(want, plain), "the ciphertext %s stands for %s", cryptoHex(raw), cryptoHex(want))
				c, cok := cryptoSlice(text, spare)
				got, err := m.dec(k, c, f...)
				t.Check(kok() && cok(), "decryption changed the memory of its arguments")
				t.Check(err == nil, "decryption of the result fails: %v", err)
				t.Check(bytes.Equal(got, plain), "decryption gives %s", cryptoHex(got))
				again := m.enc(k, p, f...)
				t.Check(pok() && len(again) == len(text), "the second encryption has length %d, the first %d", len(again), len(text))
				got2, err := m.dec(k, again, f...)
				t.Check(err == nil && bytes.Equal(got2, plain), "decryption of the second ciphertext gives %s, %v", cryptoHex(got2), err)
				t.Check(bytes.Equal(got, plain), "the first decryption changed afterwards to %s", cryptoHex(got))
			})
		}
		for n := 0; n <= 70; n++ {
			for _, m := range cryptoModes {
				for _, f := range cryptoFlags {
					for _, kl := range []int{16, 24, 32} {
						one(m, rnd(t, kl), rnd(t, n), f, (n*7)%40)
					}
				}
			}
			if !t.Frac2() {
				break
			}
		}
		for i, n := range cryptoSizes() {
			for j, m := range cryptoModes {
				one(m, rnd(t, 16+8*((i+j)%3)), rnd(t, n), cryptoFlags[(i+j)%len(cryptoFlags)], i%40)
			}
		}
		for t.Time() {
			m := cryptoModes[t.R.Intn(3)]
			p := rnd(t, t.R.Intn(200))
			if t.R.Intn(3) == 0 { // texts that end like padding
				c := byte(t.R.Intn(20))
				for i := len(p) - 1; i >= 0 && i >= len(p)-t.R.Intn(20); i-- {
					p[i] = c
				}
			}
			one(m, rnd(t, 16+8*t.R.Intn(3)), p, cryptoFlags[t.R.Intn(len(cryptoFlags))], t.R.Intn(40))
		}
	})
	reg("C27", "ciphertexts of every kind: random bytes, valid texts cut, extended and altered, texts that decrypt to every kind of wrong padding, wrong encodings, keys of wrong length", func(t *T) {
		one := func(m cryptoMode, key, text []byte, f []bool) {
			t.Case(func() string {
				return fmt.Sprintf("%s decryption with the key %x of %q, base64 %v", m.name, key, text, f)
			}, func() {
				c, cok := cryptoSlice(text, 20)
				got, err := m.dec(key, c, f...)
				t.Check(cok(), "decryption changed the memory of its argument")
				var want []byte
				raw, ok := cryptoRaw(text, is64(f))
				ok = ok && (len(key) == 16 || len(key) == 24 || len(key) == 32)
				if ok {
					want, ok = m.plain(key, raw)
				}
				if !ok {
					t.Check(err != nil, "accepted, with the plaintext %x", got)
					return
				}
				t.Check(err == nil, "rejected: %v", err)
				t.Check(bytes.Equal(got, want), "plaintext %x, want %x", got, want)
			})
		}
		key := []byte("0123456789abcdef")
		for _, m := range cryptoModes {
			for _, f := range cryptoFlags[1:3] {
				for _, s := range []string{"", "a", "ab", "zz", "0g", "00", "0", "é", "====", "AA==", "AA", "AAA=", "-_", "+/", " ab", "ab\n", "\n"} {
					one(m, key, []byte(s), f)
				}
				for n := 0; n <= 66; n++ {
					one(m, key, cryptoText(rnd(t, n), is64(f)), f)
					one(m, key, cryptoText(rnd(t, n), !is64(f)), f)
				}
				for kl := 0; kl <= 40; kl++ {
					one(m, rnd(t, kl), m.enc(key, []byte("text"), f...), f)
				}
				for blocks := 0; blocks <= 3; blocks++ {
					for last := 0; last < 256; last++ {
						for _, run := range []int{1, last, last - 1, last + 1, 16, 17, 16 * blocks} {
							p := rnd(t, 16*blocks)
							for i := 0; i < run && i < len(p); i++ {
								p[len(p)-1-i] = byte(last)
							}
							one(m, key, cryptoText(m.make(key, p), is64(f)), f)
						}
					}
				}
				// one wrong byte at every place of the padding
				for n := 1; n <= 16; n++ {
					for at := 0; at < n; at++ {
						p := rnd(t, 32)
						for i := 0; i < n; i++ {
							p[31-i] = byte(n)
						}
						p[31-at] ^= byte(1 + t.R.Intn(255))
						one(m, key, cryptoText(m.make(key, p), is64(f)), f)
					}
				}
			}
		}
		for t.Time() {
			m := cryptoModes[t.R.Intn(3)]
			f := cryptoFlags[t.R.Intn(len(cryptoFlags))]
			text := m.enc(key, rnd(t, t.R.Intn(64)), f...)
			switch t.R.Intn(5) {
			case 0:
				text = text[:t.R.Intn(len(text)+1)]
			case 1:
				text = append(text, text[t.R.Intn(len(text)):]...)
			case 2:
				text[t.R.Intn(len(text))] = byte(t.R.Intn(256))
			case 3:
				i := t.R.Intn(len(text))
				text = append(text[:i:i], append([]byte("0aZ=-\n"[t.R.Intn(6):][:1]), text[i:]...)...)
			case 4:
				p := rnd(t, 16*t.R.Intn(4))
				if len(p) > 0 {
					p[len(p)-1] = byte(t.R.Intn(3))
				}
				text = cryptoText(m.make(key, p), is64(f))
			}
			one(m, key, text, f)
		}
	})
	reg("C28", "byte strings of every length up to 300 (the block sizes of the digests lie below), of lengths around the powers of two up to 65536 and random longer ones", func(t *T) {
		one := func(b []byte) {
			t.Case(func() string { return fmt.Sprintf("digests of %s", cryptoHex(b)) }, func() {
				s, ok := cryptoSlice(b, 9)
				t.Check(cryptox.Md5(s) == fmt.Sprintf("%x", md5.Sum(b)), "Md5 is %s", cryptox.Md5(s))
				t.Check(cryptox.Sha1(s) == fmt.Sprintf("%x", sha1.Sum(b)), "Sha1 is %s", cryptox.Sha1(s))
				t.Check(cryptox.Sha256(s) == fmt.Sprintf("%x", sha256.Sum256(b)), "Sha256 is %s", cryptox.Sha256(s))
				t.Check(cryptox.Sha512(s) == fmt.Sprintf("%x", sha512.Sum512(b)), "Sha512 is %s", cryptox.Sha512(s))
				h := fnv.New64a()
				h.Write(b)
				t.Check(cryptox.Fnv1aToUint64(s) == h.Sum64(), "Fnv1aToUint64 is %d", cryptox.Fnv1aToUint64(s))
				g := fnv.New32a()
				g.Write(b)
				t.Check(cryptox.Fnv1aToUint32(s) == g.Sum32(), "Fnv1aToUint32 is %d", cryptox.Fnv1aToUint32(s))
				t.Check(ok(), "a digest changed the memory of its argument")
			})
		}
		one(nil)
		for n := 0; n <= 300; n++ {
			one(rnd(t, n))
		}
		for c := 0; c < 256; c++ {
			one([]byte{byte(c)})
			one([]byte{0, byte(c), 0})
		}
		for _, n := range cryptoSizes() {
			one(rnd(t, n))
		}
		for t.Time() {
			one(rnd(t, t.R.Intn(3000)))
		}
	})
}
