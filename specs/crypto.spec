package crypto/aes

// Byte sequences are written as strings. sameText(a, b) names the pairs whose equality by contents is used.
logic sameText(a string, b string) bool
axiom same_contents(a string, b string)
trigger { sameText(a, b) }
ensures sameText(a, b) <==> a == b
ensures len(a) == len(b) && (forall i int :: { a[i] } { b[i] } 0 <= i && i < len(a) ==> a[i] == b[i]) ==> sameText(a, b)
trusted "strings with the same bytes are equal"

// block i (16 bytes) of a sequence
logic blk(s string, i int) string
axiom blk_bytes(s string, i int)
trigger { blk(s, i) }
requires 0 <= i && 16*i + 16 <= len(s)
ensures len(blk(s, i)) == 16
ensures forall j int :: { blk(s, i)[j] } 0 <= j && j < 16 ==> blk(s, i)[j] == s[16*i + j]
trusted "definition of a block of a byte sequence"
axiom blk_text(m [int]byte, o int, n int, i int)
trigger { blk(text(m, o, n), i) }
requires 0 <= i && 16*i + 16 <= n
ensures blk(text(m, o, n), i) == text(m, o + 16*i, 16)
trusted "definition of a block of a byte sequence"

// AES on one block; xor of two blocks
logic aesE(k string, b string) string
logic aesD(k string, b string) string
logic xor16(a string, b string) string
axiom aes_inverse(k string, b string)
trigger { aesE(k, b) }
requires len(b) == 16
ensures len(aesE(k, b)) == 16 && aesD(k, aesE(k, b)) == b
trusted "AES: decrypting a block with the key it was encrypted with gives it back"
axiom aes_block(k string, b string)
trigger { aesD(k, b) }
requires len(b) == 16
ensures len(aesD(k, b)) == 16
trusted "AES: blocks have 16 bytes"
axiom xor_inverse(a string, b string)
trigger { xor16(a, b) }
requires len(a) == 16 && len(b) == 16
ensures len(xor16(a, b)) == 16 && xor16(xor16(a, b), b) == a
trusted "exclusive or with the same block twice gives the block back"

def aesKeyOk(k string) bool = len(k) == 16 || len(k) == 24 || len(k) == 32
logic keyOf(b any) string

func NewCipher
params key
results b, err
trusted "standard library: aes.NewCipher accepts keys of 16, 24 and 32 bytes"
ensures err == nil <==> aesKeyOk(str(key))
ensures err == nil ==> b != nil && keyOf(b) == str(key)

package crypto/cipher

// two slices share no byte, or start at the same byte
def apartOrSame(a []byte, b []byte) bool = arr(a) != arr(b) || off(a) == off(b) || off(a) + len(a) <= off(b) || off(b) + len(b) <= off(a)

func Block.BlockSize
params b
trusted "standard library: the block size of AES is 16"
ensures result == 16

func Block.Encrypt
params b, dst, src
trusted "standard library: AES block encryption"
requires len(dst) >= 16 && len(src) >= 16 && apartOrSame(dst, src)
modifies M(byte) at dst
ensures forall q int :: { mem(dst)[q] } mem(dst)[q] == (off(dst) <= q && q < off(dst) + 16 ? aesE(keyOf(b), old(text(mem(src), off(src), 16)))[q - off(dst)] : old(mem(dst))[q])

func Block.Decrypt
params b, dst, src
trusted "standard library: AES block decryption"
requires len(dst) >= 16 && len(src) >= 16 && apartOrSame(dst, src)
modifies M(byte) at dst
ensures forall q int :: { mem(dst)[q] } mem(dst)[q] == (off(dst) <= q && q < off(dst) + 16 ? aesD(keyOf(b), old(text(mem(src), off(src), 16)))[q - off(dst)] : old(mem(dst))[q])

// CBC: the key, the initialization vector, the direction, and the block the next one is combined with
logic modeKey(m any) string
logic modeIv(m any) string
logic modeEnc(m any) bool
ghost var cbcLast [any]string

func NewCBCEncrypter
params b, iv
results m
trusted "standard library: CBC encryption; panics if the vector is not one block"
requires len(iv) == 16
modifies cbcLast
ensures m != nil && modeKey(m) == keyOf(b) && modeIv(m) == str(iv) && modeEnc(m) && cbcLast == old(cbcLast)[m := str(iv)]

func NewCBCDecrypter
params b, iv
results m
trusted "standard library: CBC decryption; panics if the vector is not one block"
requires len(iv) == 16
modifies cbcLast
ensures m != nil && modeKey(m) == keyOf(b) && modeIv(m) == str(iv) && !modeEnc(m) && cbcLast == old(cbcLast)[m := str(iv)]

func BlockMode.CryptBlocks
params m, dst, src
trusted "standard library: CBC on whole blocks; panics on a part of a block, a short destination and a partial overlap"
requires len(src) % 16 == 0 && len(dst) >= len(src) && apartOrSame(dst, src)
modifies M(byte) at dst
modifies cbcLast
ensures forall q int :: { mem(dst)[q] } !(off(dst) <= q && q < off(dst) + len(src)) ==> mem(dst)[q] == old(mem(dst))[q]
ensures modeEnc(m) ==> (forall q int :: { mem(dst)[q] } off(dst) <= q && q < off(dst) + len(src) ==> mem(dst)[q] == aesE(modeKey(m), xor16(old(text(mem(src), off(src) + 16*((q - off(dst))/16), 16)), q - off(dst) < 16 ? old(cbcLast[m]) : text(mem(dst), off(dst) + 16*((q - off(dst))/16) - 16, 16)))[(q - off(dst))%16])
ensures !modeEnc(m) ==> (forall q int :: { mem(dst)[q] } off(dst) <= q && q < off(dst) + len(src) ==> mem(dst)[q] == xor16(aesD(modeKey(m), old(text(mem(src), off(src) + 16*((q - off(dst))/16), 16))), q - off(dst) < 16 ? old(cbcLast[m]) : old(text(mem(src), off(src) + 16*((q - off(dst))/16) - 16, 16)))[(q - off(dst))%16])
ensures cbcLast == old(cbcLast)[m := len(src) == 0 ? old(cbcLast[m]) : modeEnc(m) ? text(mem(dst), off(dst) + len(src) - 16, 16) : old(text(mem(src), off(src) + len(src) - 16, 16))]

// CTR: byte i of the key stream of a key and an initialization vector; how much of it was used
logic ksByte(k string, iv string, i int) byte
logic xorByte(a byte, b byte) byte
axiom xorbyte_inverse(a byte, b byte)
trigger { xorByte(a, b) }
ensures xorByte(xorByte(a, b), b) == a
trusted "exclusive or with the same byte twice gives the byte back"
logic streamKey(s any) string
logic streamIv(s any) string
ghost var ctrPos [any]int

func NewCTR
params b, iv
results s
trusted "standard library: CTR; panics if the vector is not one block"
requires len(iv) == 16
modifies ctrPos
ensures s != nil && streamKey(s) == keyOf(b) && streamIv(s) == str(iv) && ctrPos == old(ctrPos)[s := 0]

func Stream.XORKeyStream
params s, dst, src
trusted "standard library: the next bytes of the key stream; panics on a short destination and a partial overlap"
requires len(dst) >= len(src) && apartOrSame(dst, src)
modifies M(byte) at dst
modifies ctrPos
ensures forall q int :: { mem(dst)[q] } mem(dst)[q] == (off(dst) <= q && q < off(dst) + len(src) ? xorByte(old(mem(src))[off(src) + q - off(dst)], ksByte(streamKey(s), streamIv(s), old(ctrPos[s]) + q - off(dst))) : old(mem(dst))[q])
ensures ctrPos == old(ctrPos)[s := old(ctrPos[s]) + len(src)]

package io

func ReadFull
params r, buf
results n, err
trusted "standard library: reading from the system's source of random bytes (crypto/rand) fills the buffer and does not fail"
modifies M(byte) at buf
ensures n == len(buf) && err == nil
ensures forall q int :: { mem(buf)[q] } !(off(buf) <= q && q < off(buf) + len(buf)) ==> mem(buf)[q] == old(mem(buf))[q]

package encoding/hex

logic hexDec(s string) string
axiom hex_decoded(s string)
trigger { hexDec(s) }
requires hexText(s)
ensures 2*len(hexDec(s)) == len(s)
ensures forall i int :: { hexDec(s)[i] } 0 <= i && i < len(hexDec(s)) ==> int(hexDec(s)[i]) == 16*hexDigit(s[2*i]) + hexDigit(s[2*i+1])
trusted "definition of hexadecimal text"

func EncodedLen
params n
trusted "standard library"
ensures result == 2*n
func DecodedLen
params n
trusted "standard library"
ensures result == n/2

func Encode
params dst, src
results n
trusted "standard library: hexadecimal text of the source"
requires len(dst) >= 2*len(src) && arr(dst) != arr(src)
modifies M(byte) at dst
ensures n == 2*len(src) && hexText(text(mem(dst), off(dst), 2*len(src))) && hexDec(text(mem(dst), off(dst), 2*len(src))) == str(src)
ensures forall q int :: { mem(dst)[q] } off(dst) <= q && q < off(dst) + 2*len(src) ==> isLowerHex(mem(dst)[q])
ensures forall q int :: { mem(dst)[q] } !(off(dst) <= q && q < off(dst) + 2*len(src)) ==> mem(dst)[q] == old(mem(dst))[q]

func Decode
params dst, src
results n, err
trusted "standard library: succeeds exactly for an even number of hexadecimal digits"
requires len(dst) >= len(src)/2 && arr(dst) != arr(src)
modifies M(byte) at dst
ensures err == nil <==> hexText(str(src))
ensures 0 <= n && n <= len(src)/2
ensures err == nil ==> n == len(src)/2 && text(mem(dst), off(dst), n) == hexDec(str(src))
ensures forall q int :: { mem(dst)[q] } !(off(dst) <= q && q < off(dst) + len(src)/2) ==> mem(dst)[q] == old(mem(dst))[q]

package encoding/base64

// the text of n bytes has b64Len(e, n) characters and at most b64DecLen(e, n) bytes come from n characters
logic b64Len(e *Encoding, n int) int
logic b64DecLen(e *Encoding, n int) int
logic b64Ok(e *Encoding, s string) bool
logic b64Dec(e *Encoding, s string) string

func Encoding.EncodedLen
params e, n
trusted "standard library"
ensures result == b64Len(e, n) && (n >= 0 ==> result >= n)
func Encoding.DecodedLen
params e, n
trusted "standard library"
ensures result == b64DecLen(e, n) && (n >= 0 ==> 0 <= result && result <= n)

func Encoding.Encode
params e, dst, src
trusted "standard library: base64 text that decodes to the source"
requires len(dst) >= b64Len(e, len(src)) && arr(dst) != arr(src)
modifies M(byte) at dst
ensures let t := text(mem(dst), off(dst), b64Len(e, len(src))) :: b64Ok(e, t) && b64Dec(e, t) == str(src)
ensures forall q int :: { mem(dst)[q] } !(off(dst) <= q && q < off(dst) + b64Len(e, len(src))) ==> mem(dst)[q] == old(mem(dst))[q]

func Encoding.Decode
params e, dst, src
results n, err
trusted "standard library: fails exactly for text that is not base64"
requires len(dst) >= b64DecLen(e, len(src)) && arr(dst) != arr(src)
modifies M(byte) at dst
ensures err == nil <==> b64Ok(e, str(src))
ensures 0 <= n && n <= b64DecLen(e, len(src))
ensures err == nil ==> text(mem(dst), off(dst), n) == b64Dec(e, str(src))
ensures forall q int :: { mem(dst)[q] } !(off(dst) <= q && q < off(dst) + b64DecLen(e, len(src))) ==> mem(dst)[q] == old(mem(dst))[q]

package crypto/md5
logic md5Of(s string) string
axiom md5_len(s string)
trigger { md5Of(s) }
ensures len(md5Of(s)) == 16
trusted "an MD5 digest has 16 bytes"
func Sum
params data
results r
trusted "standard library: the MD5 digest"
ensures forall i int :: { r[i] } { md5Of(str(data))[i] } 0 <= i && i < 16 ==> r[i] == md5Of(str(data))[i]
ensures text(r, 0, 16) == md5Of(str(data))

package crypto/sha1
logic sha1Of(s string) string
axiom sha1_len(s string)
trigger { sha1Of(s) }
ensures len(sha1Of(s)) == 20
trusted "a SHA-1 digest has 20 bytes"
func Sum
params data
results r
trusted "standard library: the SHA-1 digest"
ensures forall i int :: { r[i] } { sha1Of(str(data))[i] } 0 <= i && i < 20 ==> r[i] == sha1Of(str(data))[i]

package crypto/sha256
logic sha256Of(s string) string
axiom sha256_len(s string)
trigger { sha256Of(s) }
ensures len(sha256Of(s)) == 32
trusted "a SHA-256 digest has 32 bytes"
func Sum256
params data
results r
trusted "standard library: the SHA-256 digest"
ensures forall i int :: { r[i] } { sha256Of(str(data))[i] } 0 <= i && i < 32 ==> r[i] == sha256Of(str(data))[i]

package crypto/sha512
logic sha512Of(s string) string
axiom sha512_len(s string)
trigger { sha512Of(s) }
ensures len(sha512Of(s)) == 64
trusted "a SHA-512 digest has 64 bytes"
func Sum512
params data
results r
trusted "standard library: the SHA-512 digest"
ensures forall i int :: { r[i] } { sha512Of(str(data))[i] } 0 <= i && i < 64 ==> r[i] == sha512Of(str(data))[i]

package hash/fnv
// the bytes a hash was fed since it was made or reset
logic fnv1a64(s string) uint64
logic fnv1a32(s string) uint32
logic fed(a string, b string) string
axiom fed_all(a string, b string)
trigger { fed(a, b) }
ensures len(a) == 0 ==> fed(a, b) == b
ensures len(fed(a, b)) == len(a) + len(b)
trusted "definition of concatenation"
logic hashKind(h any) int
ghost var hashFed [any]string

func New64a
results h
trusted "standard library: an empty 64-bit FNV-1a hash"
modifies hashFed
ensures h != nil && hashKind(h) == 64 && hashFed == old(hashFed)[h := ""]
func New32a
results h
trusted "standard library: an empty 32-bit FNV-1a hash"
modifies hashFed
ensures h != nil && hashKind(h) == 32 && hashFed == old(hashFed)[h := ""]

package hash
func Hash64.Reset
params h
trusted "standard library"
modifies hashFed
ensures hashFed == old(hashFed)[h := ""]
func Hash32.Reset
params h
trusted "standard library"
modifies hashFed
ensures hashFed == old(hashFed)[h := ""]
func Hash64.Write
params h, p
results n, err
trusted "standard library: a hash takes all bytes and never fails"
modifies hashFed
ensures hashFed == old(hashFed)[h := fed(old(hashFed[h]), str(p))] && n == len(p) && err == nil
func Hash32.Write
params h, p
results n, err
trusted "standard library: a hash takes all bytes and never fails"
modifies hashFed
ensures hashFed == old(hashFed)[h := fed(old(hashFed[h]), str(p))] && n == len(p) && err == nil
func Hash64.Sum64
params h
trusted "standard library: the hash of the bytes fed"
ensures hashKind(h) == 64 ==> result == fnv1a64(hashFed[h])
func Hash32.Sum32
params h
trusted "standard library: the hash of the bytes fed"
ensures hashKind(h) == 32 ==> result == fnv1a32(hashFed[h])
