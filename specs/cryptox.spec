package cryptox

// t is the lower-case hexadecimal text of the bytes d
def hexOf(t string, d string) bool = len(t) == 2*len(d) && (forall i int :: { d[i] } 0 <= i && i < len(d) ==> isLowerHex(t[2*i]) && isLowerHex(t[2*i+1]) && 16*hexDigit(t[2*i]) + hexDigit(t[2*i+1]) == int(d[i]))

func Md5
params b
ensures [C28:md5] hexOf(result, md5Of(str(b)))
func Sha1
params b
ensures [C28:sha1] hexOf(result, sha1Of(str(b)))
func Sha256
params b
ensures [C28:sha256] hexOf(result, sha256Of(str(b)))
func Sha512
params b
ensures [C28:sha512] hexOf(result, sha512Of(str(b)))
func Fnv1aToUint64
params b
modifies hashFed
ensures [C28:fnv64] result == fnv1a64(str(b))
func Fnv1aToUint32
params b
modifies hashFed
ensures [C28:fnv32] result == fnv1a32(str(b))

// the optional argument that selects base64 instead of hexadecimal text
def b64Flag(u []bool) bool = len(u) > 0 && seq(u)[0]
def rawOk(t string, b64 bool) bool = b64 ? b64Ok(base64.RawURLEncoding, t) : hexText(t)
def rawOf(t string, b64 bool) string = b64 ? b64Dec(base64.RawURLEncoding, t) : hexDec(t)

func hexEncode
params src
ensures [C26:hex] fresh(result) && rawOk(str(result), false) && rawOf(str(result), false) == str(src)
func hexDecode
params src
results r, err
ensures [C27:hex] err == nil <==> rawOk(old(str(src)), false)
ensures [C26,C27:hex] fresh(r) && (err == nil ==> str(r) == rawOf(old(str(src)), false))
exit assert 2*(len(src)/2) == len(src) ==> sameText(str(r), text(mem(r), off(r), len(src)/2))
func base64Encode
params src
ensures [C26:base64] fresh(result) && rawOk(str(result), true) && rawOf(str(result), true) == str(src)
func base64Decode
params src
results r, err
ensures [C27:base64] err == nil <==> rawOk(old(str(src)), true)
ensures [C26,C27:base64] fresh(r) && (err == nil ==> str(r) == rawOf(old(str(src)), true))
func encode
params src, useBase64
ensures [C26:encode] fresh(result) && rawOk(str(result), b64Flag(useBase64)) && rawOf(str(result), b64Flag(useBase64)) == str(src)
func decode
params src, useBase64
results r, err
ensures [C27:decode] err == nil <==> rawOk(old(str(src)), b64Flag(useBase64))
ensures [C26,C27:decode] fresh(r) && (err == nil ==> str(r) == rawOf(old(str(src)), b64Flag(useBase64)))

// a padded text: whole blocks, the last one filled with one to sixteen bytes that tell how many they are
def padN(n int) int = n + 16 - n%16
logic padBlk(x string, i int) string
axiom pad_block(x string, i int)
trigger { padBlk(x, i) }
requires 0 <= i
ensures len(padBlk(x, i)) == 16
ensures forall j int :: { padBlk(x, i)[j] } 0 <= j && j < 16 ==> (16*i + j < len(x) ? padBlk(x, i)[j] == x[16*i+j] : int(padBlk(x, i)[j]) == 16 - len(x)%16)
trusted "definition of the blocks of a padded text"

func mustNewCipher
params cipherKey
requires aesKeyOk(str(cipherKey))
ensures [C26:cipher] result != nil && keyOf(result) == str(cipherKey)

func pkcs5Padding
params plainText, blockSize
requires blockSize == 16
ensures [C26:padding] fresh(result) && len(result) == padN(len(plainText)) && (forall j int :: { seq(result)[j] } 0 <= j && j < len(result) ==> (j < len(plainText) ? seq(result)[j] == old(seq(plainText))[j] : int(seq(result)[j]) == 16 - len(plainText)%16))
loop 1
invariant fresh(plainText) && int(n) == 16 - old(len(plainText))%16 && int(i) <= int(n) && len(plainText) == old(len(plainText)) + int(i)
invariant forall j int :: { seq(plainText)[j] } 0 <= j && j < len(plainText) ==> (j < old(len(plainText)) ? seq(plainText)[j] == old(seq(plainText))[j] : seq(plainText)[j] == n)
decreases int(n) - int(i)

// valid padding: the last byte says how many bytes (1 to 16) the padding has, and they are all equal to it
def padOk(p string) bool = len(p) > 0 && 1 <= int(p[len(p)-1]) && int(p[len(p)-1]) <= 16 && int(p[len(p)-1]) <= len(p) && (forall j int :: { p[j] } len(p) - int(p[len(p)-1]) <= j && j < len(p) ==> p[j] == p[len(p)-1])

func pkcs5Unpadding
params r
results p, err
ensures [C27:padding] err == nil <==> padOk(old(str(r)))
ensures [C26,C27:unpadded] err == nil ==> arr(p) == arr(r) && off(p) == off(r) && len(p) == len(r) - int(old(str(r))[len(r)-1])
loop 1
invariant isPad
invariant forall q int :: { mem(pad)[q] } off(pad) <= q && q < off(pad) + $it ==> mem(pad)[q] == n

// ECB: every block of the padded text is encrypted by itself
def ecbText(c string, k string, x string) bool = len(c) == padN(len(x)) && (forall i int :: { blk(c, i) } 0 <= i && 16*i < len(c) ==> blk(c, i) == aesE(k, padBlk(x, i)))
logic ecbPlain(k string, c string) string
axiom ecb_plain(k string, c string)
trigger { ecbPlain(k, c) }
ensures len(ecbPlain(k, c)) == len(c)
ensures forall q int :: { ecbPlain(k, c)[q] } 0 <= q && q < len(c) ==> ecbPlain(k, c)[q] == aesD(k, blk(c, q/16))[q%16]
trusted "definition of ECB decryption from block decryption"

func AESEncrypt
params cipherKey, plainText, useBase64
requires aesKeyOk(str(cipherKey))
loop 1
before assert forall i int :: { padBlk(old(str(plainText)), i) } 0 <= i && 16*i < len(plainText) ==> sameText(text(mem(plainText), off(plainText) + 16*i, 16), padBlk(old(str(plainText)), i))
invariant fresh(r) && arr(r) != arr(plainText) && len(r) == padN(old(len(plainText))) && blockSize == 16 && keyOf(block) == str(cipherKey) && str(cipherKey) == old(str(cipherKey)) && block != nil
invariant arr(dst) == arr(r) && off(dst) == off(r) + 16*$it && len(dst) == len(r) - 16*$it
invariant arr(plainText) == arr(pre(plainText)) && mem(plainText) == pre(mem(plainText)) && off(plainText) == pre(off(plainText)) + 16*$it && len(plainText) == len(r) - 16*$it
invariant forall q int :: { mem(r)[q] } off(r) <= q && q < off(r) + 16*$it ==> mem(r)[q] == aesE(str(cipherKey), text(mem(plainText), pre(off(plainText)) + 16*((q - off(r))/16), 16))[(q - off(r))%16]
decreases len(plainText)
after assert forall i int :: { blk(str(r), i) } 0 <= i && 16*i < len(r) ==> sameText(blk(str(r), i), aesE(old(str(cipherKey)), padBlk(old(str(plainText)), i)))
ensures [C26:ecb] fresh(result) && rawOk(str(result), old(b64Flag(useBase64))) && ecbText(rawOf(str(result), old(b64Flag(useBase64))), old(str(cipherKey)), old(str(plainText)))

func AESDecrypt
params cipherKey, ciphertext, useBase64
results p, err
loop 1
invariant fresh(r) && fresh(src) && arr(r) != arr(src) && blockSize == 16 && keyOf(block) == old(str(cipherKey)) && block != nil && len(r) % 16 == 0
invariant arr(dst) == arr(r) && off(dst) == off(r) + 16*$it && len(dst) == len(r) - 16*$it
invariant arr(src) == arr(pre(src)) && mem(src) == pre(mem(src)) && off(src) == pre(off(src)) + 16*$it && len(src) == len(r) - 16*$it
invariant forall q int :: { mem(r)[q] } off(r) <= q && q < off(r) + 16*$it ==> mem(r)[q] == aesD(old(str(cipherKey)), text(mem(src), pre(off(src)) + 16*((q - off(r))/16), 16))[(q - off(r))%16]
decreases len(src)
after assert sameText(str(r), ecbPlain(old(str(cipherKey)), rawOf(old(str(ciphertext)), old(b64Flag(useBase64)))))
ensures [C27:ecb] err == nil <==> old(rawOk(str(ciphertext), b64Flag(useBase64)) && aesKeyOk(str(cipherKey))) && (let c := old(rawOf(str(ciphertext), b64Flag(useBase64))) :: len(c)%16 == 0 && padOk(ecbPlain(old(str(cipherKey)), c)))
ensures [C26,C27:ecb-plain] err == nil ==> (let t := ecbPlain(old(str(cipherKey)), old(rawOf(str(ciphertext), b64Flag(useBase64)))) :: len(p) == len(t) - int(t[len(t)-1]) && (forall i int :: { seq(p)[i] } 0 <= i && i < len(p) ==> seq(p)[i] == t[i]))

// CBC: the text starts with one block of any bytes; every block is encrypted after exclusive or with the block before it
def cbcText(c string, k string, x string) bool = len(c) == 16 + padN(len(x)) && (forall i int :: { blk(c, i) } 1 <= i && 16*i < len(c) ==> blk(c, i) == aesE(k, xor16(padBlk(x, i-1), blk(c, i-1))))
logic cbcPlain(k string, c string) string
axiom cbc_plain(k string, c string)
trigger { cbcPlain(k, c) }
requires len(c) >= 16
ensures len(cbcPlain(k, c)) == len(c) - 16
ensures forall q int :: { cbcPlain(k, c)[q] } 0 <= q && q < len(c) - 16 ==> cbcPlain(k, c)[q] == xor16(aesD(k, blk(c, q/16 + 1)), blk(c, q/16))[q%16]
trusted "definition of CBC decryption from block decryption"

func AESCBCEncrypt
params cipherKey, plainText, useBase64
requires aesKeyOk(str(cipherKey))
modifies cbcLast
call encode assert forall i int :: { padBlk(old(str(plainText)), i) } 0 <= i && 16*i < len(plainText) ==> sameText(text(mem(plainText), off(plainText) + 16*i, 16), padBlk(old(str(plainText)), i))
call encode assert sameText(text(mem(ciphertext), off(ciphertext), 16), modeIv(mode))
call encode assert forall i int :: { blk(str(ciphertext), i) } 1 <= i && 16*i < len(ciphertext) ==> sameText(blk(str(ciphertext), i), aesE(old(str(cipherKey)), xor16(padBlk(old(str(plainText)), i-1), blk(str(ciphertext), i-1))))
ensures [C26:cbc] fresh(result) && rawOk(str(result), old(b64Flag(useBase64))) && cbcText(rawOf(str(result), old(b64Flag(useBase64))), old(str(cipherKey)), old(str(plainText)))

func AESCBCDecrypt
params cipherKey, ciphertext, useBase64
results p, err
modifies cbcLast
call pkcs5Unpadding assert sameText(str(plainText), cbcPlain(old(str(cipherKey)), rawOf(old(str(ciphertext)), old(b64Flag(useBase64)))))
ensures [C27:cbc] err == nil <==> old(rawOk(str(ciphertext), b64Flag(useBase64)) && aesKeyOk(str(cipherKey))) && (let c := old(rawOf(str(ciphertext), b64Flag(useBase64))) :: len(c) >= 16 && len(c)%16 == 0 && padOk(cbcPlain(old(str(cipherKey)), c)))
ensures [C26,C27:cbc-plain] err == nil ==> (let t := cbcPlain(old(str(cipherKey)), old(rawOf(str(ciphertext), b64Flag(useBase64)))) :: len(p) == len(t) - int(t[len(t)-1]) && (forall i int :: { seq(p)[i] } 0 <= i && i < len(p) ==> seq(p)[i] == t[i]))

// CTR: the text starts with one block of any bytes; every byte is combined with the key stream of key and block
def ctrText(c string, k string, x string) bool = len(c) == 16 + len(x) && (forall q int :: { c[q] } 16 <= q && q < len(c) ==> c[q] == xorByte(x[q-16], ksByte(k, blk(c, 0), q-16)))
def ctrPlainAt(k string, c string, i int) byte = xorByte(c[i+16], ksByte(k, blk(c, 0), i))

func AESCTREncrypt
params cipherKey, plainText, useBase64
requires aesKeyOk(str(cipherKey))
modifies ctrPos
call encode assert sameText(blk(str(ciphertext), 0), streamIv(stream))
ensures [C26:ctr] fresh(result) && rawOk(str(result), old(b64Flag(useBase64))) && ctrText(rawOf(str(result), old(b64Flag(useBase64))), old(str(cipherKey)), old(str(plainText)))

func AESCTRDecrypt
params cipherKey, ciphertext, useBase64
results p, err
modifies ctrPos
ensures [C27:ctr] err == nil <==> old(rawOk(str(ciphertext), b64Flag(useBase64)) && aesKeyOk(str(cipherKey)) && len(rawOf(str(ciphertext), b64Flag(useBase64))) >= 16)
ensures [C26,C27:ctr-plain] err == nil ==> (let c := old(rawOf(str(ciphertext), b64Flag(useBase64))) :: len(p) == len(c) - 16 && (forall i int :: { seq(p)[i] } 0 <= i && i < len(p) ==> seq(p)[i] == ctrPlainAt(old(str(cipherKey)), c, i)))

// What decryption accepts and returns (the postconditions above) for a text that encryption returned: the plaintext.
lemma ecb_round_trip(k string, c string, x string)
requires ecbText(c, k, x)
assert forall i int :: { blk(c, i) } 0 <= i && 16*i < len(c) ==> aesD(k, blk(c, i)) == padBlk(x, i)
assert let t := ecbPlain(k, c) :: forall j int :: { t[j] } 0 <= j && j < len(t) ==> t[j] == padBlk(x, j/16)[j%16]
ensures [C26:ecb-accepted] len(c)%16 == 0 && padOk(ecbPlain(k, c))
ensures [C26:ecb-round-trip] let t := ecbPlain(k, c) :: len(t) - int(t[len(t)-1]) == len(x) && (forall i int :: { t[i] } { x[i] } 0 <= i && i < len(x) ==> t[i] == x[i])

lemma cbc_round_trip(k string, c string, x string)
requires cbcText(c, k, x)
assert forall i int :: { blk(c, i) } 1 <= i && 16*i < len(c) ==> xor16(aesD(k, blk(c, i)), blk(c, i-1)) == padBlk(x, i-1)
assert let t := cbcPlain(k, c) :: forall j int :: { t[j] } 0 <= j && j < len(t) ==> t[j] == padBlk(x, j/16)[j%16]
ensures [C26:cbc-accepted] len(c) >= 16 && len(c)%16 == 0 && padOk(cbcPlain(k, c))
ensures [C26:cbc-round-trip] let t := cbcPlain(k, c) :: len(t) - int(t[len(t)-1]) == len(x) && (forall i int :: { t[i] } { x[i] } 0 <= i && i < len(x) ==> t[i] == x[i])

lemma ctr_round_trip(k string, c string, x string)
requires ctrText(c, k, x)
ensures [C26:ctr-round-trip] len(c) >= 16 && len(c) - 16 == len(x) && (forall i int :: { x[i] } 0 <= i && i < len(x) ==> ctrPlainAt(k, c, i) == x[i])
