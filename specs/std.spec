package math/bits

func Mul64
params x, y
results hi, lo
trusted "standard library: 128-bit product"
ensures hi * 18446744073709551616 + lo == x * y

package sync

// contents of a pool: how often each value was put in and not handed out or dropped since
ghost field Pool.bag [any]int

func Pool.Get
params p
results r
trusted "standard library: sync.Pool hands out a value put in and not handed out since, or a new one"
modifies Pool.bag at p
ensures (forall v any :: { p.bag[v] } p.bag[v] <= old(p.bag)[v])
ensures (old(p.bag)[r] > 0 && p.bag[r] <= old(p.bag)[r] - 1) || (p.New != nil ? r == p.New() : r == nil)

func Pool.Put
params p, x
trusted "standard library: sync.Pool"
modifies Pool.bag at p
ensures forall v any :: { p.bag[v] } p.bag[v] == old(p.bag)[v] + (v == x && x != nil ? 1 : 0)

package encoding/hex

// value of a hexadecimal digit (0 for other bytes); the text of whole bytes in hexadecimal digits
def hexDigit(c byte) int = 48 <= int(c) && int(c) <= 57 ? int(c) - 48 : 97 <= int(c) && int(c) <= 102 ? int(c) - 87 : 65 <= int(c) && int(c) <= 70 ? int(c) - 55 : 0
def isHex(c byte) bool = (48 <= int(c) && int(c) <= 57) || (97 <= int(c) && int(c) <= 102) || (65 <= int(c) && int(c) <= 70)
def isLowerHex(c byte) bool = (48 <= int(c) && int(c) <= 57) || (97 <= int(c) && int(c) <= 102)
def hexText(s string) bool = len(s) % 2 == 0 && (forall i int :: { s[i] } 0 <= i < len(s) ==> isHex(s[i]))

logic hexTextOf(s string) string
axiom hexTextOf_len(s string)
trigger { hexTextOf(s) }
ensures len(hexTextOf(s)) == 2*len(s)
trusted "definition of hexadecimal digits"

rec hexPair(s string, i int) int = 16*hexDigit(s[2*i]) + hexDigit(s[2*i+1])

func DecodeString
params s
results b, err
trusted "standard library: hex.DecodeString"
ensures err == nil <==> hexText(s)
ensures err == nil ==> fresh(b) && 2*len(b) == len(s) && (forall i int :: { b[i] } 0 <= i < len(b) ==> int(b[i]) == hexPair(s, i))

func EncodeToString
params src
results s
trusted "standard library: hex.EncodeToString"
ensures s == hexTextOf(str(src))
ensures len(s) == 2*len(src)
ensures forall i int :: { src[i] } 0 <= i < len(src) ==> isLowerHex(s[2*i]) && isLowerHex(s[2*i+1]) && 16*hexDigit(s[2*i]) + hexDigit(s[2*i+1]) == int(src[i])

package errors

func New
params text
trusted "standard library: errors.New returns a new error"
ensures result != nil

package math/bits

func OnesCount8
params x
trusted "standard library: number of one bits"
ensures result == (bit(x,0)?1:0) + (bit(x,1)?1:0) + (bit(x,2)?1:0) + (bit(x,3)?1:0) + (bit(x,4)?1:0) + (bit(x,5)?1:0) + (bit(x,6)?1:0) + (bit(x,7)?1:0)

func TrailingZeros64
params x
trusted "standard library: number of trailing zero bits; a value below 2^24 that is not zero has fewer than 24 (the instance used)"
ensures 0 <= result && result <= 64
ensures x == 0 ==> result == 64
ensures 0 < x && x < 16777216 ==> result < 24

package fmt

logic sprintOf(v any) string

func Sprint
params a
trusted "fmt.Sprint: a text that depends on the value alone"
ensures len(a) == 1 ==> result == sprintOf(seq(a)[0])

func Errorf
params format, a
trusted "fmt.Errorf returns an error"
ensures result != nil

// digit p of the eight binary digits of x (most significant first), 1 where bit 7-p is set; the meaning is that of fmt
def binDigit(x byte, p int) byte = bit(x, 7-p) ? byte(49) : byte(48)

func Sprintf
params format, args
results s
trusted "fmt.Sprintf with the format %s%08b and a string and a byte: the string followed by the eight binary digits"
ensures format == "%s%08b" && len(args) == 2 && istype(ty(string), args[0]) && istype(ty(byte), args[1]) ==> (let p := unbox(ty(string), args[0]) :: len(s) == len(p) + 8 && (forall i int :: { s[i] } 0 <= i && i < len(s) ==> s[i] == (i < len(p) ? p[i] : binDigit(unbox(ty(byte), args[1]), i - len(p)))))

package bytes

ghost field Buffer.text [int]byte
ghost field Buffer.size int

func NewBuffer
params buf
trusted "standard library: a bytes.Buffer holding the given bytes"
modifies Buffer.text at fresh
modifies Buffer.size at fresh
ensures fresh(result) && result.size == len(buf) && (forall i int :: { result.text[i] } 0 <= i && i < len(buf) ==> result.text[i] == seq(buf)[i])

func Repeat
params b, count
trusted "standard library: bytes.Repeat (one byte)"
requires count >= 0
requires len(b) == 1
ensures fresh(result) && len(result) == count && (forall i int :: { mem(result)[i] } off(result) <= i && i < off(result) + count ==> mem(result)[i] == old(seq(b)[0]))

func Buffer.WriteByte
params b, c
trusted "standard library: bytes.Buffer appends the byte"
modifies Buffer.text at b
modifies Buffer.size at b
ensures b.size == old(b.size) + 1 && b.text == old(b.text)[old(b.size) := c] && result == nil

func Buffer.Write
params b, p
results n, err
trusted "standard library: bytes.Buffer appends the bytes"
modifies Buffer.text at b
modifies Buffer.size at b
ensures b.size == old(b.size) + len(p) && n == len(p) && err == nil
ensures forall i int :: { b.text[i] } 0 <= i && i < b.size ==> b.text[i] == (i < old(b.size) ? old(b.text)[i] : seq(p)[i - old(b.size)])

func Buffer.WriteString
params b, s
results n, err
trusted "standard library: bytes.Buffer appends the string"
modifies Buffer.text at b
modifies Buffer.size at b
ensures b.size == old(b.size) + len(s) && n == len(s) && err == nil
ensures forall i int :: { b.text[i] } 0 <= i && i < b.size ==> b.text[i] == (i < old(b.size) ? old(b.text)[i] : s[i - old(b.size)])

func Buffer.Bytes
params b
results r
trusted "standard library: the unread bytes of a bytes.Buffer (nothing is read from it here)"
ensures len(r) == b.size && (forall i int :: { seq(r)[i] } { b.text[i] } 0 <= i && i < len(r) ==> seq(r)[i] == b.text[i])

func TrimPrefix
params s, prefix
results r
trusted "standard library: bytes.TrimPrefix"
ensures let has := len(prefix) <= len(s) && (forall i int :: { seq(prefix)[i] } 0 <= i && i < len(prefix) ==> seq(s)[i] == seq(prefix)[i]) :: len(r) == (has ? len(s) - len(prefix) : len(s)) && (forall i int :: { seq(r)[i] } 0 <= i && i < len(r) ==> seq(r)[i] == seq(s)[has ? i + len(prefix) : i])

package time

// the instant of a Time in nanoseconds; the reading of the clock, which never goes back
logic nano(t Time) int
ghost var clock int

func Now
results t
trusted "standard library: the current time; the clock does not go back and reads a time between 1970 and 2116"
modifies clock
ensures nano(t) == clock && clock >= old(clock) && 0 <= clock && clock < 4611686018427387904

func Time.UnixNano
params t
trusted "standard library: nanoseconds since 1970, for instants in the range of int64"
ensures 0 - 9223372036854775808 <= nano(t) && nano(t) <= 9223372036854775807 ==> result == nano(t)

func Time.Unix
params t
trusted "standard library: seconds since 1970"
ensures 0 <= nano(t) && nano(t) < 4611686018427387904 ==> 0 <= result && result <= 4611686018

func Time.Before
params t, u
results r
trusted "standard library: time.Time.Before compares instants"
ensures r <==> nano(t) < nano(u)

func Time.Add
params t, d
results r
trusted "standard library: time.Time.Add moves an instant by a duration"
ensures nano(r) == nano(t) + int(d)

package container/list

// The sequence of a list: at[1] .. at[size] are its elements in order; pos is the inverse; own is the list an element is in.
ghost field List.at [int]*Element
ghost field List.size int
ghost field List.pos [*Element]int
ghost field Element.own *List

def lok(l *List) bool = l != nil && 0 <= l.size && (forall i int :: { l.at[i] } 1 <= i <= l.size ==> l.at[i] != nil && alloced(l.at[i]) && l.at[i].own == l && l.pos[l.at[i]] == i) && (forall e *Element :: { e.own } e != nil && e.own == l ==> 1 <= l.pos[e] <= l.size && l.at[l.pos[e]] == e)

func New
results l
trusted "standard library: container/list"
ensures fresh(l) && lok(l) && l.size == 0

func List.Len
params l
results n
trusted "standard library: container/list"
requires lok(l)
ensures n == l.size

func List.Back
params l
results e
trusted "standard library: container/list"
requires lok(l)
ensures e == (l.size == 0 ? nil : l.at[l.size])

func List.Front
params l
results e
trusted "standard library: container/list"
requires lok(l)
ensures e == (l.size == 0 ? nil : l.at[1])

func List.PushFront
params l, v
results e
trusted "standard library: container/list"
requires lok(l)
modifies List.at at l, List.size at l, List.pos at l, Element.own at fresh, Element.Value at fresh
ensures fresh(e) && e.Value == v && e.own == l && lok(l) && l.size == old(l.size) + 1
ensures forall i int :: { l.at[i] } 1 <= i <= l.size ==> l.at[i] == (i == 1 ? e : old(l.at)[i-1])
ensures forall x *Element :: { l.pos[x] } x != nil && x != e && x.own == l ==> l.pos[x] == old(l.pos)[x] + 1

func List.PushBack
params l, v
results e
trusted "standard library: container/list"
requires lok(l)
modifies List.at at l, List.size at l, List.pos at l, Element.own at fresh, Element.Value at fresh
ensures fresh(e) && e.Value == v && e.own == l && lok(l) && l.size == old(l.size) + 1
ensures forall i int :: { l.at[i] } 1 <= i <= l.size ==> l.at[i] == (i == l.size ? e : old(l.at)[i])
ensures forall x *Element :: { l.pos[x] } x != nil && x != e && x.own == l ==> l.pos[x] == old(l.pos)[x]

func List.Remove
params l, e
results v
trusted "standard library: container/list"
requires lok(l) && e != nil
modifies List.at at l, List.size at l, List.pos at l, Element.own at e
ensures v == e.Value && lok(l)
ensures old(e.own) != l ==> l.size == old(l.size) && l.at == old(l.at) && l.pos == old(l.pos) && e.own == old(e.own)
ensures old(e.own) == l ==> e.own == nil && l.size == old(l.size) - 1 && (forall i int :: { l.at[i] } 1 <= i <= l.size ==> l.at[i] == (i < old(l.pos[e]) ? old(l.at)[i] : old(l.at)[i+1])) && (forall x *Element :: { l.pos[x] } x != nil && x.own == l ==> l.pos[x] == (old(l.pos)[x] < old(l.pos[e]) ? old(l.pos)[x] : old(l.pos)[x] - 1))

func List.MoveToFront
params l, e
trusted "standard library: container/list"
requires lok(l) && e != nil
modifies List.at at l, List.pos at l
ensures lok(l)
ensures e.own != l ==> l.at == old(l.at) && l.pos == old(l.pos)
ensures e.own == l ==> (forall i int :: { l.at[i] } 1 <= i <= l.size ==> l.at[i] == (i == 1 ? e : i <= old(l.pos[e]) ? old(l.at)[i-1] : old(l.at)[i])) && (forall x *Element :: { l.pos[x] } x != nil && x.own == l ==> l.pos[x] == (x == e ? 1 : old(l.pos)[x] < old(l.pos[e]) ? old(l.pos)[x] + 1 : old(l.pos)[x]))

func List.MoveToBack
params l, e
trusted "standard library: container/list"
requires lok(l) && e != nil
modifies List.at at l, List.pos at l
ensures lok(l)
ensures e.own != l ==> l.at == old(l.at) && l.pos == old(l.pos)
ensures e.own == l ==> (forall i int :: { l.at[i] } 1 <= i <= l.size ==> l.at[i] == (i == l.size ? e : i < old(l.pos[e]) ? old(l.at)[i] : old(l.at)[i+1])) && (forall x *Element :: { l.pos[x] } x != nil && x.own == l ==> l.pos[x] == (x == e ? l.size : old(l.pos)[x] < old(l.pos[e]) ? old(l.pos)[x] : old(l.pos)[x] - 1))

package errors

func Join
params errs
results r
trusted "standard library: errors.Join is nil exactly when every error is"
ensures r == nil <==> (forall i int :: { seq(errs)[i] } 0 <= i < len(errs) ==> seq(errs)[i] == nil)

package math
func Max
params x, y
results r
ensures r == (x < y ? y : x)

package strings

// the lower-case and upper-case form of a text; of ASCII text byte by byte
logic lowerText(s string) string
logic upperText(s string) string
def asciiText(s string) bool = forall i int :: { s[i] } 0 <= i && i < len(s) ==> int(s[i]) < 128
def isUpperByte(c byte) bool = 65 <= int(c) && int(c) <= 90
def isLowerByte(c byte) bool = 97 <= int(c) && int(c) <= 122
axiom lower_ascii(s string)
trigger { lowerText(s) }
requires asciiText(s)
ensures len(lowerText(s)) == len(s)
ensures forall i int :: { lowerText(s)[i] } { s[i] } 0 <= i && i < len(s) ==> int(lowerText(s)[i]) == (isUpperByte(s[i]) ? int(s[i]) + 32 : int(s[i]))
trusted "standard library: strings.ToLower of ASCII text"

// The characters of a text and the text of characters; text that is not valid UTF-8 is not restored.
logic runesOf(s string) [int]int
logic runeLen(s string) int
logic runeText(m [int]int, off int, n int) string
logic validText(s string) bool
axiom runes_back(s string)
trigger { runesOf(s) }
requires validText(s)
ensures runeText(runesOf(s), 0, runeLen(s)) == s
trusted "[]rune and back gives valid UTF-8 text back"
// sameRunes names the pairs whose equality by contents is used
logic sameRunes(a [int]int, ao int, b [int]int, bo int, n int) bool
axiom same_runes(a [int]int, ao int, b [int]int, bo int, n int)
trigger { sameRunes(a, ao, b, bo, n) }
requires forall q int :: { a[q] } ao <= q && q < ao + n ==> a[q] == b[q - ao + bo]
ensures sameRunes(a, ao, b, bo, n) && runeText(a, ao, n) == runeText(b, bo, n)
trusted "the text of characters depends on these characters only"

func ToUpper
params s
trusted "standard library: strings.ToUpper"
ensures result == upperText(s)

func ToLower
params s
trusted "standard library: strings.ToLower"
ensures result == lowerText(s)

logic hasSuffix(s string, suffix string) bool
axiom suffix_end(a string, b string)
trigger { hasSuffix(a + b, b) }
ensures hasSuffix(a + b, b)
trusted "definition of a suffix"

func HasSuffix
params s, suffix
trusted "standard library: strings.HasSuffix"
ensures result <==> hasSuffix(s, suffix)
ensures result <==> len(suffix) <= len(s) && (forall i int :: { suffix[i] } 0 <= i && i < len(suffix) ==> s[len(s) - len(suffix) + i] == suffix[i])

// where the first n characters of s end if every c becomes m characters
rec rpEnd(s string, c byte, m int, n int) int = n <= 0 ? 0 : rpEnd(s, c, m, n-1) + (s[n-1] == c ? m : 1)
lemma rp_mono(s string, c byte, m int, n int)
requires m >= 1 && n >= 0
induction n
use n > 0 ==> rp_mono(s, c, m, n-1)
ensures rpEnd(s, c, m, n) >= 0
ensures forall i int :: { rpEnd(s, c, m, i) } 0 <= i && i <= n ==> 0 <= rpEnd(s, c, m, i) && (i < n ==> rpEnd(s, c, m, i) + (s[i] == c ? m : 1) <= rpEnd(s, c, m, n))

func ReplaceAll
params s, old_, new_
trusted "standard library: strings.ReplaceAll of a text of one byte"
ensures len(old_) == 1 ==> len(result) == rpEnd(s, old_[0], len(new_), len(s)) && (forall i int :: { rpEnd(s, old_[0], len(new_), i) } { s[i] } 0 <= i && i < len(s) && s[i] != old_[0] ==> result[rpEnd(s, old_[0], len(new_), i)] == s[i])
ensures len(old_) == 1 ==> (forall i int, q int :: { rpEnd(s, old_[0], len(new_), i), result[q] } 0 <= i && i < len(s) && s[i] == old_[0] && rpEnd(s, old_[0], len(new_), i) <= q && q < rpEnd(s, old_[0], len(new_), i) + len(new_) ==> result[q] == new_[q - rpEnd(s, old_[0], len(new_), i)])

// how often t occurs in s is not needed, only whether it does
def occursAt(s string, t string, p int) bool = 0 <= p && p + len(t) <= len(s) && (forall j int :: { t[j] } { s[p+j] } 0 <= j && j < len(t) ==> s[p+j] == t[j])

// the same as a symbol of its own
logic occurs(s string, t string, p int) bool
axiom occurs_at(s string, t string, p int)
trigger { occurs(s, t, p) }
ensures occurs(s, t, p) <==> occursAt(s, t, p)
trusted "definition of occurrence"

// the table of a replacer: old texts at the even places, new ones at the odd places
logic replLen(r *Replacer) int
logic replArg(r *Replacer, i int) string
// the text with the old texts of the table replaced
logic replText(r *Replacer, s string) string
def replHas(r *Replacer, s string) bool = exists k int, p int :: { occurs(s, replArg(r, k), p) } 0 <= k && k < replLen(r) && k%2 == 0 && occurs(s, replArg(r, k), p)
axiom repl_nothing(r *Replacer, s string)
trigger { replText(r, s) }
requires !replHas(r, s)
ensures replText(r, s) == s
trusted "standard library: strings.Replacer leaves text without any of its old texts as it is"

axiom repl_shorter(r *Replacer, s string)
trigger { replText(r, s) }
requires forall k int :: { replArg(r, k) } 0 <= k && k < replLen(r) && k%2 == 0 ==> len(replArg(r, k)) > len(replArg(r, k+1))
ensures len(replText(r, s)) <= len(s) && (replHas(r, s) ==> len(replText(r, s)) < len(s))
trusted "standard library: strings.Replacer replaces at least one of the old texts that occur, and each replacement makes the text shorter if every new text is shorter than its old one"

func NewReplacer
params oldnew
option initial
requires len(oldnew) % 2 == 0
trusted "standard library: strings.NewReplacer takes pairs of texts"
ensures result != nil && replLen(result) == len(oldnew)
ensures forall i int :: { replArg(result, i) } 0 <= i && i < len(oldnew) ==> replArg(result, i) == seq(oldnew)[i]

func Replacer.Replace
params r, s
requires r != nil
trusted "standard library: strings.Replacer"
ensures result == replText(r, s)

// the pieces between the separators, and pieces put together
logic splitLen(s string, sep string) int
logic splitPiece(s string, sep string, i int) string
rec joinUpTo(m [int]string, o int, n int) string = n <= 0 ? "" : n <= 1 ? m[o] : joinUpTo(m, o, n-1) + m[o+n-1]

func Split
params s, sep
trusted "standard library: strings.Split with a separator"
ensures len(sep) > 0 ==> fresh(result) && len(result) == splitLen(s, sep) && len(result) >= 1 && (forall i int :: { seq(result)[i] } 0 <= i && i < len(result) ==> seq(result)[i] == splitPiece(s, sep, i))
ensures len(sep) > 0 && (forall p int :: { occursAt(s, sep, p) } !occursAt(s, sep, p)) ==> splitLen(s, sep) == 1 && splitPiece(s, sep, 0) == s

func Join
params elems, sep
trusted "standard library: strings.Join without a separator"
ensures len(sep) == 0 ==> result == joinUpTo(mem(elems), off(elems), len(elems))

package regexp

logic rePattern(re *Regexp) string
logic reCount(re *Regexp, s string) int
logic reGroups(re *Regexp) int
// the text of group g of match i
logic reText(re *Regexp, s string, i int, g int) string

func MustCompile
params str_
option initial
trusted "standard library: regexp.MustCompile of a valid expression"
ensures result != nil && rePattern(result) == str_

func Regexp.FindAllStringSubmatch
params re, s, n
requires re != nil
trusted "standard library: regexp matching"
ensures reCount(re, s) >= 0 && reGroups(re) >= 0 && (n < 0 ==> len(result) == reCount(re, s))
ensures fresh(result) && (forall i int :: { seq(result)[i] } 0 <= i && i < len(result) ==> fresh(seq(result)[i]) && alloced(seq(result)[i]) && len(seq(result)[i]) == 1 + reGroups(re))
ensures forall i int, g int :: { seq(seq(result)[i])[g] } 0 <= i && i < len(result) && 0 <= g && g <= reGroups(re) ==> seq(seq(result)[i])[g] == reText(re, s, i, g)

package strconv

// the text of one character, string(rune(v))
logic runestr(v int) string

logic parseOk(s string, base int, bits int) bool
logic parseVal(s string, base int) int

func ParseInt
params s, base, bitSize
results v, err
trusted "standard library: strconv.ParseInt"
ensures (err == nil <==> parseOk(s, base, bitSize)) && (err == nil ==> v == parseVal(s, base))
ensures bitSize == 32 ==> -2147483648 <= v && v <= 2147483647

package unicode/utf8

// The rune at a place of a text depends on the text from there on.
logic restAt(t string, s string, p int) bool
axiom rest_at(t string, s string, p int)
trigger { restAt(t, s, p) }
ensures restAt(t, s, p) <==> 0 <= p && p <= len(s) && len(t) == len(s) - p && (forall i int :: { t[i] } 0 <= i && i < len(t) ==> t[i] == s[p+i])
ensures restAt(t, s, p) && len(t) > 0 ==> runeAt(t, 0) == runeAt(s, p) && runeW(t, 0) == runeW(s, p)
ensures restAt(t, s, p) && runeW(s, p) > 1 ==> (forall q int :: { s[q] } p <= q && q < p + runeW(s, p) ==> int(s[q]) >= 128)
trusted "UTF-8: decoding at a place looks only at the bytes from there on; a character of several bytes has none below 0x80"

func DecodeRune
params p
results r, size
trusted "standard library: utf8.DecodeRune decodes like a range loop over the text"
ensures len(p) == 0 ==> r == 65533 && size == 0
ensures len(p) > 0 ==> r == runeAt(str(p), 0) && size == runeW(str(p), 0) && 1 <= size && size <= 4 && size <= len(p)
ensures size > 1 ==> 128 <= r && r <= 1114111
ensures size == 1 ==> (int(seq(p)[0]) < 128 ? r == int(seq(p)[0]) : r == 65533)

package unicode

logic upperRune(r int) int
logic lowerRune(r int) bool
logic digitRune(r int) bool

func ToUpper
params r
trusted "standard library: unicode.ToUpper"
ensures result == upperRune(r)

func IsLower
params r
trusted "standard library: unicode.IsLower"
ensures result <==> lowerRune(r)

func IsDigit
params r
trusted "standard library: unicode.IsDigit"
ensures result <==> digitRune(r)
