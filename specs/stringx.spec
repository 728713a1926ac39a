package stringx

// Snake case: an underscore comes before an upper-case letter if some other character but the underscore came since the last one inserted.
rec snArmed(s string, n int) bool = n > 0 && (isUpperByte(s[n-1]) ? false : int(s[n-1]) != 95 ? true : snArmed(s, n-1))
def snMark(s string, i int) bool = isUpperByte(s[i]) && snArmed(s, i)
// the place where the first n characters end
rec snEnd(s string, n int) int = n <= 0 ? 0 : snEnd(s, n-1) + (snMark(s, n-1) ? 2 : 1)
def snText(t string, s string) bool = len(t) == snEnd(s, len(s)) && (forall i int :: { snEnd(s, i) } { s[i] } 0 <= i && i < len(s) ==> t[snEnd(s, i+1) - 1] == s[i] && (snMark(s, i) ==> int(t[snEnd(s, i)]) == 95))

func SnakeString
params s
witness t string = str(data)
loop 1
invariant fresh(data) && len(data) == snEnd(s, $it) && (j <==> snArmed(s, $it)) && len(data) >= 0
invariant forall i int :: { snEnd(s, i) } { s[i] } 0 <= i && i < $it ==> 0 <= snEnd(s, i) && snEnd(s, i) < snEnd(s, i+1) && snEnd(s, i+1) <= len(data) && seq(data)[snEnd(s, i+1) - 1] == s[i] && (snMark(s, i) ==> int(seq(data)[snEnd(s, i)]) == 95)
invariant asciiText(s) ==> (forall q int :: { seq(data)[q] } 0 <= q && q < len(data) ==> int(seq(data)[q]) < 128)
ensures [C33:snake] snText(t, s) && result == lowerText(t)
ensures [C33:snake-ascii] asciiText(s) ==> len(result) == snEnd(s, len(s)) && (forall i int :: { snEnd(s, i) } { s[i] } 0 <= i && i < len(s) ==> int(result[snEnd(s, i+1) - 1]) == (isUpperByte(s[i]) ? int(s[i]) + 32 : int(s[i])) && (snMark(s, i) ==> int(result[snEnd(s, i)]) == 95))

// Camel case: a letter was seen before; an underscore after that is dropped if a lower-case letter follows
rec cmSeen(s string, n int) bool = n > 0 && (isUpperByte(s[n-1]) || isLowerByte(s[n-1]) || cmSeen(s, n-1))
def cmDrop(s string, i int) bool = int(s[i]) == 95 && cmSeen(s, i) && i + 1 < len(s) && isLowerByte(s[i+1])
def cmByte(s string, i int) int = isLowerByte(s[i]) && (!cmSeen(s, i) || i > 0 && cmDrop(s, i-1)) ? int(s[i]) - 32 : int(s[i])
rec cmEnd(s string, n int) int = n <= 0 ? 0 : cmEnd(s, n-1) + (cmDrop(s, n-1) ? 0 : 1)

func CamelString
params s
loop 1
invariant 0 <= $it && $it <= len(s) && num == len(s) - 1 && fresh(data) && len(data) == cmEnd(s, $it) && len(data) >= 0
invariant (k <==> cmSeen(s, $it)) && (j <==> $it > 0 && cmDrop(s, $it-1))
invariant forall q int :: { cmEnd(s, q) } { s[q] } 0 <= q && q < $it ==> 0 <= cmEnd(s, q) && cmEnd(s, q) <= len(data) && (!cmDrop(s, q) ==> cmEnd(s, q) < len(data) && int(seq(data)[cmEnd(s, q)]) == cmByte(s, q))
decreases len(s) - $it
ensures [C33:camel] len(result) == cmEnd(s, len(s)) && (forall q int :: { cmEnd(s, q) } { s[q] } 0 <= q && q < len(s) && !cmDrop(s, q) ==> int(result[cmEnd(s, q)]) == cmByte(s, q))

// the place in the indented text of character i: m for each line begun so far and one for each character before it
def inPos(s string, m int, i int) int = m + rpEnd(s, byte(10), 1 + m, i)
// the places of the prefix of the line that begins at i
def inLine(r string, s string, prefix string, i int) bool = forall q int :: { r[q] } inPos(s, len(prefix), i) - len(prefix) <= q && q < inPos(s, len(prefix), i) ==> r[q] == prefix[q - inPos(s, len(prefix), i) + len(prefix)]

func Indent
params text0, prefix
exit use rp_mono(old(text0), byte(10), 1 + len(prefix), len(old(text0)))
exit use len(old(text0)) > 0 ==> rp_mono(old(text0), byte(10), 1 + len(prefix), len(old(text0)) - 1)
ensures [C34:indent-none] len(prefix) == 0 ==> result == text0
ensures [C34:indent-length] len(prefix) > 0 ==> len(result) == (len(text0) == 0 ? len(prefix) : inPos(text0, len(prefix), len(text0) - 1) + 1)
ensures [C34:indent-chars] forall i int :: { rpEnd(text0, byte(10), 1 + len(prefix), i) } { text0[i] } len(prefix) > 0 && 0 <= i && i < len(text0) ==> result[inPos(text0, len(prefix), i)] == text0[i]
ensures [C34:indent-first] inLine(result, text0, prefix, 0)
ensures [C34:indent-lines] forall i int :: { rpEnd(text0, byte(10), 1 + len(prefix), i) } { text0[i] } 0 < i && i < len(text0) && text0[i-1] == byte(10) ==> inLine(result, text0, prefix, i)

// A numeric reference is &# with at least one letter or digit, and the semicolons behind it.
def isAlnum(c byte) bool = 48 <= int(c) && int(c) <= 57 || isUpperByte(c) || isLowerByte(c)
def refAt(s string, p int) bool = 0 <= p && p + 2 < len(s) && int(s[p]) == 38 && int(s[p+1]) == 35 && isAlnum(s[p+2])
axiom ref_pattern(re *regexp.Regexp, s string)
trigger { reCount(re, s) }
requires rePattern(re) == "&#([0-9a-zA-Z]+);*"
ensures reGroups(re) == 1 && ((forall p int :: { s[p] } !refAt(s, p)) ==> reCount(re, s) == 0)
trusted "meaning of the regular expression &#([0-9a-zA-Z]+);*: where it matches there is a reference, and it has one group"

// references of the first n matches whose number parses
rec refUsed(re *regexp.Regexp, s string, base int, n int) int = n <= 0 ? 0 : refUsed(re, s, base, n-1) + (parseOk(reText(re, s, n-1, 1), base, 32) ? 1 : 0)

func HTMLEntityToUTF8
params str_, base
witness tab *strings.Replacer = r
loop 1
invariant fresh(oldnew) && len(oldnew) == 2 * refUsed(htmlEntityRegexp, str_, base, $it) && 0 <= refUsed(htmlEntityRegexp, str_, base, $it) && refUsed(htmlEntityRegexp, str_, base, $it) <= $it
invariant len(a) == reCount(htmlEntityRegexp, str_) && (forall i int :: { seq(a)[i] } 0 <= i && i < len(a) ==> arr(seq(a)[i]) != arr(oldnew) && len(seq(a)[i]) == 2 && seq(seq(a)[i])[0] == reText(htmlEntityRegexp, str_, i, 0) && seq(seq(a)[i])[1] == reText(htmlEntityRegexp, str_, i, 1))
invariant forall i int :: { refUsed(htmlEntityRegexp, str_, base, i) } 0 <= i && i < $it && parseOk(reText(htmlEntityRegexp, str_, i, 1), base, 32) ==> 0 <= refUsed(htmlEntityRegexp, str_, base, i) && 2 * refUsed(htmlEntityRegexp, str_, base, i) + 1 < len(oldnew) && seq(oldnew)[2 * refUsed(htmlEntityRegexp, str_, base, i)] == reText(htmlEntityRegexp, str_, i, 0) && seq(oldnew)[2 * refUsed(htmlEntityRegexp, str_, base, i) + 1] == runestr(parseVal(reText(htmlEntityRegexp, str_, i, 1), base))
ensures [C34:entity-none] (forall p int :: { str_[p] } !refAt(str_, p)) ==> result == str_
ensures [C34:entity-unparsed] refUsed(htmlEntityRegexp, str_, base, reCount(htmlEntityRegexp, str_)) == 0 ==> result == str_
ensures [C34:entity-decode] reCount(htmlEntityRegexp, str_) > 0 ==> result == replText(tab, str_) && replLen(tab) == 2 * refUsed(htmlEntityRegexp, str_, base, reCount(htmlEntityRegexp, str_))
ensures [C34:entity-pairs] reCount(htmlEntityRegexp, str_) > 0 ==> (forall i int :: { refUsed(htmlEntityRegexp, str_, base, i) } 0 <= i && i < reCount(htmlEntityRegexp, str_) && parseOk(reText(htmlEntityRegexp, str_, i, 1), base, 32) ==> replArg(tab, 2 * refUsed(htmlEntityRegexp, str_, base, i)) == reText(htmlEntityRegexp, str_, i, 0) && replArg(tab, 2 * refUsed(htmlEntityRegexp, str_, base, i) + 1) == runestr(parseVal(reText(htmlEntityRegexp, str_, i, 1), base)))

// The pieces between the marks \u: what is longer than four characters in the last one is no part of the number.
def cpN(s string) int = splitLen(s, "\\u")
def cpRaw(s string, i int) string = splitPiece(s, "\\u", i)
def cpLong(s string) bool = len(cpRaw(s, cpN(s)-1)) > 4
def cpSeg(s string, i int) string = i == cpN(s) - 1 && cpLong(s) ? cpRaw(s, i)[0:4] : cpRaw(s, i)
def cpOut(s string, base int, i int) string = i >= 1 && parseOk(cpSeg(s, i), base, 32) ? runestr(parseVal(cpSeg(s, i), base)) : cpSeg(s, i)
rec cpText(s string, base int, n int) string = n <= 0 ? "" : n <= 1 ? cpOut(s, base, 0) : cpText(s, base, n-1) + cpOut(s, base, n-1)
lemma cp_join(m [int]string, o int, s string, base int, n int)
requires n >= 0 && (forall q int :: { m[q] } o <= q && q < o + n ==> m[q] == cpOut(s, base, q - o))
induction n
use n > 0 ==> cp_join(m, o, s, base, n-1)
ensures joinUpTo(m, o, n) == cpText(s, base, n)

func CodePointToUTF8
params str_, base
loop 1
invariant 1 <= i && i <= last + 1 && last == cpN(str_) - 1 && len(strSlice) == cpN(str_) + (cpLong(str_) ? 1 : 0) && fresh(strSlice)
invariant forall q int :: { mem(strSlice)[q] } off(strSlice) <= q && q < off(strSlice) + i ==> mem(strSlice)[q] == cpOut(str_, base, q - off(strSlice))
invariant forall q int :: { mem(strSlice)[q] } off(strSlice) + i <= q && q <= off(strSlice) + last ==> mem(strSlice)[q] == cpSeg(str_, q - off(strSlice))
invariant cpLong(str_) ==> mem(strSlice)[off(strSlice) + cpN(str_)] == cpRaw(str_, last)[4:len(cpRaw(str_, last))]
decreases last + 1 - i
exit use cp_join(mem(strSlice), off(strSlice), str_, base, cpN(str_))
exit assert cpLong(str_) ==> sameText(cpRaw(str_, last)[0:4] + cpRaw(str_, last)[4:len(cpRaw(str_, last))], cpRaw(str_, last))
ensures [C34:point-none] (forall p int :: { occursAt(str_, "\\u", p) } !occursAt(str_, "\\u", p)) ==> result == str_
ensures [C34:point-decode] result == (cpLong(str_) ? cpText(str_, base, cpN(str_)) + cpRaw(str_, cpN(str_) - 1)[4:len(cpRaw(str_, cpN(str_) - 1))] : cpText(str_, base, cpN(str_)))

// Spaces to fold: two equal ones, two line ends, a space or tab before a line end, a space and a tab.
def spAt(s string, p int, a int, b int) bool = 0 <= p && p + 1 < len(s) && int(s[p]) == a && int(s[p+1]) == b
def foldAt(s string, p int) bool = spAt(s, p, 32, 32) || spAt(s, p, 10, 10) || spAt(s, p, 13, 13) || spAt(s, p, 9, 9) || spAt(s, p, 13, 10) && spAt(s, p+2, 13, 10) || spAt(s, p, 32, 10) || spAt(s, p, 9, 10) || spAt(s, p, 32, 9) || spAt(s, p, 9, 32) || spAt(s, p, 11, 11) || spAt(s, p, 12, 12) || spAt(s, p, 194, 133) && spAt(s, p+2, 194, 133) || spAt(s, p, 194, 160) && spAt(s, p+2, 194, 160)

func SpaceInOne
params s0
loop 1
invariant (forall p int :: { old(s0)[p] } !foldAt(old(s0), p)) ==> s == old(s0)
invariant s == old ==> len(s) == 0 || !replHas(spaceReplacer, s)
decreases 2*len(s) + (s == old ? 0 : 1)
exit assert forall p int :: { s[p] } spAt(s, p, 32, 32) ==> occurs(s, replArg(spaceReplacer, 0), p)
exit assert forall p int :: { s[p] } spAt(s, p, 10, 10) ==> occurs(s, replArg(spaceReplacer, 2), p)
exit assert forall p int :: { s[p] } spAt(s, p, 13, 13) ==> occurs(s, replArg(spaceReplacer, 4), p)
exit assert forall p int :: { s[p] } spAt(s, p, 9, 9) ==> occurs(s, replArg(spaceReplacer, 6), p)
exit assert forall p int :: { s[p] } spAt(s, p, 13, 10) && spAt(s, p+2, 13, 10) ==> occurs(s, replArg(spaceReplacer, 8), p)
exit assert forall p int :: { s[p] } spAt(s, p, 32, 10) ==> occurs(s, replArg(spaceReplacer, 10), p)
exit assert forall p int :: { s[p] } spAt(s, p, 9, 10) ==> occurs(s, replArg(spaceReplacer, 12), p)
exit assert forall p int :: { s[p] } spAt(s, p, 32, 9) ==> occurs(s, replArg(spaceReplacer, 14), p)
exit assert forall p int :: { s[p] } spAt(s, p, 9, 32) ==> occurs(s, replArg(spaceReplacer, 16), p)
exit assert forall p int :: { s[p] } spAt(s, p, 11, 11) ==> occurs(s, replArg(spaceReplacer, 18), p)
exit assert forall p int :: { s[p] } spAt(s, p, 12, 12) ==> occurs(s, replArg(spaceReplacer, 20), p)
exit assert forall p int :: { s[p] } spAt(s, p, 194, 133) && spAt(s, p+2, 194, 133) ==> occurs(s, replArg(spaceReplacer, 22), p)
exit assert forall p int :: { s[p] } spAt(s, p, 194, 160) && spAt(s, p+2, 194, 160) ==> occurs(s, replArg(spaceReplacer, 24), p)
ensures [C34:space-none] (forall p int :: { s0[p] } !foldAt(s0, p)) ==> result == s0
ensures [C34:space-all] forall p int :: { result[p] } !foldAt(result, p)

// A word begins at the start and after a lower-case letter before something else, and it reaches to the next such place.
def wordEdge(m [int]int, o int, n int, i int) bool = i == 0 || i == n || lowerRune(m[o+i-1]) && !lowerRune(m[o+i])
def isWord(m [int]int, o int, n int, w int, e int) bool = 0 <= w && w < e && e <= n && wordEdge(m, o, n, w) && wordEdge(m, o, n, e) && (forall q int :: { m[q] } o + w < q && q < o + e ==> !wordEdge(m, o, n, q - o))
logic word(m [int]int, o int, n int, w int, e int) bool
axiom word_is(m [int]int, o int, n int, w int, e int)
trigger { word(m, o, n, w, e) }
ensures word(m, o, n, w, e) <==> isWord(m, o, n, w, e)
trusted "definition of a word"
// the form of an initialism: lower case if it is the first word and begins so
def initForm(m [int]int, o int, w int, e int) string = w == 0 && lowerRune(m[o]) ? lowerText(upperText(runeText(m, o+w, e-w))) : upperText(runeText(m, o+w, e-w))
// a word that stays: an initialism in its form, or another word whose first character has no other upper case
def listed(u string) bool = u in commonInitialisms && commonInitialisms[u]
def stays(m [int]int, o int, n int, w int, e int) bool = (listed(upperText(runeText(m, o+w, e-w))) ==> (forall q int :: { m[q] } o + w <= q && q < o + n && q - o - w < runeLen(initForm(m, o, w, e)) ==> runesOf(initForm(m, o, w, e))[q - o - w] == m[q])) && (!listed(upperText(runeText(m, o+w, e-w))) && w > 0 ==> upperRune(m[o+w]) == m[o+w])
def lintFree(m [int]int, o int, n int) bool = (forall q int :: { m[q] } o <= q && q < o + n ==> m[q] != 95) && (forall w int, e int :: { word(m, o, n, w, e) } word(m, o, n, w, e) ==> stays(m, o, n, w, e))

// a name without underscores, with every word in its form and beginning in upper case
def lintName(s string) bool = lintFree(runesOf(s), 0, runeLen(s)) && (runeLen(s) > 0 ==> upperRune(runesOf(s)[0]) == runesOf(s)[0])

func toInitialisms
params runes_
modifies M(rune) at runes_
loop 1
invariant arr(runes_) == arr(old(runes_)) && off(runes_) == off(old(runes_)) && 0 <= len(runes_) && len(runes_) <= len(old(runes_)) && cap(runes_) == cap(old(runes_))
invariant 0 <= w && w <= i && i <= len(runes_) && (w < i || i == w)
invariant let m := old(mem(runes_)) :: let o := old(off(runes_)) :: let n := old(len(runes_)) :: lintFree(m, o, n) ==> mem(runes_) == m && len(runes_) == n && wordEdge(m, o, n, w) && (forall q int :: { m[q] } o + w < q && q <= o + i && q < o + n ==> !wordEdge(m, o, n, q - o)) && (w < i ==> i < n)
decreases len(runes_) - i
loop 2
invariant 1 <= n && i + n < len(runes_)
decreases len(runes_) - n
call strings_ToUpper assert let m := old(mem(runes_)) :: let o := old(off(runes_)) :: let n := old(len(runes_)) :: lintFree(m, o, n) ==> mem(runes_) == m && len(runes_) == n && i <= n && word(m, o, n, w, i)
call strings_ToUpper assert let m := old(mem(runes_)) :: let o := old(off(runes_)) :: let n := old(len(runes_)) :: lintFree(m, o, n) ==> stays(m, o, n, w, i)
ensures [C34:lint-within] arr(result) == arr(runes_) && off(result) == off(runes_) && len(result) <= len(runes_)
ensures [C34:lint-free] lintFree(old(mem(runes_)), off(runes_), len(runes_)) ==> len(result) == len(runes_) && mem(runes_) == old(mem(runes_))

func LintCamelString
params name
loop 1
invariant i == 0 && mem(runes) == runesOf(name) && off(runes) == 0 && len(runes) == runeLen(name) && (forall q int :: { runesOf(name)[q] } 0 <= q && q < $it ==> runesOf(name)[q] == 95)
call toInitialisms assert lintName(name) ==> i == 0 && sameRunes(mem(runes), off(runes), runesOf(name), 0, runeLen(name))
ensures [C34:lint-underscore] name == "_" ==> result == "_"
ensures [C34:lint-none] lintName(name) && validText(name) ==> result == name

// --- JSON string literals.
// The characters of the text begin where jMark is set; the literal of the one at p begins at jAt[p] in the output.
ghost var jMark [int]bool
ghost var jAt [int]int
// the output
ghost var jOut [int]byte
def htmlByte(b byte) bool = b == byte(60) || b == byte(62) || b == byte(38)
def hexVal(v int) int = 48 <= v && v <= 57 ? v - 48 : (97 <= v && v <= 102 ? v - 87 : (65 <= v && v <= 70 ? v - 55 : 0 - 1000000))
def shortEsc(v int) int = v == 34 || v == 92 || v == 47 ? v : (v == 98 ? 8 : (v == 102 ? 12 : (v == 110 ? 10 : (v == 114 ? 13 : (v == 116 ? 9 : 0 - 1)))))
def uniEsc(m [int]byte, q int) int = 4096*hexVal(int(m[q+2])) + 256*hexVal(int(m[q+3])) + 16*hexVal(int(m[q+4])) + hexVal(int(m[q+5]))
// the bytes q..e-1 of m are a literal for the character of s at p: itself, a two-byte escape, or four hexadecimal digits
def jsonSelf(s string, p int, esc bool) bool = runeW(s, p) == 1 ==> 32 <= int(s[p]) && int(s[p]) < 128 && int(s[p]) != 34 && int(s[p]) != 92 && !(esc && htmlByte(s[p]))
def jsonSame(s string, p int, m [int]byte, q int, w int) bool = m[q] == s[p] && (w > 1 ==> m[q+1] == s[p+1]) && (w > 2 ==> m[q+2] == s[p+2]) && (w > 3 ==> m[q+3] == s[p+3])
rec lineSep(s string, p int) bool = runeAt(s, p) == 8232 || runeAt(s, p) == 8233
def jsonChar(s string, p int, m [int]byte, q int, e int, esc bool) bool = (e == q + runeW(s, p) && jsonSelf(s, p, esc) && jsonSame(s, p, m, q, runeW(s, p))) || (e == q + 2 && int(m[q]) == 92 && shortEsc(int(m[q+1])) == int(s[p])) || (e == q + 6 && int(m[q]) == 92 && int(m[q+1]) == 117 && uniEsc(m, q) == (runeW(s, p) == 1 && int(s[p]) >= 128 ? 65533 : runeAt(s, p)))

func StringMarshalJSON
params s, escapeHTML
modifies jMark
modifies jAt
modifies jOut
loop 1
before set jMark@(p int) := p == 0
before set jAt := jAt[0 := 1]
before assert forall q int :: { mem(a)[q] } off(a) <= q && q < off(a) + len(a) ==> mem(a)[q] == s[q - off(a)]
step set jAt := jAt[i := buf.size + (i - start)]
step set jMark := jMark[i := true]
invariant 0 <= start && start <= i && i <= len(a) && buf.size >= 1 && int(buf.text[0]) == 34
invariant jMark[0] && jMark[i] && jAt[0] == 1 && jAt[start] == buf.size && jAt[i] == buf.size + (i - start)
invariant forall p int :: { jMark[p] } jMark[p] ==> 0 <= p && p <= i
invariant forall p int :: { jMark[p] } jMark[p] && p < i ==> jMark[p + runeW(s, p)] && p + runeW(s, p) <= (p < start ? start : i)
invariant forall p int :: { jMark[p] } jMark[p] && p < start ==> 1 <= jAt[p] && jAt[p] <= jAt[p + runeW(s, p)] && jAt[p + runeW(s, p)] <= buf.size && jsonChar(s, p, buf.text, jAt[p], jAt[p + runeW(s, p)], escapeHTML)
invariant forall p int :: { jMark[p] } jMark[p] && start <= p && p < i ==> jAt[p] == buf.size + (p - start) && jsonSelf(s, p, escapeHTML)
invariant escapeHTML ==> (forall q int :: { buf.text[q] } 0 <= q && q < buf.size ==> !htmlByte(buf.text[q]))
invariant escapeHTML ==> (forall q int :: { s[q] } start <= q && q < i ==> !htmlByte(s[q]))
invariant forall p int :: { lineSep(s, p), jMark[p] } jMark[p] && start <= p && p < i ==> !lineSep(s, p)
invariant forall p int :: { lineSep(s, p), jMark[p] } jMark[p] && p < start && lineSep(s, p) ==> jAt[p + runeW(s, p)] == jAt[p] + 6
decreases len(a) - i
call DecodeRune assert restAt(str(a[i:len(a)]), s, i)
set jOut := buf.text
ensures [C32:quotes] len(result) >= 2 && int(seq(result)[0]) == 34 && int(seq(result)[len(result)-1]) == 34
ensures [C32:covers] jMark[0] && jAt[0] == 1 && jMark[len(s)] && jAt[len(s)] == len(result) - 1
ensures [C32:chars] forall p int :: { jMark[p] } jMark[p] && 0 <= p && p < len(s) ==> jMark[p + runeW(s, p)] && jsonChar(s, p, jOut, jAt[p], jAt[p + runeW(s, p)], escapeHTML)
ensures [C32:separators] forall p int :: { lineSep(s, p) } jMark[p] && 0 <= p && p < len(s) && lineSep(s, p) ==> jAt[p + runeW(s, p)] == jAt[p] + 6
ensures [C32:output] forall q int :: { seq(result)[q] } 0 <= q && q < len(result) ==> seq(result)[q] == jOut[q]
ensures [C32:html] escapeHTML ==> (forall q int :: { seq(result)[q] } 0 <= q && q < len(result) ==> !htmlByte(seq(result)[q]))
