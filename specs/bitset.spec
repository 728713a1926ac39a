package bitset

guarded BitSet.set by mu

// bit k of a byte sequence, most significant bit first
def bitAt(a [int]byte, k int) bool = bit(a[k/8], 7 - k%8)
def from(off int, size int) int = off < 0 ? off + size : off

func New
params init
ensures [C17:bytes] fresh(result) && len(result.set) == len(init) && (forall i int :: { result.set[i] } 0 <= i < len(init) ==> result.set[i] == init[i])
ensures [C17:unlocked] result.mu == 0

func NewFromHex
params s
results r, err
ensures [C17:valid] err == nil <==> hexText(s)
ensures [C17:bytes] err == nil ==> fresh(r) && 2*len(r.set) == len(s) && (forall i int :: { r.set[i] } 0 <= i < len(r.set) ==> int(r.set[i]) == hexPair(s, i))

func BitSet.Set
params b, offset, value
results was, err
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu == 0 && len(b.set) < 35184372088832
modifies BitSet.set at b
modifies M(byte) at b.set
ensures [C17:refused] from(offset, 8*old(len(b.set))) < 0 ==> err != nil && !was && b.set == old(b.set) && (forall i int :: { seq(b.set)[i] } 0 <= i < len(b.set) ==> seq(b.set)[i] == old(seq(b.set))[i])
ensures [C17:accepted] from(offset, 8*old(len(b.set))) >= 0 ==> err == nil
ensures [C17:previous] from(offset, 8*old(len(b.set))) >= 0 ==> (was <==> from(offset, 8*old(len(b.set))) < 8*old(len(b.set)) && bitAt(old(seq(b.set)), from(offset, 8*old(len(b.set)))))
ensures [C17:length] from(offset, 8*old(len(b.set))) >= 0 ==> len(b.set) == (from(offset, 8*old(len(b.set)))/8 < old(len(b.set)) ? old(len(b.set)) : from(offset, 8*old(len(b.set)))/8 + 1)
ensures [C17:bits] let e := from(offset, 8*old(len(b.set))) :: e >= 0 ==> (forall i int, j int :: { bit(seq(b.set)[i], j) } 0 <= i < len(b.set) && 0 <= j < 8 ==> (bit(seq(b.set)[i], j) <==> (i == e/8 && j == 7 - e%8 ? value : i < old(len(b.set)) && bit(old(seq(b.set))[i], j))))

func BitSet.Get
params b, offset
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0
ensures [C17:get] result <==> (let e := from(offset, 8*len(b.set)) :: 0 <= e < 8*len(b.set) && bitAt(seq(b.set), e))

func getBit
params gb, offset
requires int(offset) < 8
ensures (int(result) == 1 <==> bit(gb, 7 - int(offset))) && (int(result) == 0 || int(result) == 1)

func BitSet.size
params b
ensures result == 8*len(b.set) && 0 <= result && result <= 2251799813685248

func BitSet.Size
params b
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0
ensures [C17:size] result == 8*len(b.set)

func BitSet.Clear
params b
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu == 0
modifies M(byte) at b.set
loop 1
invariant b.set == old(b.set) && b.mu == -1
invariant forall i int :: { seq(b.set)[i] } 0 <= i < $it ==> seq(b.set)[i] == zero(ty(byte))
ensures [C19:cleared] len(b.set) == old(len(b.set)) && (forall i int :: { seq(b.set)[i] } 0 <= i < len(b.set) ==> seq(b.set)[i] == zero(ty(byte)))

func BitSet.Bytes
params b
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0
ensures [C19:bytes] len(result) == len(b.set) && fresh(result) && (forall i int :: { result[i] } 0 <= i < len(result) ==> result[i] == b.set[i])

func BitSet.Not
params b
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0
loop 1
invariant fresh(rBitSet) && fresh(rBitSet.set) && len(rBitSet.set) == len(b.set)
invariant forall i int, j int :: { bit(seq(rBitSet.set)[i], j) } 0 <= i < $it && 0 <= j < 8 ==> (bit(seq(rBitSet.set)[i], j) <==> !bit(seq(b.set)[i], j))
ensures [C19:not] fresh(result) && fresh(result.set) && len(result.set) == len(b.set) && (forall i int, j int :: { bit(seq(result.set)[i], j) } 0 <= i < len(b.set) && 0 <= j < 8 ==> (bit(seq(result.set)[i], j) <==> !bit(seq(b.set)[i], j)))

func BitSet.Range
params b, f
option trace
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0 && f != nil
loop 1
invariant size == 8*len(b.set) && 0 <= offset <= size && b.mu == old(b.mu) + 1
invariant calls(f) == old(calls(f)) + offset
invariant forall c int :: { callarg(f, c, 0, ty(int)) } { callarg(f, c, 1, ty(bool)) } old(calls(f)) <= c < calls(f) ==> callarg(f, c, 0, ty(int)) == c - old(calls(f)) && callarg(f, c, 1, ty(bool)) == bitAt(seq(b.set), c - old(calls(f))) && f(callarg(f, c, 0, ty(int)), callarg(f, c, 1, ty(bool)))
ensures [C17:in-order] forall c int :: { callarg(f, c, 0, ty(int)) } old(calls(f)) <= c < calls(f) ==> callarg(f, c, 0, ty(int)) == c - old(calls(f)) && callarg(f, c, 1, ty(bool)) == bitAt(seq(b.set), c - old(calls(f)))
ensures [C17:until] old(calls(f)) <= calls(f) <= old(calls(f)) + 8*len(b.set) && (forall c int :: { callarg(f, c, 0, ty(int)) } old(calls(f)) <= c < calls(f) - 1 ==> f(callarg(f, c, 0, ty(int)), callarg(f, c, 1, ty(bool))))
ensures [C17:complete] calls(f) == old(calls(f)) + 8*len(b.set) || (calls(f) > old(calls(f)) && !f(callarg(f, calls(f)-1, 0, ty(int)), callarg(f, calls(f)-1, 1, ty(bool))))

// number of one bits of the byte x among its positions s <= j < e (position 0 is the most significant bit)
def at(x byte, s int, e int, j int) int = s <= j && j < e && bit(x, 7-j) ? 1 : 0
def pop(x byte, s int, e int) int = at(x,s,e,0) + at(x,s,e,1) + at(x,s,e,2) + at(x,s,e,3) + at(x,s,e,4) + at(x,s,e,5) + at(x,s,e,6) + at(x,s,e,7)
// number of one bits at the positions lo <= k < hi
rec ones(a [int]byte, lo int, hi int) int = hi <= lo ? 0 : ones(a, lo, hi-1) + (bitAt(a, hi-1) ? 1 : 0)

lemma onesByte(a [int]byte, i int, s int, e int)
requires i >= 0 && 0 <= s && s <= e && e <= 8
ensures ones(a, 8*i+s, 8*i+e) == pop(a[i], s, e)
induction e
use e > s ==> onesByte(a, i, s, e-1)

lemma onesCat(a [int]byte, lo int, mid int, hi int)
requires 0 <= lo && lo <= mid && mid <= hi
ensures ones(a, lo, hi) == ones(a, lo, mid) + ones(a, mid, hi)
induction hi
use hi > mid ==> onesCat(a, lo, mid, hi-1)

func BitSet.validRange
params b, start, end
results sgi, sbi, egi, ebi, valid
ensures let n := 8*len(b.set) :: let s := (from(start, n) < 0 ? 0 : from(start, n)) :: let e := (from(end, n) >= n ? n-1 : from(end, n)) :: (valid <==> s < n && s <= e) && (valid ==> sgi == s/8 && sbi == s%8 && egi == e/8 && ebi == e%8 && 0 <= s && s <= e && e < n)

func BitSet.Count
params b, start, end
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0
loop 1
before use onesByte(seq(b.set), sgi, sbi, 8)
invariant 0 <= sbi && sbi < 8 && 0 <= ebi && ebi < 8 && 0 <= sgi && sgi < egi && egi < len(b.set)
invariant n == ones(seq(b.set), 8*sgi+sbi, 8*(sgi+1+$it))
invariant 0 <= n && n <= 8*(1+$it)
head use onesByte(seq(b.set), sgi+1+$it, 0, 8)
head use onesCat(seq(b.set), 8*sgi+sbi, 8*(sgi+1+$it), 8*(sgi+2+$it))
after use onesByte(seq(b.set), egi, 0, ebi+1)
after use onesCat(seq(b.set), 8*sgi+sbi, 8*egi, 8*egi+ebi+1)
exit use valid && sgi == egi ==> onesByte(seq(b.set), sgi, sbi, ebi+1)
ensures [C18:count] let n := 8*len(b.set) :: let s := (from(start, n) < 0 ? 0 : from(start, n)) :: let e := (from(end, n) >= n ? n-1 : from(end, n)) :: (s >= n || s > e ==> result == 0) && (s < n && s <= e ==> result == ones(seq(b.set), s, e+1))

// bit j of byte t of the sequence a read from bit s of byte g on
def shifted(a [int]byte, g int, s int, t int, j int) bool = j >= s ? bit(a[g+t], j-s) : bit(a[g+t+1], j-s+8)

// shifted is the bit at position s + 8t + 7-j
lemma shiftedIs(a [int]byte, s int, t int, j int)
requires s >= 0 && t >= 0 && 0 <= j && j < 8
ensures [C18:sub-is-the-range] shifted(a, s/8, s%8, t, j) <==> bitAt(a, s + 8*t + 7 - j)

lemma keepHigh(x byte, e int, s int)
requires 0 <= e && e < 8 && 0 <= s && s < 8
ensures forall j int :: { bit(x >> (7-e) << (7-e), j) } 0 <= j && j < 8 ==> (bit(x >> (7-e) << (7-e), j) <==> j >= 7-e && bit(x, j))
ensures forall j int :: { bit(x >> (7-e) << (7-e) << s, j) } 0 <= j && j < 8 ==> (bit(x >> (7-e) << (7-e) << s, j) <==> j >= 7-e+s && bit(x, j-s))
ensures forall j int :: { bit(x >> (7-e) << (7-e) >> (8-s), j) } 0 <= j && j < 8 ==> (bit(x >> (7-e) << (7-e) >> (8-s), j) <==> j < s && j-s+8 >= 7-e && bit(x, j-s+8))

lemma orBits(x byte, y byte)
ensures forall j int :: { bit(x|y, j) } 0 <= j && j < 8 ==> (bit(x|y, j) <==> bit(x, j) || bit(y, j))

lemma shiftBits(x byte, s int)
requires 0 <= s && s < 8
ensures forall j int :: { bit(x << s, j) } 0 <= j && j < 8 ==> (bit(x << s, j) <==> j >= s && bit(x, j-s))

func BitSet.Sub
params b, start, end
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0
loop 1
invariant fresh(newBitSet) && fresh(newBitSet.set) && len(newBitSet.set) == $it
invariant 0 <= sbi && sbi < 8 && 0 <= ebi && ebi < 8 && 0 <= sgi && sgi < egi && egi < len(b.set)
invariant pre == seq(b.set)[sgi+$it] << sbi
invariant forall j int :: { bit(pre, j) } 0 <= j && j < 8 ==> (bit(pre, j) <==> j >= sbi && bit(seq(b.set)[sgi+$it], j-sbi))
invariant forall t int, j int :: { bit(seq(newBitSet.set)[t], j) } 0 <= t && t < $it && 0 <= j && j < 8 ==> (bit(seq(newBitSet.set)[t], j) <==> shifted(seq(b.set), sgi, sbi, t, j))
exit use valid ==> keepHigh(seq(b.set)[egi], ebi, sbi)
exit use valid && sgi < egi ==> orBits(seq(b.set)[egi-1] << sbi, seq(b.set)[egi] >> (7-ebi) << (7-ebi) >> (8-sbi))
exit use valid && sgi < egi ==> shiftBits(seq(b.set)[egi-1], sbi)
ensures [C18:sub-size] let n := 8*len(b.set) :: let s := (from(start, n) < 0 ? 0 : from(start, n)) :: let e := (from(end, n) >= n ? n-1 : from(end, n)) :: fresh(result) && (s >= n || s > e ==> len(result.set) == 0) && (s < n && s <= e ==> len(result.set) == (e-s+8)/8)
ensures [C18:sub-bits] let n := 8*len(b.set) :: let s := (from(start, n) < 0 ? 0 : from(start, n)) :: let e := (from(end, n) >= n ? n-1 : from(end, n)) :: forall t int, j int :: { bit(seq(result.set)[t], j) } 0 <= t && t < len(result.set) && 0 <= j && j < 8 ==> (bit(seq(result.set)[t], j) <==> s + 8*t + 7 - j <= e && shifted(seq(b.set), s/8, s%8, t, j))

// byte i of the bit set p, zero beyond its end; h and m are the contents of the sets and of byte arrays
def byteOf(h [*BitSet][]byte, m [*BitSet][int]byte, p *BitSet, i int) byte = 0 <= i && i < len(h[p]) ? m[arr(h[p])][off(h[p])+i] : byte(0)
rec andAll(h [*BitSet][]byte, m [*BitSet][int]byte, b *BitSet, s [int]*BitSet, n int, i int) byte = n <= 0 ? byteOf(h, m, b, i) : andAll(h, m, b, s, n-1, i) & byteOf(h, m, s[n-1], i)
rec orAll(h [*BitSet][]byte, m [*BitSet][int]byte, b *BitSet, s [int]*BitSet, n int, i int) byte = n <= 0 ? byteOf(h, m, b, i) : orAll(h, m, b, s, n-1, i) | byteOf(h, m, s[n-1], i)
rec xorAll(h [*BitSet][]byte, m [*BitSet][int]byte, b *BitSet, s [int]*BitSet, n int, i int) byte = n <= 0 ? byteOf(h, m, b, i) : xorAll(h, m, b, s, n-1, i) ^ byteOf(h, m, s[n-1], i)
rec andNotAll(h [*BitSet][]byte, m [*BitSet][int]byte, b *BitSet, s [int]*BitSet, n int, i int) byte = n <= 0 ? byteOf(h, m, b, i) : andNotAll(h, m, b, s, n-1, i) &^ byteOf(h, m, s[n-1], i)

// where an operand is missing the conjunction is zero
lemma andShort(h [*BitSet][]byte, m [*BitSet][int]byte, b *BitSet, s [int]*BitSet, n int, mn int)
requires 0 <= n && 0 <= mn
requires len(h[b]) <= mn || (exists k int :: { s[k] } 0 <= k && k < n && len(h[s[k]]) <= mn)
ensures forall i int :: { andAll(h, m, b, s, n, i) } mn <= i ==> andAll(h, m, b, s, n, i) == byte(0)
induction n
use n > 0 && (len(h[b]) <= mn || (exists k int :: { s[k] } 0 <= k && k < n-1 && len(h[s[k]]) <= mn)) ==> andShort(h, m, b, s, n-1, mn)

func BitSet.And
params b, bitSets
results r
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0
requires forall i int :: { seq(bitSets)[i] } 0 <= i < len(bitSets) ==> seq(bitSets)[i] != nil
requires forall r *BitSet :: { r.mu } r.mu >= 0
loop 1
invariant 0 <= minLen && minLen <= len(b.set) && len(b.set) <= maxLen
invariant forall k int :: { seq(bitSets)[k] } 0 <= k && k < $it ==> minLen <= len(seq(bitSets)[k].set) && len(seq(bitSets)[k].set) <= maxLen && pending(BitSet.mu)[seq(bitSets)[k]] >= 1
invariant minLen == len(b.set) || (exists k int :: { seq(bitSets)[k] } 0 <= k && k < $it && minLen == len(seq(bitSets)[k].set))
invariant maxLen == len(b.set) || (exists k int :: { seq(bitSets)[k] } 0 <= k && k < $it && maxLen == len(seq(bitSets)[k].set))
invariant forall r *BitSet :: { r.mu } { pending(BitSet.mu)[r] } r.mu == old(r.mu) + pending(BitSet.mu)[r] + (r == b ? 1 : 0) && pending(BitSet.mu)[r] >= 0 && (fresh(r) ==> pending(BitSet.mu)[r] == 0)
loop 2
before use andShort(old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), len(bitSets), minLen)
invariant fresh(rBitSet) && fresh(rBitSet.set) && len(rBitSet.set) == maxLen
invariant forall i int :: { seq(rBitSet.set)[i] } 0 <= i && i < maxLen ==> seq(rBitSet.set)[i] == ($it <= i ? byte(0) : andAll(old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), len(bitSets), i))
loop 3
invariant fresh(rBitSet) && fresh(rBitSet.set) && len(rBitSet.set) == maxLen
invariant forall i2 int :: { seq(rBitSet.set)[i2] } 0 <= i2 && i2 < maxLen && i2 != i ==> seq(rBitSet.set)[i2] == (i <= i2 ? byte(0) : andAll(old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), len(bitSets), i2))
invariant seq(rBitSet.set)[i] == andAll(old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), $it, i)
ensures [C19:none] len(bitSets) == 0 ==> r == b
ensures [C19:and-size] len(bitSets) > 0 ==> fresh(r) && fresh(r.set) && len(b.set) <= len(r.set) && (forall k int :: { seq(bitSets)[k] } 0 <= k && k < len(bitSets) ==> len(seq(bitSets)[k].set) <= len(r.set)) && (len(r.set) == len(b.set) || (exists k int :: { seq(bitSets)[k] } 0 <= k && k < len(bitSets) && len(r.set) == len(seq(bitSets)[k].set)))
ensures [C19:and-bits] len(bitSets) > 0 ==> (forall i int :: { seq(r.set)[i] } 0 <= i && i < len(r.set) ==> seq(r.set)[i] == andAll(old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), len(bitSets), i))

// result of folding the operation op over the first n operands, byte i
def opAll(op string, h [*BitSet][]byte, m [*BitSet][int]byte, b *BitSet, s [int]*BitSet, n int, i int) byte = op == "|" ? orAll(h, m, b, s, n, i) : op == "^" ? xorAll(h, m, b, s, n, i) : op == "&^" ? andNotAll(h, m, b, s, n, i) : byteOf(h, m, b, i)

func BitSet.op
params b, op, bitSets
results r
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0
requires forall i int :: { seq(bitSets)[i] } 0 <= i < len(bitSets) ==> seq(bitSets)[i] != nil
requires forall r *BitSet :: { r.mu } r.mu >= 0
loop 1
invariant 0 <= maxLen && len(b.set) <= maxLen
invariant forall k int :: { seq(bitSets)[k] } 0 <= k && k < $it ==> len(seq(bitSets)[k].set) <= maxLen && pending(BitSet.mu)[seq(bitSets)[k]] >= 1
invariant maxLen == len(b.set) || (exists k int :: { seq(bitSets)[k] } 0 <= k && k < $it && maxLen == len(seq(bitSets)[k].set))
invariant forall r *BitSet :: { r.mu } { pending(BitSet.mu)[r] } r.mu == old(r.mu) + pending(BitSet.mu)[r] + (r == b ? 1 : 0) && pending(BitSet.mu)[r] >= 0 && (fresh(r) ==> pending(BitSet.mu)[r] == 0)
loop 2
invariant fresh(rBitSet) && fresh(rBitSet.set) && len(rBitSet.set) == maxLen
invariant forall i int :: { seq(rBitSet.set)[i] } 0 <= i && i < maxLen ==> seq(rBitSet.set)[i] == opAll(op, old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), $it, i)
loop 3
invariant fresh(rBitSet) && fresh(rBitSet.set) && len(rBitSet.set) == maxLen
invariant forall i int :: { seq(rBitSet.set)[i] } 0 <= i && i < maxLen ==> seq(rBitSet.set)[i] == opAll(op, old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), $it2 + (i < $it ? 1 : 0), i)
ensures len(bitSets) == 0 ==> r == b
ensures [C19:op-size] len(bitSets) > 0 ==> fresh(r) && fresh(r.set) && len(b.set) <= len(r.set) && (forall k int :: { seq(bitSets)[k] } 0 <= k && k < len(bitSets) ==> len(seq(bitSets)[k].set) <= len(r.set)) && (len(r.set) == len(b.set) || (exists k int :: { seq(bitSets)[k] } 0 <= k && k < len(bitSets) && len(r.set) == len(seq(bitSets)[k].set)))
ensures [C19:op-bits] len(bitSets) > 0 ==> (forall i int :: { seq(r.set)[i] } 0 <= i && i < len(r.set) ==> seq(r.set)[i] == opAll(op, old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), len(bitSets), i))

func BitSet.Or
params b, bitSets
results r
requires b.mu >= 0
requires forall i int :: { seq(bitSets)[i] } 0 <= i < len(bitSets) ==> seq(bitSets)[i] != nil
requires forall r *BitSet :: { r.mu } r.mu >= 0
ensures [C19:none] len(bitSets) == 0 ==> r == b
ensures [C19:or-size] len(bitSets) > 0 ==> fresh(r) && fresh(r.set) && len(b.set) <= len(r.set) && (forall k int :: { seq(bitSets)[k] } 0 <= k && k < len(bitSets) ==> len(seq(bitSets)[k].set) <= len(r.set)) && (len(r.set) == len(b.set) || (exists k int :: { seq(bitSets)[k] } 0 <= k && k < len(bitSets) && len(r.set) == len(seq(bitSets)[k].set)))
ensures [C19:bits] len(bitSets) > 0 ==> (forall i int :: { seq(r.set)[i] } 0 <= i && i < len(r.set) ==> seq(r.set)[i] == orAll(old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), len(bitSets), i))

func BitSet.Xor
params b, bitSets
results r
requires b.mu >= 0
requires forall i int :: { seq(bitSets)[i] } 0 <= i < len(bitSets) ==> seq(bitSets)[i] != nil
requires forall r *BitSet :: { r.mu } r.mu >= 0
ensures [C19:none] len(bitSets) == 0 ==> r == b
ensures [C19:xor-size] len(bitSets) > 0 ==> fresh(r) && fresh(r.set) && len(b.set) <= len(r.set) && (forall k int :: { seq(bitSets)[k] } 0 <= k && k < len(bitSets) ==> len(seq(bitSets)[k].set) <= len(r.set)) && (len(r.set) == len(b.set) || (exists k int :: { seq(bitSets)[k] } 0 <= k && k < len(bitSets) && len(r.set) == len(seq(bitSets)[k].set)))
ensures [C19:bits] len(bitSets) > 0 ==> (forall i int :: { seq(r.set)[i] } 0 <= i && i < len(r.set) ==> seq(r.set)[i] == xorAll(old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), len(bitSets), i))

func BitSet.AndNot
params b, bitSets
results r
requires b.mu >= 0
requires forall i int :: { seq(bitSets)[i] } 0 <= i < len(bitSets) ==> seq(bitSets)[i] != nil
requires forall r *BitSet :: { r.mu } r.mu >= 0
ensures [C19:none] len(bitSets) == 0 ==> r == b
ensures [C19:andnot-size] len(bitSets) > 0 ==> fresh(r) && fresh(r.set) && len(b.set) <= len(r.set) && (forall k int :: { seq(bitSets)[k] } 0 <= k && k < len(bitSets) ==> len(seq(bitSets)[k].set) <= len(r.set)) && (len(r.set) == len(b.set) || (exists k int :: { seq(bitSets)[k] } 0 <= k && k < len(bitSets) && len(r.set) == len(seq(bitSets)[k].set)))
ensures [C19:bits] len(bitSets) > 0 ==> (forall i int :: { seq(r.set)[i] } 0 <= i && i < len(r.set) ==> seq(r.set)[i] == andNotAll(old(heap(BitSet.set)), old(heap(M(byte))), b, seq(bitSets), len(bitSets), i))

func BitSet.String
params b
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0
ensures [C19:hex] len(result) == 2*len(b.set) && (forall i int :: { b.set[i] } 0 <= i < len(b.set) ==> isLowerHex(result[2*i]) && isLowerHex(result[2*i+1]) && 16*hexDigit(result[2*i]) + hexDigit(result[2*i+1]) == int(b.set[i]))

// start of the block of byte d in the binary text, when every block has len(sep)+8 characters
rec start(sep string, d int) int = d <= 0 ? 0 : start(sep, d-1) + len(sep) + 8
lemma startIs(sep string, d int)
requires d >= 0
ensures [C19:start] start(sep, d) == d*(len(sep)+8)
induction d
use d > 0 ==> startIs(sep, d-1)
lemma startBelow(sep string, n int)
requires 0 <= n
ensures start(sep, n) >= 0 && (forall d int :: { start(sep, d) } 0 <= d && d < n ==> 0 <= start(sep, d) && start(sep, d) + len(sep) + 8 <= start(sep, n))
induction n
use n > 0 ==> startBelow(sep, n-1)

// character r of the block of byte x: the separator, then the eight binary digits
def block(x byte, sep string, r int) byte = r < len(sep) ? sep[r] : binDigit(x, r - len(sep))

func BitSet.Binary
params b, sep
option guards
option onesection
ensures [C22:released] b.mu == old(b.mu)
requires b.mu >= 0
loop 1
head use startBelow(sep, $it)
invariant fresh(&buf) && (&buf).size == start(sep, $it)
invariant forall d int, q int :: { (&buf).text[q], start(sep, d) } 0 <= d && d < $it && start(sep, d) <= q && q < start(sep, d) + len(sep) + 8 ==> (&buf).text[q] == block(seq(b.set)[d], sep, q - start(sep, d))
exit use startBelow(sep, len(b.set))
exit use startIs(sep, 0)
ensures [C19:binary-empty] len(b.set) == 0 ==> len(result) == 0
ensures [C19:binary-size] len(b.set) > 0 ==> len(result) == start(sep, len(b.set)) - len(sep)
ensures [C19:binary-digits] forall d int, q int :: { result[q], start(sep, d) } 0 <= q && 0 <= d && d < len(b.set) && start(sep, d) <= q + len(sep) && q + len(sep) < start(sep, d) + len(sep) + 8 ==> result[q] == block(seq(b.set)[d], sep, q + len(sep) - start(sep, d))
