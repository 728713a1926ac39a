package gslice

func Copy
params s
ensures [C02:length] len(result) == len(s)
ensures [C02:contents] forall i int :: 0 <= i < len(s) ==> result[i] == s[i]
ensures [C02:nil-kept] (result == nil) <==> (s == nil)
ensures [C02:no-aliasing] fresh(result)

func Equal
params a, b
loop 1
invariant len(a) == len(b)
invariant forall i int :: 0 <= i < $it ==> a[i] == b[i]
ensures [C01:equal] result <==> (len(a) == len(b) && (forall i int :: 0 <= i < len(a) ==> a[i] == b[i]))

func EqualWithFunc
params a, b, eq
requires eq != nil
loop 1
invariant len(a) == len(b)
invariant forall i int :: 0 <= i < $it ==> eq(a[i], b[i])
ensures [C01:equal] result <==> (len(a) == len(b) && (forall i int :: 0 <= i < len(a) ==> eq(a[i], b[i])))

func Index
params s, target
loop 1
invariant forall i int :: 0 <= i < $it ==> s[i] != target
ensures [C01:range] -1 <= result < len(s)
ensures [C01:match] result >= 0 ==> s[result] == target
ensures [C01:first] forall i int :: 0 <= i < (result < 0 ? len(s) : result) ==> s[i] != target

func IndexWithFunc
params s, eq
requires eq != nil
loop 1
invariant forall i int :: 0 <= i < $it ==> !eq(s[i])
ensures [C01:range] -1 <= result < len(s)
ensures [C01:match] result >= 0 ==> eq(s[result])
ensures [C01:first] forall i int :: 0 <= i < (result < 0 ? len(s) : result) ==> !eq(s[i])

func Contains
params s, target
ensures [C01:contains] result <==> (exists i int :: 0 <= i < len(s) && s[i] == target)

func ContainsWithFunc
params s, eq
requires eq != nil
ensures [C01:contains] result <==> (exists i int :: 0 <= i < len(s) && eq(s[i]))

func Len
params s
ensures [C01:len] result == len(s)

// number of first occurrences among the first n elements
def isFirst[T](a [int]T, i int) bool = forall j int :: 0 <= j < i ==> a[j] != a[i]
rec firsts[T](a [int]T, n int) int = n <= 0 ? 0 : firsts(a, n-1) + (isFirst(a, n-1) ? 1 : 0)

func Unique
params s
results r, n
loop 1
invariant idx == firsts(seq(s), $it) && 0 <= idx <= $it
invariant len(uniqS) == len(s) && off(uniqS) == 0 && fresh(uniqS)
spare invariant 0 <= firsts(seq(s), $it) <= $it && len(uniqS) == firsts(seq(s), $it)
spare invariant off(uniqS) == 0 && fresh(uniqS) && uniqS != nil
invariant forall v T :: { v in seem } (v in seem) <==> (exists j int :: 0 <= j < $it && s[j] == v)
invariant forall i int :: 0 <= i < $it && isFirst(seq(s), i) ==> 0 <= firsts(seq(s), i) < firsts(seq(s), $it) && uniqS[firsts(seq(s), i)] == s[i]
ensures [C02:count] n == firsts(seq(s), len(s)) && len(r) == n
ensures [C02:first-occurrences] forall i int :: 0 <= i < len(s) && isFirst(seq(s), i) ==> 0 <= firsts(seq(s), i) < n && r[firsts(seq(s), i)] == s[i]
ensures [C02:no-aliasing] fresh(r) && r != nil


func Reverse
params s
loop 1
invariant 0 <= $it
invariant len(s) == old(len(s))
invariant forall i int :: 0 <= i < $it ==> s[i] == old(s[len(s)-1-i]) && s[len(s)-1-i] == old(s[i])
invariant forall i int :: $it <= i < len(s) - $it ==> s[i] == old(s[i])
invariant forall i int :: { mem(s)[i] } (i < 0 || i >= len(s)) ==> mem(s)[i] == old(mem(s)[i])
modifies M(T) at s
ensures [C02:mirror] forall i int :: 0 <= i < len(s) ==> s[i] == old(s[len(s)-1-i])
ensures [C02:nothing-else] forall i int :: { mem(s)[i] } (i < off(s) || i >= off(s) + len(s)) ==> mem(s)[i] == old(mem(s)[i])
ensures [C02:same] result == s

func Merge
params s1, s2
ensures [C02:length] len(result) == len(s1) + len(s2)
ensures [C02:first] forall i int :: 0 <= i < len(s1) ==> result[i] == s1[i]
ensures [C02:second] forall i int :: 0 <= i < len(s2) ==> result[len(s1)+i] == s2[i]
ensures [C02:no-aliasing] fresh(result) && result != nil

func IsSorted
params x
loop 1
invariant forall i int :: len(x) - $it <= i < len(x) && i > 0 ==> !(x[i] < x[i-1])
ensures [C01:sorted] result <==> (forall i int :: 0 < i < len(x) ==> !(x[i] < x[i-1]))

func IsSortedFunc
params x, less
requires less != nil
loop 1
invariant forall i int :: len(x) - $it <= i < len(x) && i > 0 ==> !less(x[i], x[i-1])
ensures [C01:sorted] result <==> (forall i int :: 0 < i < len(x) ==> !less(x[i], x[i-1]))

def isFirstBy[T, U](f gconstraints.UFunc[T, U], a [int]T, i int) bool = forall j int :: 0 <= j < i ==> f(a[j]) != f(a[i])
rec firstsBy[T, U](f gconstraints.UFunc[T, U], a [int]T, n int) int = n <= 0 ? 0 : firstsBy(f, a, n-1) + (isFirstBy(f, a, n-1) ? 1 : 0)

func UniqueWithFunc
params s, f
results r, n
requires f != nil
loop 1
invariant idx == firstsBy(f, seq(s), $it) && 0 <= idx <= $it
invariant len(uniqS) == len(s) && off(uniqS) == 0 && fresh(uniqS)
spare invariant 0 <= firstsBy(f, seq(s), $it) <= $it && len(uniqS) == firstsBy(f, seq(s), $it)
spare invariant off(uniqS) == 0 && fresh(uniqS) && uniqS != nil
invariant forall v U :: { v in seem } (v in seem) <==> (exists j int :: 0 <= j < $it && f(s[j]) == v)
invariant forall i int :: 0 <= i < $it && isFirstBy(f, seq(s), i) ==> 0 <= firstsBy(f, seq(s), i) < firstsBy(f, seq(s), $it) && uniqS[firstsBy(f, seq(s), i)] == s[i]
ensures [C02:count] n == firstsBy(f, seq(s), len(s)) && len(r) == n
ensures [C02:first-occurrences] forall i int :: 0 <= i < len(s) && isFirstBy(f, seq(s), i) ==> 0 <= firstsBy(f, seq(s), i) < n && r[firstsBy(f, seq(s), i)] == s[i]
ensures [C02:no-aliasing] fresh(r) && r != nil

func Shuffle
params collection
modifies M(T) at collection
loop 1
invariant bag(old(seq(collection)), seq(collection), len(collection))
invariant [C31:inside] forall i int :: { mem(collection)[i] } (i < 0 || i >= len(collection)) ==> mem(collection)[i] == old(mem(collection)[i])
head use forall i int, j int, v T :: { cnt(seq(collection)[i := collection[j]][j := collection[i]], len(collection), v) } 0 <= i < len(collection) && 0 <= j < len(collection) ==> cntSwap(seq(collection), len(collection), i, j, v)
loop 2
invariant bag(old(seq(collection)), seq(collection), len(collection))
invariant [C31:inside] forall i int :: { mem(collection)[i] } (i < 0 || i >= len(collection)) ==> mem(collection)[i] == old(mem(collection)[i])
head use forall i int, j int, v T :: { cnt(seq(collection)[i := collection[j]][j := collection[i]], len(collection), v) } 0 <= i < len(collection) && 0 <= j < len(collection) ==> cntSwap(seq(collection), len(collection), i, j, v)
ensures [C31:same-slice] len(result) == len(collection) && result == collection
ensures [C31:elements] bag(old(seq(collection)), seq(result), len(collection))
ensures [C31:inside] forall i int :: { mem(collection)[i] } (i < 0 || i >= len(collection)) ==> mem(collection)[i] == old(mem(collection)[i])
