package gheap

// number of occurrences of v among the first n elements
rec cnt[T](a [int]T, n int, v T) int = n <= 0 ? 0 : cnt(a, n-1, v) + (a[n-1] == v ? 1 : 0)

lemma cntSame[T](a [int]T, b [int]T, n int, v T)
requires n >= 0
requires forall i int :: 0 <= i < n ==> a[i] == b[i]
ensures cnt(a, n, v) == cnt(b, n, v)
induction n
use n > 0 ==> cntSame(a, b, n-1, v)

lemma cntSnoc[T](a [int]T, b [int]T, n int, v T)
requires n >= 0
requires forall i int :: 0 <= i < n ==> a[i] == b[i]
ensures cnt(b, n+1, v) == cnt(a, n, v) + (b[n] == v ? 1 : 0)
use cntSame(a, b, n, v)

lemma cntStore[T](a [int]T, n int, i int, w T, v T)
requires 0 <= i < n
ensures cnt(a[i := w], n, v) == cnt(a, n, v) - (a[i] == v ? 1 : 0) + (w == v ? 1 : 0)
induction n
use i < n-1 ==> cntStore(a, n-1, i, w, v)
use i == n-1 ==> cntSame(a[i := w], a, n-1, v)

lemma cntSwap[T](a [int]T, n int, i int, j int, v T)
requires 0 <= i < n && 0 <= j < n
ensures cnt(a[i := a[j]][j := a[i]], n, v) == cnt(a, n, v)
use cntStore(a, n, i, a[j], v)
use cntStore(a[i := a[j]], n, j, a[i], v)

// b is a rearrangement of a (first n elements)
def bag[T](a [int]T, b [int]T, n int) bool = forall v T :: { cnt(b, n, v) } cnt(b, n, v) == cnt(a, n, v)

// c is a child of p
def edge(p int, c int) bool = c == 2*p+1 || c == 2*p+2
// no child is less than its parent, for the parents from lo on
def heapFrom[T](less gconstraints.Less[T], a [int]T, lo int, n int) bool =
  forall p int, c int :: { a[p], a[c] } lo <= p && c < n && edge(p, c) ==> !less(a[c], a[p])
def heapAt[T](less gconstraints.Less[T], a [int]T, n int) bool = heapFrom(less, a, 0, n)
// the same except for the children of (down) or the parent of (up) position i, whose children are not less than its parent
def heapDown[T](less gconstraints.Less[T], a [int]T, lo int, n int, i int) bool =
  (forall p int, c int :: { a[p], a[c] } lo <= p && c < n && edge(p, c) && p != i ==> !less(a[c], a[p]))
  && (forall p int, c int :: { a[p], a[c] } lo <= p && c < n && edge(p, i) && edge(i, c) ==> !less(a[c], a[p]))
def heapUp[T](less gconstraints.Less[T], a [int]T, n int, i int) bool =
  (forall p int, c int :: { a[p], a[c] } 0 <= p && c < n && edge(p, c) && c != i ==> !less(a[c], a[p]))
  && (forall p int, c int :: { a[p], a[c] } 0 <= p && c < n && edge(p, i) && edge(i, c) ==> !less(a[c], a[p]))

lemma rootLeast[T](less gconstraints.Less[T], a [int]T, n int, i int)
requires swo(less) && heapAt(less, a, n)
requires 0 <= i < n
ensures !less(a[i], a[0])
induction i
use i > 0 ==> rootLeast(less, a, n, (i-1)/2)
assert i > 0 ==> edge((i-1)/2, i)
assert i > 0 ==> !less(a[i], a[(i-1)/2])

func siftDown
params x, index, less
requires less != nil && swo(less)
requires 0 <= index <= len(x)
requires heapFrom(less, seq(x), index+1, len(x))
modifies M(T) at x
loop 1
invariant old(index) <= index <= len(x)
invariant len(x) == old(len(x))
invariant heapDown(less, seq(x), old(index), len(x), index)
invariant forall i int :: { mem(x)[i] } (i < old(index) || i >= len(x)) ==> mem(x)[i] == old(mem(x)[i])
invariant bag(old(seq(x)), seq(x), len(x))
head use forall i int, j int, v T :: { cnt(seq(x)[i := x[j]][j := x[i]], len(x), v) } 0 <= i < len(x) && 0 <= j < len(x) ==> cntSwap(seq(x), len(x), i, j, v)
decreases len(x) - index
ensures [C05:sift] heapFrom(less, seq(x), old(index), len(x))
ensures [C05:bag] bag(old(seq(x)), seq(x), len(x))
ensures [C05:rest] forall i int :: { mem(x)[i] } (i < old(index) || i >= len(x)) ==> mem(x)[i] == old(mem(x)[i])

func siftUp
params x, index, less
requires less != nil && swo(less)
requires 0 <= index < len(x)
requires heapUp(less, seq(x), len(x), index)
modifies M(T) at x
loop 1
invariant 0 <= index < len(x)
invariant len(x) == old(len(x))
invariant heapUp(less, seq(x), len(x), index)
invariant forall i int :: { mem(x)[i] } (i < 0 || i >= len(x)) ==> mem(x)[i] == old(mem(x)[i])
invariant bag(old(seq(x)), seq(x), len(x))
head use forall i int, j int, v T :: { cnt(seq(x)[i := x[j]][j := x[i]], len(x), v) } 0 <= i < len(x) && 0 <= j < len(x) ==> cntSwap(seq(x), len(x), i, j, v)
decreases index
ensures [C05:sift] heapAt(less, seq(x), len(x))
ensures [C05:bag] bag(old(seq(x)), seq(x), len(x))
ensures [C05:rest] forall i int :: { mem(x)[i] } (i < 0 || i >= len(x)) ==> mem(x)[i] == old(mem(x)[i])

func heapSort
params x, less
requires less != nil && swo(less)
modifies M(T) at x
loop 1
invariant -1 <= i < len(x)
spare invariant 0 <= $it && $it <= len(x)/2
spare invariant heapFrom(less, seq(x), len(x)/2 - $it, len(x))
invariant len(x) == old(len(x))
invariant heapFrom(less, seq(x), i+1, len(x))
invariant bag(old(seq(x)), seq(x), len(x))
invariant forall i int :: { mem(x)[i] } (i < 0 || i >= len(x)) ==> mem(x)[i] == old(mem(x)[i])
ensures [C05:heapify] heapAt(less, seq(x), len(x))
ensures [C05:bag] bag(old(seq(x)), seq(x), len(x))
ensures [C05:rest] forall i int :: { mem(x)[i] } (i < 0 || i >= len(x)) ==> mem(x)[i] == old(mem(x)[i])

pred heapInv[T](h *Heap[T]) = h.less != nil && swo(h.less) && heapAt(h.less, seq(h.data), len(h.data))

func New
params less
requires less != nil && swo(less)
ensures [C05:empty] fresh(result) && len(result.data) == 0
ensures [C05:inv] heapInv(result)
ensures [C05:order] result.less == less

func NewWithData
params data, less
requires less != nil && swo(less)
modifies M(T) at data
ensures [C05:contents] fresh(result) && len(result.data) == len(data) && bag(old(seq(data)), seq(result.data), len(data))
ensures [C05:inv] heapInv(result)
ensures [C05:order] result.less == less

func Push
params h, v
requires h != nil && heapInv(h)
entry use forall a [int]T, b [int]T, m int, w T :: { cnt(a, len(h.data), w), cnt(b, m, w) } m == len(h.data) + 1 && (forall i int :: 0 <= i < len(h.data) ==> a[i] == b[i]) ==> cntSnoc(a, b, len(h.data), w)
modifies M(T) at h.data
modifies Heap.data at h
ensures [C05:inv] heapInv(h)
ensures [C05:order] h.less == old(h.less)
ensures [C05:size] len(h.data) == old(len(h.data)) + 1
ensures [C05:contents] forall w T :: { cnt(seq(h.data), len(h.data), w) } cnt(seq(h.data), len(h.data), w) == old(cnt(seq(h.data), len(h.data), w)) + (w == v ? 1 : 0)

func Pop
params h
requires h != nil && heapInv(h)
requires len(h.data) > 0
entry use forall w T :: { cnt(seq(h.data), len(h.data), w) } len(h.data) > 1 ==> cntStore(seq(h.data), len(h.data)-1, 0, h.data[len(h.data)-1], w)
modifies M(T) at h.data
modifies Heap.data at h
ensures [C05:inv] heapInv(h)
ensures [C05:order] h.less == old(h.less)
ensures [C05:least] forall i int :: 0 <= i < old(len(h.data)) ==> !h.less(old(seq(h.data))[i], result)
ensures [C05:size] len(h.data) == old(len(h.data)) - 1
ensures [C05:contents] forall w T :: { cnt(seq(h.data), len(h.data), w) } cnt(seq(h.data), len(h.data), w) == old(cnt(seq(h.data), len(h.data), w)) - (w == result ? 1 : 0)
use forall i int :: { old(seq(h.data))[i] } 0 <= i < old(len(h.data)) ==> rootLeast(old(h.less), old(seq(h.data)), old(len(h.data)), i)
