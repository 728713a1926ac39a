package gring

// Every element of a ring in use points to one representative, which lists the ring's elements in forward order.
ghost field Ring.rep *Ring[V]
ghost field Ring.pos int
ghost field Ring.at [int]*Ring[V]
ghost field Ring.size int

def wrap(a int, n int) int = a < n ? a : a - n
// steps forward from position b to position a
def rel(a int, b int, n int) int = a >= b ? a - b : a - b + n

// representatives represent themselves
def reps[V](r *Ring[V]) bool = forall x *Ring[V] :: { x.rep } x != nil && x.rep != nil ==> x.rep.rep == x.rep && alloced(x.rep)

def single[V](r *Ring[V]) bool = r != nil && reps(r) && r.next == nil && r.prev == nil && r.rep == nil
def cyc[V](r *Ring[V]) bool =
  r != nil && reps(r) && r.next != nil && r.rep != nil && r.rep.rep == r.rep && 1 <= r.rep.size < 1125899906842624
  && (forall i int :: { r.rep.at[i] } 0 <= i < r.rep.size ==> r.rep.at[i] != nil && alloced(r.rep.at[i]) && r.rep.at[i].rep == r.rep && r.rep.at[i].pos == i)
  && (forall x *Ring[V] :: { x.pos } x != nil && x.rep == r.rep ==> 0 <= x.pos < r.rep.size && r.rep.at[x.pos] == x)
  && (forall x *Ring[V] :: { x.next } x != nil && x.rep == r.rep ==> x.next == r.rep.at[x.pos + 1 == r.rep.size ? 0 : x.pos + 1])
  && (forall x *Ring[V] :: { x.prev } x != nil && x.rep == r.rep ==> x.prev == r.rep.at[x.pos == 0 ? r.rep.size - 1 : x.pos - 1])
// a ring: the zero value is a ring of one element
def ok[V](r *Ring[V]) bool = single(r) || cyc(r)
def count[V](r *Ring[V]) int = r.next == nil ? 1 : r.rep.size
// the element k steps forward from r (0 <= k <= count)
def nth[V](r *Ring[V], k int) *Ring[V] = r.next == nil ? r : r.rep.at[wrap(r.pos + k, r.rep.size)]

func Ring.init
params r
requires single(r)
modifies Ring.next at r, Ring.prev at r, Ring.rep at r, Ring.pos at r, Ring.at at r, Ring.size at r
set r.rep := r
set r.pos := 0
set r.size := 1
set r.at@(i int) := r
ensures [C07:init] result == r && cyc(r) && count(r) == 1 && r.next == r && r.prev == r && r.rep == r

func Ring.Next
params r
requires ok(r)
modifies Ring.next at r, Ring.prev at r, Ring.rep at r, Ring.pos at r, Ring.at at r, Ring.size at r
ensures [C07:next] cyc(r) && result == r.next && result == old(nth(r, 1)) && count(r) == old(count(r))
ensures old(cyc(r)) ==> r.next == old(r.next) && r.prev == old(r.prev) && r.rep == old(r.rep) && r.pos == old(r.pos) && r.at == old(r.at) && r.size == old(r.size)
ensures !old(cyc(r)) ==> r.next == r && r.prev == r && r.rep == r

func Ring.Prev
params r
requires ok(r)
modifies Ring.next at r, Ring.prev at r, Ring.rep at r, Ring.pos at r, Ring.at at r, Ring.size at r
ensures [C07:prev] cyc(r) && result == r.prev && (old(r.next) == nil ? result == r : result == old(r.rep.at[r.pos == 0 ? r.rep.size - 1 : r.pos - 1])) && count(r) == old(count(r))
ensures old(cyc(r)) ==> r.next == old(r.next) && r.prev == old(r.prev) && r.rep == old(r.rep) && r.pos == old(r.pos) && r.at == old(r.at) && r.size == old(r.size)
ensures !old(cyc(r)) ==> r.next == r && r.prev == r && r.rep == r

func Ring.Len
params r
option nilrecv
requires r == nil || ok(r)
modifies Ring.next at r, Ring.prev at r, Ring.rep at r, Ring.pos at r, Ring.at at r, Ring.size at r
loop 1
invariant cyc(r) && 1 <= n <= count(r) && p == nth(r, n) && count(r) == old(count(r))
decreases count(r) - n
ensures [C07:len] result == (r == nil ? 0 : old(count(r)))
ensures r != nil ==> cyc(r) && count(r) == old(count(r))

func Ring.Do
params r, f
option trace, nilrecv
requires (r == nil || ok(r)) && f != nil
modifies Ring.next at r, Ring.prev at r, Ring.rep at r, Ring.pos at r, Ring.at at r, Ring.size at r
loop 1
invariant cyc(r) && count(r) == old(count(r)) && 1 <= calls(f) - old(calls(f)) <= count(r) && p == nth(r, calls(f) - old(calls(f)))
invariant [C07:do] forall c int :: { callarg(f, c, 0, ty(any)) } old(calls(f)) <= c < calls(f) ==> callarg(f, c, 0, ty(any)) == box(old(nth(r, c - old(calls(f))).Value))
decreases count(r) - (calls(f) - old(calls(f)))
ensures [C07:do] calls(f) == old(calls(f)) + (r == nil ? 0 : old(count(r)))
ensures [C07:do] forall c int :: { callarg(f, c, 0, ty(any)) } old(calls(f)) <= c < calls(f) ==> callarg(f, c, 0, ty(any)) == box(old(nth(r, c - old(calls(f))).Value))

// position p moved by n (either sign) in a ring of size elements
rec after(p int, n int, size int) int = n == 0 ? p : n > 0 ? after(p + 1 == size ? 0 : p + 1, n - 1, size) : after(p == 0 ? size - 1 : p - 1, n + 1, size)

func Ring.Move
params r, n
requires ok(r)
modifies Ring.next at r, Ring.prev at r, Ring.rep at r, Ring.pos at r, Ring.at at r, Ring.size at r
loop 1
invariant r != nil && r.rep == old(r).rep && cyc(r)
invariant n <= 0
invariant after(r.pos, n, r.rep.size) == after(old(r).pos, old(n), r.rep.size)
loop 2
invariant r != nil && r.rep == old(r).rep && cyc(r)
invariant n >= 0
invariant after(r.pos, n, r.rep.size) == after(old(r).pos, old(n), r.rep.size)
ensures cyc(old(r)) && old(r).rep.size == old(count(r))
ensures old(cyc(r)) ==> old(r).next == old(r.next) && old(r).prev == old(r.prev) && old(r).rep == old(r.rep) && old(r).pos == old(r.pos) && old(r).at == old(r.at) && old(r).size == old(r.size)
ensures [C07:move] result.rep == old(r).rep && (old(r.next) == nil ? result == old(r) : result.pos == old(after(r.pos, n, r.rep.size)) && result == old(r.rep.at[after(r.pos, n, r.rep.size)]))

func New
params n
requires n < 1125899906842624
requires forall x *Ring[V] :: { x.rep } x != nil && x.rep != nil ==> x.rep.rep == x.rep && alloced(x.rep)
loop 1
before set r.at@(k int) := r
before set r.rep := r
before set r.pos := 0
before set r.size := n
step set r.at := r.at[i := p]
step set p.rep := r
step set p.pos := i
invariant 1 <= i <= n && fresh(r) && fresh(p) && r.rep == r && r.size == n && r.pos == 0 && (forall x *Ring[V] :: { x.rep } x != nil && x.rep != nil ==> x.rep.rep == x.rep && alloced(x.rep)) && p == r.at[i-1]
invariant forall k int :: { r.at[k] } 0 <= k < i ==> r.at[k] != nil && fresh(r.at[k]) && alloced(r.at[k]) && r.at[k].rep == r && r.at[k].pos == k
invariant forall x *Ring[V] :: { x.pos } x != nil && x.rep == r ==> 0 <= x.pos < i && r.at[x.pos] == x
invariant forall x *Ring[V] :: { x.next } x != nil && x.rep == r && x.pos < i - 1 ==> x.next == r.at[x.pos + 1]
invariant forall x *Ring[V] :: { x.prev } x != nil && x.rep == r && x.pos > 0 ==> x.prev == r.at[x.pos - 1]
ensures [C07:none] n <= 0 ==> result == nil
ensures [C07:new] n > 0 ==> fresh(result) && cyc(result) && count(result) == n

// number of elements strictly between r and s (going forward, the whole rest when s is r)
def between(p int, q int, n int) int = (q == p ? n : rel(q, p, n)) - 1

// r and s are on one ring; the number of elements between them
def same[V](r *Ring[V], s *Ring[V]) bool = r == s || r.next != nil && s.next != nil && r.rep == s.rep
def inner[V](r *Ring[V], s *Ring[V]) int = r.next == nil ? 0 : between(r.pos, s.pos, r.rep.size)

func Ring.Link
params r, s
requires ok(r) && (s == nil || ok(s)) && count(r) + (s == nil ? 0 : count(s)) < 1125899906842624
modifies Ring.next, Ring.prev, Ring.rep, Ring.pos, Ring.at, Ring.size
set result.at@(i int) := s != nil && r.rep == s.rep && between(r.pos, s.pos, r.rep.size) > 0 ? r.rep.at[wrap(r.pos + 1 + i, r.rep.size)] : result.at[i]
set result.size := s != nil && r.rep == s.rep && between(r.pos, s.pos, r.rep.size) > 0 ? between(r.pos, s.pos, r.rep.size) : result.size
set r.at@(i int) := s == nil ? r.at[i] : i == 0 ? r : r.rep == s.rep || i <= s.rep.size ? s.rep.at[wrap(s.pos + i - 1, s.rep.size)] : r.rep.at[wrap(r.pos + i - s.rep.size, r.rep.size)]
set r.size := s == nil ? r.size : r.rep == s.rep ? r.rep.size - between(r.pos, s.pos, r.rep.size) : r.rep.size + s.rep.size
set forall x *Ring[V] :: x.rep := s == nil || x.rep != r.rep && x.rep != s.rep ? x.rep : r.rep == s.rep && 0 < rel(x.pos, r.pos, r.rep.size) && rel(x.pos, r.pos, r.rep.size) <= between(r.pos, s.pos, r.rep.size) ? result : r
set forall x *Ring[V] :: x.pos := s == nil || x.rep != r.rep && x.rep != s.rep ? x.pos : x == r ? 0 : r.rep == s.rep ? (rel(x.pos, r.pos, r.rep.size) <= between(r.pos, s.pos, r.rep.size) ? rel(x.pos, r.pos, r.rep.size) - 1 : rel(x.pos, r.pos, r.rep.size) - between(r.pos, s.pos, r.rep.size)) : x.rep == r.rep ? rel(x.pos, r.pos, r.rep.size) + s.rep.size : rel(x.pos, s.pos, s.rep.size) + 1
ensures [C07:result] result == old(nth(r, 1))
ensures [C07:none] s == nil ==> cyc(r) && count(r) == old(count(r)) && (forall k int :: { nth(r, k) } 0 <= k <= count(r) ==> nth(r, k) == old(nth(r, k)))
ensures [C07:link] s != nil ==> cyc(r)
ensures [C07:splice] s != nil && !old(same(r, s)) ==> r.rep == r && r.pos == 0 && r.size == old(count(r)) + old(count(s)) && (forall k int :: { r.at[k] } 0 < k < r.size ==> r.at[k] == (k <= old(count(s)) ? old(nth(s, k-1)) : old(nth(r, k - count(s)))))
ensures [C07:cut] s != nil && old(same(r, s)) ==> r.rep == r && r.pos == 0 && r.size == old(count(r)) - old(inner(r, s)) && (forall k int :: { r.at[k] } 0 < k < r.size ==> r.at[k] == old(nth(s, k-1)))
ensures [C07:removed] s != nil && old(same(r, s)) && old(inner(r, s)) > 0 ==> cyc(result) && result.rep == result && result.pos == 0 && result.size == old(inner(r, s)) && (forall k int :: { result.at[k] } 0 <= k < result.size ==> result.at[k] == old(nth(r, k+1)))
ensures [C07:others] forall x *Ring[V] :: { x.next } { x.prev } { x.rep } { x.pos } { x.at } { x.size } x != nil && x != r && x != s && (old(x.rep) == nil || old(x.rep) != old(r.rep) && (s == nil || old(x.rep) != old(s.rep))) ==> x.next == old(x.next) && x.prev == old(x.prev) && x.rep == old(x.rep) && x.pos == old(x.pos) && x.at == old(x.at) && x.size == old(x.size)

lemma modStep(n int, k int)
requires n >= 0 && k > 0
ensures (n+1) % k == (n % k + 1 == k ? 0 : n % k + 1)
assert n == (n/k)*k + n%k
assert n % k + 1 < k ==> (n+1)/k == n/k
assert n % k + 1 == k ==> (n+1) == (n/k + 1)*k

lemma afterMod(p int, n int, k int)
requires 0 <= p < k && n >= 0
ensures after(p, n, k) == wrap(p + n % k, k)
induction n
use n > 0 ==> afterMod(p + 1 == k ? 0 : p + 1, n - 1, k)
use n > 0 ==> modStep(n - 1, k)

func Ring.Unlink
params r, n
requires ok(r) && 2*count(r) < 1125899906842624 && n < 9223372036854775807
modifies Ring.next, Ring.prev, Ring.rep, Ring.pos, Ring.at, Ring.size
exit use old(n) > 0 && old(r.next) != nil ==> afterMod(old(r.pos) + 1 == old(count(r)) ? 0 : old(r.pos) + 1, old(n), old(count(r)))
exit use old(n) > 0 && old(r.next) == nil ==> modOne(old(n))
ensures [C07:unchanged] n <= 0 ==> result == nil
ensures [C07:unchanged] ok(r) && (n <= 0 || n % old(count(r)) == 0 ==> count(r) == old(count(r)) && (forall k int :: { r.rep.at[k] } 0 < k < count(r) ==> nth(r, k) == old(nth(r, k))))
ensures [C07:unlink] n > 0 ==> count(r) == old(count(r)) - n % old(count(r)) && (forall k int :: { r.at[k] } 0 < k < count(r) ==> nth(r, k) == old(nth(r, k + n % count(r))))
ensures [C07:removed] n > 0 && n % old(count(r)) > 0 ==> cyc(result) && result.rep == result && result.pos == 0 && result.size == n % old(count(r)) && (forall k int :: { result.at[k] } 0 <= k < result.size ==> result.at[k] == old(nth(r, k+1)))

lemma modOne(n int)
ensures n % 1 == 0
