package glist

// The sequence of a list: at[1] .. at[len] are its elements in order, at[0] and at[len+1] its root; pos is the inverse.
ghost field List.at [int]*Element[T]
ghost field List.pos [*Element[T]]int

// e is an element of l (or its root) in the current sequence
def in0[T](l *List[T], e *Element[T]) bool = e != nil && 0 <= l.pos[e] <= l.len && l.at[l.pos[e]] == e
def member[T](l *List[T], e *Element[T]) bool = e != nil && 1 <= l.pos[e] <= l.len && l.at[l.pos[e]] == e

def ring[T](l *List[T]) bool =
  l != nil && 0 <= l.len && l.len < 1152921504606846976
  && l.at[0] == &l.root && l.at[l.len+1] == &l.root && l.pos[&l.root] == 0 && (&l.root).list == nil
  && (forall i int :: { l.at[i] } 1 <= i <= l.len ==> l.at[i] != nil && l.at[i].list == l && l.pos[l.at[i]] == i && alloced(l.at[i]))
  && (forall e *Element[T] :: { e.next } in0(l, e) ==> e.next == l.at[l.pos[e]+1])
  && (forall e *Element[T] :: { e.prev } member(l, e) ==> e.prev == l.at[l.pos[e]-1])
  && (&l.root).next == l.at[1] && (&l.root).prev == l.at[l.len] && l.at[1] != nil && l.at[l.len] != nil

// a list as the zero value
def unset[T](l *List[T]) bool = l != nil && l.len == 0 && (&l.root).next == nil && (&l.root).prev == nil && (&l.root).list == nil
def valid[T](l *List[T]) bool = unset(l) || ring(l)
// an element carrying the mark of l is in its current sequence (not one of a list cleared by Init)
def live[T](l *List[T], e *Element[T]) bool = e != nil && e != &l.root && (e.list == l ==> ring(l) && member(l, e))

func Element.Next
params e
requires e != nil && (e.list != nil ==> ring(e.list) && member(e.list, e))
ensures [C06:next] result == (e.list != nil && e.list.pos[e] < e.list.len ? e.list.at[e.list.pos[e]+1] : nil)

func Element.Prev
params e
requires e != nil && (e.list != nil ==> ring(e.list) && member(e.list, e))
ensures [C06:prev] result == (e.list != nil && e.list.pos[e] > 1 ? e.list.at[e.list.pos[e]-1] : nil)

func List.Init
params l
requires l != nil && (&l.root).list == nil
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at &l.root
modifies Element.prev at &l.root
set l.at@(i int) := &l.root
set l.pos@(e *Element[T]) := 0
ensures [C06:empty] result == l && ring(l) && l.len == 0

func New
ensures [C06:new] fresh(result) && ring(result) && result.len == 0

func List.Len
params l
ensures [C06:len] result == l.len

func List.Front
params l
requires valid(l)
ensures [C06:front] result == (l.len == 0 ? nil : l.at[1])

func List.Back
params l
requires valid(l)
ensures [C06:back] result == (l.len == 0 ? nil : l.at[l.len])

func List.lazyInit
params l
requires valid(l)
modifies List.at at l
modifies List.len at l
modifies List.pos at l
modifies Element.next at &l.root
modifies Element.prev at &l.root
ensures ring(l) && l.len == old(l.len)
ensures (&l.root).next == old((&l.root).next) || old((&l.root).next) == nil
ensures old(ring(l)) ==> l.at == old(l.at) && l.pos == old(l.pos) && (&l.root).next == old((&l.root).next) && (&l.root).prev == old((&l.root).prev)

func List.insert
params l, e, at
requires ring(l) && in0(l, at) && l.len < 1152921504606846975
requires e != nil && e != &l.root && e.list == nil && alloced(e)
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at at and e
modifies Element.prev at at.next and e
modifies Element.list at e
set l.at@(i int) := i <= old(l.pos[at]) ? old(l.at)[i] : i == old(l.pos[at]) + 1 ? e : old(l.at)[i-1]
set l.pos@(x *Element[T]) := x == e ? old(l.pos[at]) + 1 : old(l.pos)[x] <= old(l.pos[at]) ? old(l.pos)[x] : old(l.pos)[x] + 1
ensures [C06:insert] result == e && ring(l) && l.len == old(l.len) + 1
ensures [C06:sequence] forall i int :: { l.at[i] } l.at[i] == (i <= old(l.pos[at]) ? old(l.at)[i] : i == old(l.pos[at]) + 1 ? e : old(l.at)[i-1])
ensures member(l, e)
ensures forall x *Element[T] :: { l.pos[x] } x != e ==> l.pos[x] == (old(l.pos)[x] <= old(l.pos[at]) ? old(l.pos)[x] : old(l.pos)[x] + 1)

func List.insertValue
params l, v, at
requires ring(l) && in0(l, at) && l.len < 1152921504606846975
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at at and fresh
modifies Element.prev at at.next and fresh
modifies Element.list at fresh
modifies Element.Value at fresh
ensures [C06:insert] fresh(result) && result.Value == v && ring(l) && l.len == old(l.len) + 1
ensures [C06:sequence] forall i int :: { l.at[i] } l.at[i] == (i <= old(l.pos[at]) ? old(l.at)[i] : i == old(l.pos[at]) + 1 ? result : old(l.at)[i-1])
ensures member(l, result)
ensures forall x *Element[T] :: { l.pos[x] } x != result ==> l.pos[x] == (old(l.pos)[x] <= old(l.pos[at]) ? old(l.pos)[x] : old(l.pos)[x] + 1)

func List.remove
params l, e
requires ring(l) && member(l, e)
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at e.prev and e
modifies Element.prev at e.next and e
modifies Element.list at e
set l.at@(i int) := i < old(l.pos[e]) ? old(l.at)[i] : old(l.at)[i+1]
set l.pos@(x *Element[T]) := x == e ? 0 : old(l.pos)[x] < old(l.pos[e]) ? old(l.pos)[x] : old(l.pos)[x] - 1
ensures [C06:remove] ring(l) && l.len == old(l.len) - 1 && e.list == nil
ensures [C06:sequence] forall i int :: { l.at[i] } l.at[i] == (i < old(l.pos[e]) ? old(l.at)[i] : old(l.at)[i+1])

// where e ends up in the sequence when it is taken from position pe and put after position pa
def movedAt[T](a [int]*Element[T], pe int, pa int, i int) *Element[T] =
  pa < pe ? (i <= pa || i > pe ? a[i] : i == pa+1 ? a[pe] : a[i-1]) : (i < pe || i > pa ? a[i] : i == pa ? a[pe] : a[i+1])
def movedPos(p int, pe int, pa int) int =
  pa < pe ? (p <= pa || p > pe ? p : p == pe ? pa+1 : p+1) : (p < pe || p > pa ? p : p == pe ? pa : p-1)

func List.move
params l, e, at
requires ring(l) && member(l, e) && in0(l, at)
modifies List.at at l
modifies List.pos at l
modifies Element.next at e.prev and e and at
modifies Element.prev at e.next and e and at.next
set l.at@(i int) := movedAt(old(l.at), old(l.pos[e]), old(l.pos[at]), i)
set l.pos@(x *Element[T]) := movedPos(old(l.pos)[x], old(l.pos[e]), old(l.pos[at]))
ensures [C06:moved] ring(l)
ensures [C06:sequence] forall i int :: { l.at[i] } l.at[i] == movedAt(old(l.at), old(l.pos[e]), old(l.pos[at]), i)

func List.Remove
params l, e
requires valid(l) && live(l, e)
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at e.prev and e
modifies Element.prev at e.next and e
modifies Element.list at e
ensures [C06:value] result == box(old(e.Value))
ensures [C06:foreign] old(e.list) != l ==> l.len == old(l.len) && l.at == old(l.at) && l.pos == old(l.pos) && valid(l) && e.next == old(e.next) && e.prev == old(e.prev) && e.list == old(e.list) && (old(e.prev) != nil ==> old(e.prev).next == old(e.prev.next)) && (old(e.next) != nil ==> old(e.next).prev == old(e.next.prev))
ensures [C06:remove] old(e.list) == l ==> ring(l) && l.len == old(l.len) - 1 && e.list == nil && (forall i int :: { l.at[i] } l.at[i] == (i < old(l.pos[e]) ? old(l.at)[i] : old(l.at)[i+1]))

func List.PushFront
params l, v
requires valid(l) && l.len < 1152921504606846975
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at &l.root and &l.root and fresh
modifies Element.prev at &l.root and (&l.root).next and fresh
modifies Element.list at fresh
modifies Element.Value at fresh
ensures [C06:insert] fresh(result) && result.Value == v && ring(l) && l.len == old(l.len) + 1 && member(l, result)
ensures [C06:sequence] forall i int :: { l.at[i] } 1 <= i <= l.len ==> l.at[i] == (i < 1 ? old(l.at)[i] : i == 1 ? result : old(l.at)[i-1])

func List.PushBack
params l, v
requires valid(l) && l.len < 1152921504606846975
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at (&l.root).prev and &l.root and fresh
modifies Element.prev at &l.root and fresh
modifies Element.list at fresh
modifies Element.Value at fresh
ensures [C06:insert] fresh(result) && result.Value == v && ring(l) && l.len == old(l.len) + 1 && member(l, result)
ensures [C06:sequence] forall i int :: { l.at[i] } 1 <= i <= l.len ==> l.at[i] == (i < old(l.len) + 1 ? old(l.at)[i] : i == old(l.len) + 1 ? result : old(l.at)[i-1])

func List.InsertBefore
params l, v, mark
requires valid(l) && live(l, mark) && l.len < 1152921504606846975
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at mark.prev and fresh
modifies Element.prev at mark.prev.next and fresh
modifies Element.list at fresh
modifies Element.Value at fresh
ensures [C06:foreign] mark.list != l ==> result == nil && l.len == old(l.len) && l.at == old(l.at) && l.pos == old(l.pos) && valid(l) && (forall e *Element[T] :: { e.next } !fresh(e) ==> e.next == old(e.next)) && (forall e *Element[T] :: { e.prev } !fresh(e) ==> e.prev == old(e.prev))
ensures [C06:insert] mark.list == l ==> fresh(result) && result.Value == v && ring(l) && l.len == old(l.len) + 1 && member(l, result)
ensures [C06:sequence] mark.list == l ==> (forall i int :: { l.at[i] } l.at[i] == (i < old(l.pos[mark]) ? old(l.at)[i] : i == old(l.pos[mark]) ? result : old(l.at)[i-1]))

func List.InsertAfter
params l, v, mark
requires valid(l) && live(l, mark) && l.len < 1152921504606846975
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at mark and fresh
modifies Element.prev at mark.next and fresh
modifies Element.list at fresh
modifies Element.Value at fresh
ensures [C06:foreign] mark.list != l ==> result == nil && l.len == old(l.len) && l.at == old(l.at) && l.pos == old(l.pos) && valid(l) && (forall e *Element[T] :: { e.next } !fresh(e) ==> e.next == old(e.next)) && (forall e *Element[T] :: { e.prev } !fresh(e) ==> e.prev == old(e.prev))
ensures [C06:insert] mark.list == l ==> fresh(result) && result.Value == v && ring(l) && l.len == old(l.len) + 1 && member(l, result)
ensures [C06:sequence] mark.list == l ==> (forall i int :: { l.at[i] } l.at[i] == (i < old(l.pos[mark]) + 1 ? old(l.at)[i] : i == old(l.pos[mark]) + 1 ? result : old(l.at)[i-1]))

func List.MoveToFront
params l, e
requires valid(l) && live(l, e)
modifies List.at at l
modifies List.pos at l
modifies Element.next at e.prev and e and &l.root
modifies Element.prev at e.next and e and (&l.root).next
ensures [C06:foreign] !(e.list == l) ==> l.at == old(l.at) && l.pos == old(l.pos) && valid(l) && (forall x *Element[T] :: { x.next } !fresh(x) ==> x.next == old(x.next)) && (forall x *Element[T] :: { x.prev } !fresh(x) ==> x.prev == old(x.prev))
ensures [C06:moved] e.list == l ==> ring(l)
ensures [C06:sequence] e.list == l ==> (forall i int :: { l.at[i] } l.at[i] == movedAt(old(l.at), old(l.pos[e]), 0, i))

func List.MoveToBack
params l, e
requires valid(l) && live(l, e)
modifies List.at at l
modifies List.pos at l
modifies Element.next at e.prev and e and (&l.root).prev
modifies Element.prev at e.next and e and (&l.root).prev.next
ensures [C06:foreign] !(e.list == l) ==> l.at == old(l.at) && l.pos == old(l.pos) && valid(l) && (forall x *Element[T] :: { x.next } !fresh(x) ==> x.next == old(x.next)) && (forall x *Element[T] :: { x.prev } !fresh(x) ==> x.prev == old(x.prev))
ensures [C06:moved] e.list == l ==> ring(l)
ensures [C06:sequence] e.list == l ==> (forall i int :: { l.at[i] } l.at[i] == movedAt(old(l.at), old(l.pos[e]), old(l.len), i))

func List.MoveBefore
params l, e, mark
requires valid(l) && live(l, e) && live(l, mark)
modifies List.at at l
modifies List.pos at l
modifies Element.next at e.prev and e and mark.prev
modifies Element.prev at e.next and e and mark.prev.next
ensures [C06:foreign] !(e.list == l && mark.list == l && e != mark) ==> l.at == old(l.at) && l.pos == old(l.pos) && valid(l) && (forall x *Element[T] :: { x.next } !fresh(x) ==> x.next == old(x.next)) && (forall x *Element[T] :: { x.prev } !fresh(x) ==> x.prev == old(x.prev))
ensures [C06:moved] e.list == l && mark.list == l && e != mark ==> ring(l)
ensures [C06:sequence] e.list == l && mark.list == l && e != mark ==> (forall i int :: { l.at[i] } l.at[i] == movedAt(old(l.at), old(l.pos[e]), old(l.pos[mark]) - 1, i))

func List.MoveAfter
params l, e, mark
requires valid(l) && live(l, e) && live(l, mark)
modifies List.at at l
modifies List.pos at l
modifies Element.next at e.prev and e and mark
modifies Element.prev at e.next and e and mark.next
ensures [C06:foreign] !(e.list == l && mark.list == l && e != mark) ==> l.at == old(l.at) && l.pos == old(l.pos) && valid(l) && (forall x *Element[T] :: { x.next } !fresh(x) ==> x.next == old(x.next)) && (forall x *Element[T] :: { x.prev } !fresh(x) ==> x.prev == old(x.prev))
ensures [C06:moved] e.list == l && mark.list == l && e != mark ==> ring(l)
ensures [C06:sequence] e.list == l && mark.list == l && e != mark ==> (forall i int :: { l.at[i] } l.at[i] == movedAt(old(l.at), old(l.pos[e]), old(l.pos[mark]), i))

func List.PushBackList
params l, other
requires valid(l) && valid(other) && l.len + other.len < 1152921504606846975
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at (&l.root).prev and &l.root and fresh
modifies Element.prev at &l.root and fresh
modifies Element.list at fresh
modifies Element.Value at fresh
loop 1
invariant ring(l) && valid(other) && 0 <= i <= old(other.len)
invariant l.len == old(l.len) + (old(other.len) - i)
invariant i > 0 ==> e.list == other && ring(other) && member(other, e) && other.pos[e] == old(other.len) - i + 1
invariant forall j int :: { l.at[j] } 0 <= j <= old(l.len) ==> l.at[j] == (j == 0 ? &l.root : old(l.at)[j])
invariant forall j int :: { l.at[j] } old(l.len) < j <= l.len ==> fresh(l.at[j]) && l.at[j].Value == old(other.at)[j - old(l.len)].Value
ensures [C06:list] ring(l) && l.len == old(l.len) + old(other.len)
ensures [C06:kept] forall j int :: { l.at[j] } 1 <= j <= old(l.len) ==> l.at[j] == old(l.at)[j]
ensures [C06:copied] forall j int :: { l.at[j] } old(l.len) < j <= l.len ==> fresh(l.at[j]) && l.at[j].Value == old(other.at)[j - old(l.len)].Value

func List.PushFrontList
params l, other
requires valid(l) && valid(other) && l.len + other.len < 1152921504606846975
modifies List.len at l
modifies List.at at l
modifies List.pos at l
modifies Element.next at &l.root and fresh
modifies Element.prev at &l.root and (&l.root).next and fresh
modifies Element.list at fresh
modifies Element.Value at fresh
loop 1
invariant ring(l) && valid(other) && 0 <= i <= old(other.len)
invariant l.len == old(l.len) + (old(other.len) - i)
invariant i > 0 ==> e.list == other && ring(other) && member(other, e) && e == old(other.at)[i]
invariant other != l ==> other.at == old(other.at) && other.pos == old(other.pos) && other.len == old(other.len)
invariant forall j int :: { l.at[j] } old(other.len) - i < j <= l.len ==> l.at[j] == old(l.at)[j - (old(other.len) - i)]
invariant forall j int :: { l.at[j] } 1 <= j <= old(other.len) - i ==> fresh(l.at[j]) && l.at[j].Value == old(other.at)[j + i].Value
ensures [C06:list] ring(l) && l.len == old(l.len) + old(other.len)
ensures [C06:kept] forall j int :: { l.at[j] } old(other.len) < j <= l.len ==> l.at[j] == old(l.at)[j - old(other.len)]
ensures [C06:copied] forall j int :: { l.at[j] } 1 <= j <= old(other.len) ==> fresh(l.at[j]) && l.at[j].Value == old(other.at)[j].Value

func List.Range
params l, f
option trace
option shareloops
requires valid(l) && f != nil
loop 1
invariant e == nil || member(l, e) && ring(l)
invariant [C06:range] calls(f) == old(calls(f)) + (e == nil ? l.len : l.pos[e] - 1)
invariant [C06:range] forall c int :: { callarg(f, c, 0, ty(*Element[T])) } old(calls(f)) <= c < calls(f) ==> callarg(f, c, 0, ty(*Element[T])) == l.at[c - old(calls(f)) + 1]
decreases e == nil ? 0 : l.len + 1 - l.pos[e]
ensures [C06:range] calls(f) == old(calls(f)) + l.len
ensures [C06:range] forall c int :: { callarg(f, c, 0, ty(*Element[T])) } old(calls(f)) <= c < calls(f) ==> callarg(f, c, 0, ty(*Element[T])) == l.at[c - old(calls(f)) + 1]
