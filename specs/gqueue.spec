package gqueue

// a queue holds its elements in the order pushed: elem(q, 1) is the head
def okq[T](q *Queue[T]) bool = q != nil && q.list != nil && ring(q.list) && q.length == q.list.len
def elem[T](q *Queue[T], i int) T = q.list.at[i].Value

func New
ensures [C08:new] fresh(result) && okq(result) && result.length == 0 && fresh(result.list)

func Queue.Len
params q
ensures [C08:len] result == q.length

func IsEmpty
params q
requires q != nil
ensures [C08:empty] result <==> q.length == 0

func Queue.Push
params q, v
requires okq(q) && q.length < 1152921504606846975
modifies Queue.length at q
modifies glist.List.len at q.list
modifies glist.List.at at q.list
modifies glist.List.pos at q.list
modifies glist.Element.next at (&q.list.root).prev and &q.list.root and fresh
modifies glist.Element.prev at &q.list.root and fresh
modifies glist.Element.list at fresh
modifies glist.Element.Value at fresh
ensures [C08:push] result == nil && okq(q) && q.length == old(q.length) + 1
ensures [C08:order] elem(q, q.length) == v && fresh(q.list.at[q.length])
ensures [C08:order] forall i int :: { q.list.at[i] } 1 <= i <= old(q.length) ==> q.list.at[i] == old(q.list.at)[i]

func Queue.Pop
params q
results v, err
requires okq(q)
modifies Queue.length at q
modifies glist.List.len at q.list
modifies glist.List.at at q.list
modifies glist.List.pos at q.list
modifies glist.Element.next at &q.list.root and q.list.at[1]
modifies glist.Element.prev at q.list.at[1] and q.list.at[1].next
modifies glist.Element.list at q.list.at[1]
ensures [C08:empty] old(q.length) == 0 ==> err == ErrorEmptyQueue && v == zero(ty(T)) && okq(q) && q.length == 0
ensures [C08:pop] old(q.length) > 0 ==> err == nil && v == old(elem(q, 1)) && okq(q) && q.length == old(q.length) - 1
ensures [C08:order] old(q.length) > 0 ==> (forall i int :: { q.list.at[i] } 1 <= i <= q.length ==> q.list.at[i] == old(q.list.at)[i+1])

func Peek
params q
results v, err
requires okq(q)
ensures [C08:empty] q.length == 0 ==> err == ErrorEmptyQueue && v == zero(ty(T))
ensures [C08:peek] q.length > 0 ==> err == nil && v == elem(q, 1)

func PeekAll
params q
requires okq(q)
loop 1
invariant e == nil || member(q.list, e) && ring(q.list)
invariant idx == (e == nil ? q.length : q.list.pos[e] - 1)
invariant forall j int :: { seq(res)[j] } 0 <= j < (e == nil ? q.length : q.list.pos[e] - 1) ==> seq(res)[j] == elem(q, j+1)
spare invariant len(res) == (e == nil ? q.length : q.list.pos[e] - 1)
spare invariant fresh(res) && cap(res) == q.length
decreases e == nil ? 0 : q.length + 1 - q.list.pos[e]
ensures [C08:all] fresh(result) && len(result) == q.length
ensures [C08:all] forall j int :: { seq(result)[j] } 0 <= j < q.length ==> seq(result)[j] == elem(q, j+1)

func Clear
params q
requires okq(q)
modifies Queue.length at q
modifies Queue.list at q
ensures [C08:clear] okq(q) && q.length == 0

func Gen
params s
loop 1
invariant okq(q) && fresh(q) && fresh(q.list) && q.length == $it
invariant forall i int :: { q.list.at[i] } 1 <= i <= $it ==> fresh(q.list.at[i])
invariant forall i int :: { q.list.at[i] } 1 <= i <= $it ==> elem(q, i) == seq(s)[i-1]
ensures [C08:gen] fresh(result) && okq(result) && result.length == len(s)
ensures [C08:gen] forall i int :: { result.list.at[i] } 1 <= i <= len(s) ==> elem(result, i) == seq(s)[i-1]

func Iterator
params q
requires okq(q)
modifies Queue.length at q
modifies glist.List.len at q.list
modifies glist.List.at at q.list
modifies glist.List.pos at q.list
modifies glist.Element.next
modifies glist.Element.prev
modifies glist.Element.list
loop 1
invariant okq(q) && chanlen(ch) == old(q.length) - q.length && chancap(ch) == old(q.length) && !chanclosed(ch)
invariant forall i int :: { q.list.at[i] } 1 <= i <= q.length ==> q.list.at[i] == old(q.list.at)[i + chanlen(ch)]
invariant forall j int :: { chanbuf(ch)[j] } 0 <= j < chanlen(ch) ==> chanbuf(ch)[j] == old(elem(q, j+1))
decreases q.length
ensures [C08:drained] okq(q) && q.length == 0
ensures [C08:drain] chanlen(result) == old(q.length) && chanclosed(result)
ensures [C08:drain] forall j int :: { chanbuf(result)[j] } 0 <= j < old(q.length) ==> chanbuf(result)[j] == old(elem(q, j+1))
