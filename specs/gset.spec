package gset

func NewSet
ensures [C03:empty] forall k T :: !(k in result)
ensures [C03:size] len(result) == 0
ensures [C03:fresh] fresh(result)

func NewSetWithSize
params size
ensures [C03:empty] forall k T :: !(k in result)
ensures [C03:size] len(result) == 0
ensures [C03:fresh] fresh(result)

func Len
params s
ensures [C03:len] result == len(s)

func Contains
params s, e
ensures [C03:contains] result <==> (e in s)

func Add
params s, e
requires s != nil
modifies Map(T, struct{}) at s
ensures [C03:added] forall k T :: (k in s) <==> (k in old(dom(s))) || k == e
ensures [C03:size] len(s) == old(len(s)) + (e in old(dom(s)) ? 0 : 1)
ensures [C03:result] result

func Remove
params s, e
modifies Map(T, struct{}) at s
ensures [C03:removed] forall k T :: (k in s) <==> (k in old(dom(s))) && k != e
ensures [C03:size] len(s) == old(len(s)) - (e in old(dom(s)) ? 1 : 0)
ensures [C03:result] result

func Items
params s
loop 1
invariant fresh(items) && len(items) == $it && items != nil
invariant forall i int :: 0 <= i < $it ==> items[i] == $keys[i]
ensures [C03:count] len(result) == len(s)
ensures [C03:members] forall i int :: 0 <= i < len(result) ==> (result[i] in s)
ensures [C03:complete] forall k T :: (k in s) ==> (exists i int :: 0 <= i < len(result) && result[i] == k)
ensures [C03:distinct] forall i int, j int :: 0 <= i < j < len(result) ==> result[i] != result[j]
ensures [C03:fresh] fresh(result)

func Clear
params s
modifies Map(T, struct{}) at s
loop 1
invariant s == old(s)
invariant forall k T :: { k in s } (k in s) <==> ((k in old(dom(s))) && !(k in $vis))
ensures [C03:empty] forall k T :: !(k in s)
