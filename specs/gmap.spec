package gmap

func Keys
params m
loop 1
invariant fresh(keys) && len(keys) == $it && keys != nil
invariant forall i int :: 0 <= i < $it ==> (keys[i] in $vis)
invariant forall k K :: { k in $vis } (k in $vis) ==> (exists i int :: 0 <= i < $it && keys[i] == k)
invariant forall i int, j int :: 0 <= i < j < $it ==> keys[i] != keys[j]
ensures [C03:count] len(result) == len(m)
ensures [C03:members] forall i int :: 0 <= i < len(result) ==> (result[i] in m)
ensures [C03:complete] forall k K :: (k in m) ==> (exists i int :: 0 <= i < len(result) && result[i] == k)
ensures [C03:distinct] forall i int, j int :: 0 <= i < j < len(result) ==> result[i] != result[j]
ensures [C03:fresh] fresh(result)

// Values: ks enumerates the keys of the map without repetition, and the result holds their values in that order
func Values
params m
witness ks [int]K = $keys1
loop 1
invariant fresh(values) && len(values) == $it
invariant forall i int :: 0 <= i < $it ==> values[i] == m[$keys[i]]
ensures [C03:enumerates] forall i int :: 0 <= i < len(m) ==> (ks[i] in m) && result[i] == m[ks[i]]
ensures [C03:distinct] forall i int, j int :: 0 <= i < j < len(m) ==> ks[i] != ks[j]
ensures [C03:complete] forall k K :: (k in m) ==> (exists i int :: 0 <= i < len(m) && ks[i] == k)
ensures [C03:count] len(result) == len(m)
ensures [C03:fresh] fresh(result)

func Copy
params m
loop 1
invariant fresh(res) && len(res) == $it
invariant forall k K :: { k in res } (k in res) <==> (k in $vis)
invariant forall k K :: { res[k] } (k in $vis) ==> res[k] == m[k]
ensures [C03:same-keys] forall k K :: (k in result) <==> (k in m)
ensures [C03:same-values] forall k K :: (k in m) ==> result[k] == m[k]
ensures [C03:size] len(result) == len(m)
ensures [C03:separate] fresh(result)

func Len
params m
ensures [C03:len] result == len(m)

func Contains
params m, k
ensures [C03:contains] result <==> (k in m)

func Clear
params m
modifies Map(K,V) at m
loop 1
invariant m == old(m)
invariant forall k K :: { k in m } (k in m) <==> ((k in old(dom(m))) && !(k in $vis))
invariant len(m) >= 0
ensures [C03:empty] forall k K :: !(k in m)

func Map2Entries
params m
loop 1
invariant fresh(entries) && len(entries) == $it
invariant forall i int :: 0 <= i < $it ==> (entries[i].Key in $vis) && entries[i].Value == m[entries[i].Key]
invariant forall k K :: { k in $vis } (k in $vis) ==> (exists i int :: 0 <= i < $it && entries[i].Key == k)
invariant forall i int, j int :: 0 <= i < j < $it ==> entries[i].Key != entries[j].Key
ensures [C03:count] len(result) == len(m)
ensures [C03:pairs] forall i int :: 0 <= i < len(result) ==> (result[i].Key in m) && result[i].Value == m[result[i].Key]
ensures [C03:complete] forall k K :: (k in m) ==> (exists i int :: 0 <= i < len(result) && result[i].Key == k)
ensures [C03:distinct] forall i int, j int :: 0 <= i < j < len(result) ==> result[i].Key != result[j].Key
ensures [C03:fresh] fresh(result)

def lastOf[K,V](es [int]gconstraints.Entry[K,V], n int, i int) bool = 0 <= i < n && (forall j int :: i < j < n ==> es[j].Key != es[i].Key)

func Entries2Map
params es
results r
loop 1
invariant fresh(m)
invariant forall i int :: 0 <= i < $it ==> (es[i].Key in m)
invariant forall k K :: { k in m } (k in m) ==> (exists i int :: 0 <= i < $it && es[i].Key == k)
invariant forall i int :: lastOf(seq(es), $it, i) ==> m[es[i].Key] == es[i].Value
ensures [C03:keys] forall k K :: (k in r) ==> (exists i int :: 0 <= i < len(es) && es[i].Key == k)
ensures [C03:keys] forall i int :: 0 <= i < len(es) ==> (es[i].Key in r)
ensures [C03:last-wins] forall i int :: 0 <= i < len(es) && (forall j int :: i < j < len(es) ==> es[j].Key != es[i].Key) ==> r[es[i].Key] == es[i].Value
ensures [C03:fresh] fresh(r)

func Equal
params a, b
use mapSizes(a, b)
loop 1
invariant forall k K :: { k in $vis } (k in $vis) ==> (k in b) && a[k] == b[k]
ensures [C03:equal] result <==> ((forall k K :: (k in a) <==> (k in b)) && (forall k K :: (k in a) ==> a[k] == b[k]))

func EqualWithFunc
params a, b, eq
requires eq != nil
use mapSizes(a, b)
loop 1
invariant forall k K :: { k in $vis } (k in $vis) ==> (k in b) && eq(a[k], b[k])
ensures [C03:equal] result <==> ((forall k K :: (k in a) <==> (k in b)) && (forall k K :: (k in a) ==> eq(a[k], b[k])))
