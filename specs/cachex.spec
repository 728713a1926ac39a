package cachex

guarded LRUCacheV2.lruMap by mux
guarded LRUCacheV2.lruList by mux

// number of uses so far; the use number at which a key was last read with a hit or written
ghost field LRUCacheV2.tick int
ghost field LRUCacheV2.stamp [any]int

// the entries of the map and of the recency list are the same, most recent first, and there are never more than the capacity
def lruok0[K, V](c *LRUCacheV2[K, V]) bool =
  c.caption > 0 && c.lruMap != nil && lok(c.lruList) && len(c.lruMap) == c.lruList.size
  && (forall i int :: { c.lruList.at[i] } 1 <= i <= c.lruList.size ==> c.lruList.at[i].Value in c.lruMap && c.lruMap[c.lruList.at[i].Value].el == c.lruList.at[i])
  && (forall k any :: { k in c.lruMap } { c.lruMap[k] } k in c.lruMap ==> c.lruMap[k] != nil && alloced(c.lruMap[k]) && c.lruMap[k].el != nil && alloced(c.lruMap[k].el) && c.lruMap[k].el.own == c.lruList && c.lruMap[k].el.Value == k)
  && (forall i int, j int :: { c.lruList.at[i], c.lruList.at[j] } 1 <= i < j && j <= c.lruList.size ==> c.stamp[c.lruList.at[i].Value] > c.stamp[c.lruList.at[j].Value])
  && (forall i int :: { c.lruList.at[i] } 1 <= i <= c.lruList.size ==> c.stamp[c.lruList.at[i].Value] <= c.tick)

def lruok[K, V](c *LRUCacheV2[K, V]) bool = lruok0(c) && c.lruList.size <= c.caption

// the key that is evicted next
def tail[K, V](c *LRUCacheV2[K, V]) any = c.lruList.at[c.lruList.size].Value

lemma tailLeast[K, V](c *LRUCacheV2[K, V], y any)
requires lruok(c) && y in c.lruMap && y != tail(c)
ensures [C20:least-recent] tail(c) in c.lruMap && c.stamp[tail(c)] < c.stamp[y]
assert c.lruMap[y].el.own == c.lruList
assert c.lruList.at[c.lruList.pos[c.lruMap[y].el]] == c.lruMap[y].el
assert c.lruList.pos[c.lruMap[y].el] < c.lruList.size
assert c.lruList.at[c.lruList.size] != nil

func NewLRUCacheV2
params caption, maxUsed
panics [C20:capacity] caption <= 0
ensures [C20,C21:new] fresh(result) && lruok(result) && len(result.lruMap) == 0 && result.caption == caption && result.maxUsed == maxUsed && result.mux == 0

func LRUCacheV2.getOne
params lc, key
results v, ok
option guards
requires lruok(lc) && lc.mux == -1
modifies Map(any,*item2[V]) at lc.lruMap
modifies LRUCacheV2.tick at lc, LRUCacheV2.stamp at lc, item2[V].usedCount at lc.lruMap[box(key)]
modifies clock
modifies list.List.at at lc.lruList, list.List.size at lc.lruList, list.List.pos at lc.lruList, list.Element.own at lc.lruMap[box(key)].el
set lc.tick := old(lc.tick) + 1
set lc.stamp := ok ? old(lc.stamp)[box(key) := old(lc.tick) + 1] : old(lc.stamp)
ensures lc.tick == old(lc.tick) + 1 && clock >= old(clock)
ensures [C20:consistent] lruok(lc)
ensures [C20:read-moves-front] ok ==> lc.stamp == old(lc.stamp)[box(key) := lc.tick]
ensures [C20:miss-keeps-order] !ok ==> lc.stamp == old(lc.stamp)
ensures [C21:hit] ok <==> old(box(key) in lc.lruMap) && (lc.maxUsed <= 0 || old(lc.lruMap[box(key)].usedCount) < lc.maxUsed) && !(nano(old(lc.lruMap[box(key)].expireTime)) < clock)
ensures [C21:value] ok ==> v == old(lc.lruMap[box(key)].val)
ensures [C21:miss-value] !ok ==> v == zero(ty(V))
ensures [C21:counts-use] ok ==> lc.lruMap[box(key)].usedCount == old(lc.lruMap[box(key)].usedCount) + (lc.maxUsed > 0 ? 1 : 0)
ensures [C20,C21:kept] box(key) in lc.lruMap <==> ok
ensures [C20:same] ok ==> lc.lruMap[box(key)] == old(lc.lruMap[box(key)])
ensures [C20,C21:others] forall x any :: { x in lc.lruMap } { lc.lruMap[x] } x != box(key) ==> (x in lc.lruMap <==> old(x in lc.lruMap)) && lc.lruMap[x] == old(lc.lruMap[x])
ensures [C21:others-uses] forall x any :: { x in lc.lruMap } { lc.lruMap[x] } x != box(key) && x in lc.lruMap ==> lc.lruMap[x].usedCount == old(lc.lruMap[x].usedCount)

func LRUCacheV2.doSet
params lc, key, value, ttl
option guards
requires lruok(lc) && lc.mux == -1
modifies Map(any,*item2[V]) at lc.lruMap
modifies LRUCacheV2.tick at lc, LRUCacheV2.stamp at lc
modifies item2[V].usedCount at lc.lruMap[box(key)] and fresh, item2[V].val at lc.lruMap[box(key)] and fresh, item2[V].expireTime at lc.lruMap[box(key)] and fresh, item2[V].el at fresh
modifies clock
modifies list.List.at at lc.lruList, list.List.size at lc.lruList, list.List.pos at lc.lruList, list.Element.own at lc.lruList.at[lc.lruList.size] and fresh, list.Element.Value at fresh
set lc.tick := old(lc.tick) + 1
set lc.stamp := old(lc.stamp)[box(key) := old(lc.tick) + 1]
ensures lc.tick == old(lc.tick) + 1 && clock >= old(clock)
ensures [C20:consistent] lruok(lc)
ensures [C20:write-moves-front] lc.stamp == old(lc.stamp)[box(key) := lc.tick]
ensures [C20,C21:stored] box(key) in lc.lruMap && lc.lruMap[box(key)].val == value
ensures [C21:fresh-count] lc.lruMap[box(key)].usedCount == 0
ensures [C21:ttl] nano(lc.lruMap[box(key)].expireTime) == clock + int(ttl)
ensures [C20:size] len(lc.lruMap) == (old(box(key) in lc.lruMap) || old(len(lc.lruMap)) == lc.caption ? old(len(lc.lruMap)) : old(len(lc.lruMap)) + 1)
ensures [C20:evicts-least] forall x any :: { x in lc.lruMap } { old(x in lc.lruMap) } x != box(key) ==> (x in lc.lruMap <==> old(x in lc.lruMap) && !(old(len(lc.lruMap)) == lc.caption && !old(box(key) in lc.lruMap) && x == old(tail(lc))))
ensures [C20,C21:others] forall x any :: { lc.lruMap[x] } x != box(key) && x in lc.lruMap ==> lc.lruMap[x] == old(lc.lruMap[x])
ensures [C21:others-content] forall x any :: { x in lc.lruMap } { lc.lruMap[x] } x != box(key) && x in lc.lruMap ==> lc.lruMap[x].usedCount == old(lc.lruMap[x].usedCount) && lc.lruMap[x].val == old(lc.lruMap[x].val) && lc.lruMap[x].expireTime == old(lc.lruMap[x].expireTime)
ensures old(box(key) in lc.lruMap) ? lc.lruMap[box(key)] == old(lc.lruMap[box(key)]) : fresh(lc.lruMap[box(key)])
loop 1
before set lc.tick := old(lc.tick) + 1
before set lc.stamp := old(lc.stamp)[box(key) := old(lc.tick) + 1]
invariant lruok0(lc) && box(key) in lc.lruMap && lc.lruMap[box(key)] == pre(lc.lruMap[box(key)])
invariant lc.lruList.size == pre(lc.lruList.size) || lc.lruList.size == lc.caption && pre(lc.lruList.size) == lc.caption + 1
invariant forall x any :: { x in lc.lruMap } x in lc.lruMap <==> pre(x in lc.lruMap) && !(lc.lruList.size < pre(lc.lruList.size) && x == pre(lc.lruList.at[lc.lruList.size].Value))
invariant forall x any :: { lc.lruMap[x] } x in lc.lruMap ==> lc.lruMap[x] == pre(lc.lruMap[x])
invariant forall i int :: { lc.lruList.at[i] } 1 <= i <= lc.lruList.size ==> lc.lruList.at[i] == pre(lc.lruList.at)[i]
decreases lc.lruList.size

func LRUCacheV2.Get
params lc, ctx, key
results v, ok, err
option guards
option onesection
requires lruok(lc) && lc.mux == 0
modifies Map(any,*item2[V]) at lc.lruMap
modifies LRUCacheV2.mux at lc
modifies LRUCacheV2.tick at lc, LRUCacheV2.stamp at lc, item2[V].usedCount at lc.lruMap[box(key)]
modifies clock
modifies list.List.at at lc.lruList, list.List.size at lc.lruList, list.List.pos at lc.lruList, list.Element.own at lc.lruMap[box(key)].el
ensures [C22:released] lc.mux == 0
ensures lc.tick == old(lc.tick) + 1 && clock >= old(clock) && err == nil
ensures [C20:consistent] lruok(lc)
ensures [C20:read-moves-front] ok ==> lc.stamp == old(lc.stamp)[box(key) := lc.tick]
ensures [C20:miss-keeps-order] !ok ==> lc.stamp == old(lc.stamp)
ensures [C21:hit] ok <==> old(box(key) in lc.lruMap) && (lc.maxUsed <= 0 || old(lc.lruMap[box(key)].usedCount) < lc.maxUsed) && !(nano(old(lc.lruMap[box(key)].expireTime)) < clock)
ensures [C21:value] ok ==> v == old(lc.lruMap[box(key)].val)
ensures [C21:miss-value] !ok ==> v == zero(ty(V))
ensures [C21:counts-use] ok ==> lc.lruMap[box(key)].usedCount == old(lc.lruMap[box(key)].usedCount) + (lc.maxUsed > 0 ? 1 : 0)
ensures [C20,C21:kept] box(key) in lc.lruMap <==> ok
ensures [C20:same] ok ==> lc.lruMap[box(key)] == old(lc.lruMap[box(key)])
ensures [C20,C21:others] forall x any :: { x in lc.lruMap } { lc.lruMap[x] } x != box(key) ==> (x in lc.lruMap <==> old(x in lc.lruMap)) && lc.lruMap[x] == old(lc.lruMap[x])

func LRUCacheV2.Set
params lc, ctx, key, value, ttl
results err
option guards
option onesection
requires lruok(lc) && lc.mux == 0
modifies Map(any,*item2[V]) at lc.lruMap
modifies LRUCacheV2.mux at lc
modifies LRUCacheV2.tick at lc, LRUCacheV2.stamp at lc
modifies item2[V].usedCount at lc.lruMap[box(key)] and fresh, item2[V].val at lc.lruMap[box(key)] and fresh, item2[V].expireTime at lc.lruMap[box(key)] and fresh, item2[V].el at fresh
modifies clock
modifies list.List.at at lc.lruList, list.List.size at lc.lruList, list.List.pos at lc.lruList, list.Element.own at lc.lruList.at[lc.lruList.size] and fresh, list.Element.Value at fresh
ensures [C22:released] lc.mux == 0
ensures lc.tick == old(lc.tick) + 1 && clock >= old(clock) && err == nil
ensures [C20:consistent] lruok(lc)
ensures [C20:write-moves-front] lc.stamp == old(lc.stamp)[box(key) := lc.tick]
ensures [C20,C21:stored] box(key) in lc.lruMap && lc.lruMap[box(key)].val == value
ensures [C21:fresh-count] lc.lruMap[box(key)].usedCount == 0
ensures [C21:ttl] nano(lc.lruMap[box(key)].expireTime) == clock + int(ttl)
ensures [C20:size] len(lc.lruMap) == (old(box(key) in lc.lruMap) || old(len(lc.lruMap)) == lc.caption ? old(len(lc.lruMap)) : old(len(lc.lruMap)) + 1)
ensures [C20:evicts-least] forall x any :: { x in lc.lruMap } { old(x in lc.lruMap) } x != box(key) ==> (x in lc.lruMap <==> old(x in lc.lruMap) && !(old(len(lc.lruMap)) == lc.caption && !old(box(key) in lc.lruMap) && x == old(tail(lc))))
ensures [C20,C21:others] forall x any :: { lc.lruMap[x] } x != box(key) && x in lc.lruMap ==> lc.lruMap[x] == old(lc.lruMap[x])

// whether key x is among the first n of the keys; how often
def among[K](keys []K, n int, x any) bool = exists j int :: { seq(keys)[j] } 0 <= j < n && box(seq(keys)[j]) == x
rec occ[K](s [int]K, k K, i int) int = i <= 0 ? 0 : occ(s, k, i - 1) + (s[i-1] == k ? 1 : 0)

// the (1-based) last position of a key among the first i keys, 0 if it is not there
rec lastocc[K](s [int]K, k K, i int) int = i <= 0 ? 0 : s[i-1] == k ? i : lastocc(s, k, i - 1)

func LRUCacheV2.Delete
params lc, ctx, keys
results err
option guards
option onesection
requires lruok(lc) && lc.mux == 0
modifies Map(any,*item2[V]) at lc.lruMap
modifies LRUCacheV2.mux at lc
modifies list.List.at at lc.lruList, list.List.size at lc.lruList, list.List.pos at lc.lruList, list.Element.own
ensures [C22:released] lc.mux == 0
ensures err == nil
ensures [C20:consistent] lruok(lc)
ensures [C20,C21:deletes-exactly] forall x any :: { x in lc.lruMap } { old(x in lc.lruMap) } x in lc.lruMap <==> old(x in lc.lruMap) && !among(keys, len(keys), x)
ensures [C20,C21:others] forall x any :: { lc.lruMap[x] } x in lc.lruMap ==> lc.lruMap[x] == old(lc.lruMap[x])
loop 1
invariant lruok(lc)
invariant forall x any :: { x in lc.lruMap } { old(x in lc.lruMap) } x in lc.lruMap <==> old(x in lc.lruMap) && !among(keys, $it, x)
invariant forall x any :: { lc.lruMap[x] } x in lc.lruMap ==> lc.lruMap[x] == old(lc.lruMap[x])

func LRUCacheV2.MGet
params lc, ctx, keys
results vals, oks, err
option guards
option onesection
requires lruok(lc) && lc.mux == 0
modifies Map(any,*item2[V]) at lc.lruMap
modifies LRUCacheV2.mux at lc
modifies LRUCacheV2.tick at lc, LRUCacheV2.stamp at lc, item2[V].usedCount
modifies clock
modifies list.List.at at lc.lruList, list.List.size at lc.lruList, list.List.pos at lc.lruList, list.Element.own
ensures [C22:released] lc.mux == 0
ensures err == nil && lc.tick == old(lc.tick) + len(keys) && clock >= old(clock)
ensures [C20:consistent] lruok(lc)
ensures [C21:aligned] len(vals) == len(keys) && len(oks) == len(keys)
ensures [C21:hit] forall i int :: { seq(oks)[i] } 0 <= i < len(keys) && seq(oks)[i] ==> old(box(seq(keys)[i]) in lc.lruMap) && (lc.maxUsed <= 0 || old(lc.lruMap[box(seq(keys)[i])].usedCount) + occ(seq(keys), seq(keys)[i], i) < lc.maxUsed) && !(nano(old(lc.lruMap[box(seq(keys)[i])].expireTime)) < old(clock)) && seq(vals)[i] == old(lc.lruMap[box(seq(keys)[i])].val)
ensures [C21:miss] forall i int :: { seq(oks)[i] } 0 <= i < len(keys) && !seq(oks)[i] ==> seq(vals)[i] == zero(ty(V)) && (!old(box(seq(keys)[i]) in lc.lruMap) || (lc.maxUsed > 0 && old(lc.lruMap[box(seq(keys)[i])].usedCount) + occ(seq(keys), seq(keys)[i], i) >= lc.maxUsed) || nano(old(lc.lruMap[box(seq(keys)[i])].expireTime)) < clock)
ensures [C21:counts-use] forall k K :: { box(k) in lc.lruMap } box(k) in lc.lruMap ==> lc.lruMap[box(k)].usedCount == old(lc.lruMap[box(k)].usedCount) + (lc.maxUsed > 0 ? occ(seq(keys), k, len(keys)) : 0)
ensures [C20,C21:kept] forall k K :: { box(k) in lc.lruMap } { old(box(k) in lc.lruMap) } old(box(k) in lc.lruMap) && !(box(k) in lc.lruMap) ==> lastocc(seq(keys), k, len(keys)) > 0 && (lc.maxUsed > 0 && old(lc.lruMap[box(k)].usedCount) + occ(seq(keys), k, len(keys)) >= lc.maxUsed || nano(old(lc.lruMap[box(k)].expireTime)) < clock)
ensures [C20,C21:others] forall x any :: { x in lc.lruMap } { lc.lruMap[x] } x in lc.lruMap ==> old(x in lc.lruMap) && lc.lruMap[x] == old(lc.lruMap[x])
ensures [C20:order-read] forall k K :: { lc.stamp[box(k)] } box(k) in lc.lruMap && lastocc(seq(keys), k, len(keys)) > 0 ==> lc.stamp[box(k)] == old(lc.tick) + lastocc(seq(keys), k, len(keys))
ensures [C20:order-kept] forall k K :: { lc.stamp[box(k)] } lastocc(seq(keys), k, len(keys)) == 0 ==> lc.stamp[box(k)] == old(lc.stamp)[box(k)]
loop 1
invariant lruok(lc) && lc.tick == old(lc.tick) + $it && clock >= old(clock) && len(values) == len(keys) && len(oks) == len(keys)
invariant forall i int :: { seq(oks)[i] } 0 <= i < $it && seq(oks)[i] ==> old(box(seq(keys)[i]) in lc.lruMap) && (lc.maxUsed <= 0 || old(lc.lruMap[box(seq(keys)[i])].usedCount) + occ(seq(keys), seq(keys)[i], i) < lc.maxUsed) && !(nano(old(lc.lruMap[box(seq(keys)[i])].expireTime)) < old(clock)) && seq(values)[i] == old(lc.lruMap[box(seq(keys)[i])].val)
invariant forall i int :: { seq(oks)[i] } 0 <= i < $it && !seq(oks)[i] ==> seq(values)[i] == zero(ty(V)) && (!old(box(seq(keys)[i]) in lc.lruMap) || (lc.maxUsed > 0 && old(lc.lruMap[box(seq(keys)[i])].usedCount) + occ(seq(keys), seq(keys)[i], i) >= lc.maxUsed) || nano(old(lc.lruMap[box(seq(keys)[i])].expireTime)) < clock)
invariant forall k K :: { box(k) in lc.lruMap } box(k) in lc.lruMap ==> lc.lruMap[box(k)].usedCount == old(lc.lruMap[box(k)].usedCount) + (lc.maxUsed > 0 ? occ(seq(keys), k, $it) : 0)
invariant forall k K :: { box(k) in lc.lruMap } { old(box(k) in lc.lruMap) } old(box(k) in lc.lruMap) && !(box(k) in lc.lruMap) ==> lastocc(seq(keys), k, $it) > 0 && (lc.maxUsed > 0 && old(lc.lruMap[box(k)].usedCount) + occ(seq(keys), k, $it) >= lc.maxUsed || nano(old(lc.lruMap[box(k)].expireTime)) < clock)
invariant forall x any :: { x in lc.lruMap } { lc.lruMap[x] } x in lc.lruMap ==> old(x in lc.lruMap) && lc.lruMap[x] == old(lc.lruMap[x])
invariant forall k K :: { lc.stamp[box(k)] } box(k) in lc.lruMap && lastocc(seq(keys), k, $it) > 0 ==> lc.stamp[box(k)] == old(lc.tick) + lastocc(seq(keys), k, $it)
invariant forall k K :: { lc.stamp[box(k)] } lastocc(seq(keys), k, $it) == 0 ==> lc.stamp[box(k)] == old(lc.stamp)[box(k)]

// whether the entry of x is set by kvs
def setby[K, V](kvs map[K]V, x any) bool = istype(ty(K), x) && unbox(ty(K), x) in kvs

func LRUCacheV2.MSet
params lc, ctx, kvs, ttl
results err
option guards
option onesection
requires lruok(lc) && lc.mux == 0
modifies Map(any,*item2[V]) at lc.lruMap
modifies LRUCacheV2.mux at lc
modifies LRUCacheV2.tick at lc, LRUCacheV2.stamp at lc
modifies item2[V].usedCount, item2[V].val, item2[V].expireTime, item2[V].el at fresh
modifies clock
modifies list.List.at at lc.lruList, list.List.size at lc.lruList, list.List.pos at lc.lruList, list.Element.own, list.Element.Value at fresh
ensures [C22:released] lc.mux == 0
ensures err == nil && clock >= old(clock)
ensures [C20:consistent] lruok(lc)
ensures [C20,C21:stored] forall k K :: { box(k) in lc.lruMap } k in kvs && box(k) in lc.lruMap ==> lc.lruMap[box(k)].val == kvs[k]
ensures [C21:fresh-count] forall k K :: { box(k) in lc.lruMap } k in kvs && box(k) in lc.lruMap ==> lc.lruMap[box(k)].usedCount == 0
ensures [C21:ttl] forall k K :: { box(k) in lc.lruMap } k in kvs && box(k) in lc.lruMap ==> old(clock) + int(ttl) <= nano(lc.lruMap[box(k)].expireTime) <= clock + int(ttl)
ensures [C20:order-write] forall k K :: { box(k) in lc.lruMap } k in kvs && box(k) in lc.lruMap ==> lc.stamp[box(k)] > old(lc.tick)
ensures [C20:order-kept] forall x any :: { lc.stamp[x] } !setby(kvs, x) ==> lc.stamp[x] == old(lc.stamp)[x]
ensures [C20,C21:others] forall x any :: { x in lc.lruMap } { lc.lruMap[x] } x in lc.lruMap && !setby(kvs, x) ==> old(x in lc.lruMap) && lc.lruMap[x] == old(lc.lruMap[x]) && lc.lruMap[x].val == old(lc.lruMap[x].val) && lc.lruMap[x].usedCount == old(lc.lruMap[x].usedCount) && lc.lruMap[x].expireTime == old(lc.lruMap[x].expireTime)
ensures [C20:evicts-only-when-full] forall x any :: { x in lc.lruMap } { old(x in lc.lruMap) } (old(x in lc.lruMap) || setby(kvs, x)) && !(x in lc.lruMap) ==> len(lc.lruMap) == lc.caption
ensures [C20:evicts-older-first] forall x any, y any :: { x in lc.lruMap, y in lc.lruMap } x in lc.lruMap && !setby(kvs, x) && (setby(kvs, y) || old(y in lc.lruMap) && old(lc.stamp)[y] > old(lc.stamp)[x]) ==> y in lc.lruMap
loop 1
invariant lruok(lc) && clock >= old(clock) && lc.tick >= old(lc.tick)
invariant forall k K :: { box(k) in lc.lruMap } k in $vis && box(k) in lc.lruMap ==> lc.lruMap[box(k)].val == kvs[k] && lc.lruMap[box(k)].usedCount == 0 && old(clock) + int(ttl) <= nano(lc.lruMap[box(k)].expireTime) <= clock + int(ttl)
invariant forall k K :: { box(k) in lc.lruMap } { k in $vis } k in $vis && box(k) in lc.lruMap ==> lc.stamp[box(k)] > old(lc.tick)
invariant forall x any :: { lc.stamp[x] } !(istype(ty(K), x) && unbox(ty(K), x) in $vis) ==> lc.stamp[x] == old(lc.stamp)[x]
invariant forall x any :: { x in lc.lruMap } { lc.lruMap[x] } x in lc.lruMap && !(istype(ty(K), x) && unbox(ty(K), x) in $vis) ==> old(x in lc.lruMap) && lc.lruMap[x] == old(lc.lruMap[x]) && lc.lruMap[x].val == old(lc.lruMap[x].val) && lc.lruMap[x].usedCount == old(lc.lruMap[x].usedCount) && lc.lruMap[x].expireTime == old(lc.lruMap[x].expireTime)
invariant forall x any :: { x in lc.lruMap } { old(x in lc.lruMap) } (old(x in lc.lruMap) || istype(ty(K), x) && unbox(ty(K), x) in $vis) && !(x in lc.lruMap) ==> len(lc.lruMap) == lc.caption
invariant forall x any, y any :: { x in lc.lruMap, y in lc.lruMap } x in lc.lruMap && !(istype(ty(K), x) && unbox(ty(K), x) in $vis) && (istype(ty(K), y) && unbox(ty(K), y) in $vis || old(y in lc.lruMap) && old(lc.stamp)[y] > old(lc.stamp)[x]) ==> y in lc.lruMap

// ---- Levels of a chain. What a chain does to its levels is recorded: reads rd*, writes wr*. ----

ghost var rdN int
ghost var rdLvl [int]any
ghost var rdLen [int]int
ghost var rdKey [int][int]any
ghost var rdGot [int]int
ghost var rdHas [int][int]bool
ghost var rdVal [int][int]any
ghost var rdErr [int]error
ghost var wrN int
ghost var wrLvl [int]any
ghost var wrKind [int]int
ghost var wrTTL [int]int
ghost var wrDom [int][any]bool
ghost var wrVal [int][any]any
ghost var wrErr [int]error
// reads made before this write
ghost var wrAt [int]int

func Cache.Get
params lv, ctx, key
results v, has, err
trusted "a level is any cache: its answer is arbitrary, the call is recorded; it does not change the chain or the caller's keys"
modifies rdN, rdLvl, rdLen, rdKey, rdGot, rdHas, rdVal, rdErr
ensures rdN == old(rdN) + 1 && rdLvl == old(rdLvl)[old(rdN) := lv] && rdErr == old(rdErr)[old(rdN) := err] && rdErr[old(rdN)] == err
ensures rdLen == old(rdLen)[old(rdN) := 1] && rdKey == old(rdKey)[old(rdN) := old(rdKey)[old(rdN)][0 := box(key)]] && rdGot == old(rdGot)[old(rdN) := 1]
ensures rdHas == old(rdHas)[old(rdN) := old(rdHas)[old(rdN)][0 := has]] && rdVal == old(rdVal)[old(rdN) := old(rdVal)[old(rdN)][0 := box(v)]]

func Cache.Set
params lv, ctx, key, value, ttl
results err
trusted "a level is any cache: its answer is arbitrary, the call is recorded; it does not change the chain or the caller's keys"
modifies wrN, wrLvl, wrKind, wrTTL, wrDom, wrVal, wrErr, wrAt
ensures wrN == old(wrN) + 1 && wrLvl == old(wrLvl)[old(wrN) := lv] && wrErr == old(wrErr)[old(wrN) := err] && wrErr[old(wrN)] == err && wrTTL == old(wrTTL)[old(wrN) := int(ttl)] && wrKind == old(wrKind)[old(wrN) := 1] && wrAt == old(wrAt)[old(wrN) := rdN]
ensures (forall i int :: { wrDom[i] } i != old(wrN) ==> wrDom[i] == old(wrDom)[i]) && (forall i int :: { wrVal[i] } i != old(wrN) ==> wrVal[i] == old(wrVal)[i])
ensures (forall x any :: { wrDom[old(wrN)][x] } wrDom[old(wrN)][x] <==> x == box(key)) && wrVal[old(wrN)][box(key)] == box(value)

func Cache.MGet
params lv, ctx, keys
results vals, oks, err
trusted "a level is any cache: its answer is arbitrary but its two lists have the same length, that of the keys if there is no error, and are not kept by the level; the call is recorded"
modifies rdN, rdLvl, rdLen, rdKey, rdGot, rdHas, rdVal, rdErr
ensures len(vals) == len(oks) && len(oks) <= len(keys) && (err == nil ==> len(oks) == len(keys))
ensures rdN == old(rdN) + 1 && rdLvl == old(rdLvl)[old(rdN) := lv] && rdErr == old(rdErr)[old(rdN) := err] && rdErr[old(rdN)] == err && rdLen == old(rdLen)[old(rdN) := len(keys)] && rdGot == old(rdGot)[old(rdN) := len(oks)]
ensures forall i int :: { rdKey[i] } i != old(rdN) ==> rdKey[i] == old(rdKey)[i]
ensures rdHas == old(rdHas)[old(rdN) := seq(oks)] && rdHas[old(rdN)] == seq(oks) && (vals == nil || fresh(vals)) && (oks == nil || fresh(oks))
ensures forall i int :: { rdVal[i] } i != old(rdN) ==> rdVal[i] == old(rdVal)[i]
ensures forall j int :: { rdKey[old(rdN)][j] } 0 <= j < len(keys) ==> rdKey[old(rdN)][j] == box(seq(keys)[j])
ensures forall j int :: { rdVal[old(rdN)][j] } { seq(vals)[j] } 0 <= j < len(vals) ==> rdVal[old(rdN)][j] == box(seq(vals)[j])

func Cache.MSet
params lv, ctx, kvs, ttl
results err
trusted "a level is any cache: its answer is arbitrary, the call is recorded; it does not change the map"
modifies wrN, wrLvl, wrKind, wrTTL, wrDom, wrVal, wrErr, wrAt
ensures wrN == old(wrN) + 1 && wrLvl == old(wrLvl)[old(wrN) := lv] && wrErr == old(wrErr)[old(wrN) := err] && wrErr[old(wrN)] == err && wrTTL == old(wrTTL)[old(wrN) := int(ttl)] && wrKind == old(wrKind)[old(wrN) := 3] && wrAt == old(wrAt)[old(wrN) := rdN]
ensures (forall i int :: { wrDom[i] } i != old(wrN) ==> wrDom[i] == old(wrDom)[i]) && (forall i int :: { wrVal[i] } i != old(wrN) ==> wrVal[i] == old(wrVal)[i])
ensures forall k K :: { wrDom[old(wrN)][box(k)] } { k in kvs } wrDom[old(wrN)][box(k)] <==> k in kvs
ensures forall k K :: { wrVal[old(wrN)][box(k)] } k in kvs ==> wrVal[old(wrN)][box(k)] == box(kvs[k])

func Cache.Delete
params lv, ctx, keys
results err
trusted "a level is any cache: its answer is arbitrary, the call is recorded"
modifies wrN, wrLvl, wrKind, wrTTL, wrDom, wrVal, wrErr, wrAt
ensures wrN == old(wrN) + 1 && wrLvl == old(wrLvl)[old(wrN) := lv] && wrErr == old(wrErr)[old(wrN) := err] && wrErr[old(wrN)] == err && wrKind == old(wrKind)[old(wrN) := 4] && wrAt == old(wrAt)[old(wrN) := rdN]
ensures (forall i int :: { wrTTL[i] } i != old(wrN) ==> wrTTL[i] == old(wrTTL)[i]) && (forall i int :: { wrDom[i] } i != old(wrN) ==> wrDom[i] == old(wrDom)[i]) && (forall i int :: { wrVal[i] } i != old(wrN) ==> wrVal[i] == old(wrVal)[i])
ensures forall x any :: { wrDom[old(wrN)][x] } wrDom[old(wrN)][x] <==> among(keys, len(keys), x)

def chainok[K, V](c *Chain[K, V]) bool = forall i int :: { seq(c.Caches)[i] } 0 <= i < len(c.Caches) ==> seq(c.Caches)[i] != nil && seq(c.Caches)[i].Cache != nil

// write number w goes to level s[i] with its lifetime and stores exactly key with value
def storesOne[K, V](w int, it *ChainItem[K, V], key K, value V) bool = wrKind[w] == 1 && wrLvl[w] == it.Cache && wrTTL[w] == int(it.TTL) && wrDom[w][box(key)] && (forall x any :: { wrDom[w][x] } wrDom[w][x] ==> x == box(key)) && wrVal[w][box(key)] == box(value)

func Chain.setForGet
params c, ctx, caches, key, value
requires forall i int :: { seq(caches)[i] } 0 <= i < len(caches) ==> seq(caches)[i] != nil && seq(caches)[i].Cache != nil
modifies wrN, wrLvl, wrKind, wrTTL, wrDom, wrVal, wrErr, wrAt
ensures [C23:stores-each] wrN == old(wrN) + len(caches) && (forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } old(wrN) <= w < old(wrN) + len(caches) ==> storesOne(w, seq(caches)[w - old(wrN)], key, value))
loop 1
invariant wrN == old(wrN) + $it && (forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } old(wrN) <= w < old(wrN) + $it ==> storesOne(w, seq(caches)[w - old(wrN)], key, value))

func Chain.Get
params c, ctx, key
results v, has, err
requires chainok(c)
modifies rdN, rdLvl, rdLen, rdKey, rdGot, rdHas, rdVal, rdErr
modifies wrN, wrLvl, wrKind, wrTTL, wrDom, wrVal, wrErr, wrAt
ensures [C23:asks-in-order] 0 <= rdN - old(rdN) <= len(c.Caches) && (len(c.Caches) > 0 ==> rdN > old(rdN)) && (forall r int :: { rdLvl[r] } { rdHas[r] } { rdErr[r] } { rdKey[r] } { rdLen[r] } old(rdN) <= r < rdN ==> rdLvl[r] == seq(c.Caches)[r - old(rdN)].Cache && rdLen[r] == 1 && rdKey[r][0] == box(key))
ensures [C23:goes-on-only] forall r int :: { rdLvl[r] } { rdHas[r] } { rdErr[r] } { rdKey[r] } { rdLen[r] } old(rdN) <= r < rdN - 1 ==> !rdHas[r][0] && (rdErr[r] == nil || c.ContinueOnReadErr)
ensures [C23:hit] has ==> rdN > old(rdN) && rdHas[rdN-1][0] && box(v) == rdVal[rdN-1][0] && err == nil
ensures [C23:miss] !has ==> rdN == old(rdN) && err == nil && v == zero(ty(V)) || rdN > old(rdN) && !rdHas[rdN-1][0] && err == rdErr[rdN-1] && (rdN == old(rdN) + len(c.Caches) || err != nil && !c.ContinueOnReadErr)
ensures [C23:stores-above] wrN == old(wrN) + (has ? rdN - old(rdN) - 1 : 0) && (forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } old(wrN) <= w < old(wrN) + wrN - old(wrN) ==> storesOne(w, seq(c.Caches)[w - old(wrN)], key, v))
loop 1
invariant rdN == old(rdN) + $it && wrN == old(wrN) && wrLvl == old(wrLvl) && !has && ($it == 0 ==> err == nil && value == zero(ty(V))) && ($it > 0 ==> err == rdErr[rdN-1])
invariant forall r int :: { rdLvl[r] } { rdHas[r] } { rdErr[r] } { rdKey[r] } { rdLen[r] } old(rdN) <= r < rdN ==> rdLvl[r] == seq(c.Caches)[r - old(rdN)].Cache && rdLen[r] == 1 && rdKey[r][0] == box(key) && !rdHas[r][0] && (rdErr[r] == nil || c.ContinueOnReadErr)

func Chain.Set
params c, ctx, key, value, ttl
results err
requires chainok(c)
modifies wrN, wrLvl, wrKind, wrTTL, wrDom, wrVal, wrErr, wrAt
ensures [C23:writes-every-level] wrN == old(wrN) + len(c.Caches) && (forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } old(wrN) <= w < old(wrN) + len(c.Caches) ==> storesOne(w, seq(c.Caches)[w - old(wrN)], key, value))
ensures [C23:fails-iff] err == nil <==> (forall w int :: { wrErr[w] } old(wrN) <= w < old(wrN) + len(c.Caches) ==> wrErr[w] == nil)
loop 1
invariant wrN == old(wrN) + $it && (forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } old(wrN) <= w < old(wrN) + $it ==> storesOne(w, seq(c.Caches)[w - old(wrN)], key, value))
invariant len(errs) == 0 ==> (forall w int :: { wrErr[w] } old(wrN) <= w < old(wrN) + $it ==> wrErr[w] == nil)
invariant len(errs) != 0 ==> (exists w int :: { wrErr[w] } old(wrN) <= w < old(wrN) + $it && wrErr[w] != nil)
invariant forall i int :: { seq(errs)[i] } 0 <= i < len(errs) ==> seq(errs)[i] != nil
invariant errs == nil || fresh(errs)

// write number w goes to level it with its lifetime and stores exactly the pairs of kvs
def storesAll[K, V](w int, it *ChainItem[K, V], kvs map[K]V) bool = wrKind[w] == 3 && wrLvl[w] == it.Cache && wrTTL[w] == int(it.TTL) && (forall k K :: { wrDom[w][box(k)] } wrDom[w][box(k)] <==> k in kvs) && (forall k K :: { wrVal[w][box(k)] } k in kvs ==> wrVal[w][box(k)] == box(kvs[k]))

func Chain.MSet
params c, ctx, kvs, ttl
results err
requires chainok(c)
modifies wrN, wrLvl, wrKind, wrTTL, wrDom, wrVal, wrErr, wrAt
ensures [C23:writes-every-level] wrN == old(wrN) + (len(kvs) == 0 ? 0 : len(c.Caches)) && (forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } len(kvs) != 0 && old(wrN) <= w < old(wrN) + len(c.Caches) ==> storesAll(w, seq(c.Caches)[w - old(wrN)], kvs))
ensures [C23:fails-iff] err == nil <==> len(kvs) == 0 || (forall w int :: { wrErr[w] } old(wrN) <= w < old(wrN) + len(c.Caches) ==> wrErr[w] == nil)
loop 1
invariant wrN == old(wrN) + $it && (forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } old(wrN) <= w < old(wrN) + $it ==> storesAll(w, seq(c.Caches)[w - old(wrN)], kvs))
invariant len(errs) == 0 ==> (forall w int :: { wrErr[w] } old(wrN) <= w < old(wrN) + $it ==> wrErr[w] == nil)
invariant len(errs) != 0 ==> (exists w int :: { wrErr[w] } old(wrN) <= w < old(wrN) + $it && wrErr[w] != nil)
invariant forall i int :: { seq(errs)[i] } 0 <= i < len(errs) ==> seq(errs)[i] != nil
invariant errs == nil || fresh(errs)

// write number w deletes exactly the keys at level it
def deletesAll[K, V](w int, it *ChainItem[K, V], keys []K) bool = wrKind[w] == 4 && wrLvl[w] == it.Cache && (forall x any :: { wrDom[w][x] } wrDom[w][x] <==> among(keys, len(keys), x))

func Chain.Delete
params c, ctx, keys
results err
requires chainok(c)
modifies wrN, wrLvl, wrKind, wrTTL, wrDom, wrVal, wrErr, wrAt
ensures [C23:deletes-every-level] wrN == old(wrN) + (len(keys) == 0 ? 0 : len(c.Caches)) && (forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } len(keys) != 0 && old(wrN) <= w < old(wrN) + len(c.Caches) ==> deletesAll(w, seq(c.Caches)[w - old(wrN)], keys))
ensures [C23:fails-iff] err == nil <==> len(keys) == 0 || (forall w int :: { wrErr[w] } old(wrN) <= w < old(wrN) + len(c.Caches) ==> wrErr[w] == nil)
loop 1
invariant wrN == old(wrN) + $it && (forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } old(wrN) <= w < old(wrN) + $it ==> deletesAll(w, seq(c.Caches)[w - old(wrN)], keys))
invariant len(errs) == 0 ==> (forall w int :: { wrErr[w] } old(wrN) <= w < old(wrN) + $it ==> wrErr[w] == nil)
invariant len(errs) != 0 ==> (exists w int :: { wrErr[w] } old(wrN) <= w < old(wrN) + $it && wrErr[w] != nil)
invariant forall i int :: { seq(errs)[i] } 0 <= i < len(errs) ==> seq(errs)[i] != nil
invariant errs == nil || fresh(errs)

// ---- Batch reads of a chain ----

// misses among the first j answers of which got were given
rec nmiss(h [int]bool, got int, j int) int = j <= 0 ? 0 : nmiss(h, got, j - 1) + (j - 1 < got && h[j-1] ? 0 : 1)

func Chain.keysNotFound
params c, keys, status
results r
ensures [C24:rest] fresh(r) && len(r) == nmiss(seq(status), len(status), len(keys)) && (forall j int :: { seq(keys)[j] } 0 <= j < len(keys) && !(j < len(status) && seq(status)[j]) ==> seq(r)[nmiss(seq(status), len(status), j)] == seq(keys)[j])
ensures forall j int :: { nmiss(seq(status), len(status), j) } 0 <= j < len(keys) && !(j < len(status) && seq(status)[j]) ==> 0 <= nmiss(seq(status), len(status), j) < len(r)
loop 1
invariant fresh(result) && off(result) == 0 && len(result) == nmiss(seq(status), len(status), $it) && $it >= len(result)
invariant forall j int :: { seq(keys)[j] } { nmiss(seq(status), len(status), j) } 0 <= j < $it && !(j < len(status) && seq(status)[j]) ==> 0 <= nmiss(seq(status), len(status), j) < len(result) && seq(result)[nmiss(seq(status), len(status), j)] == seq(keys)[j]

// the pairs found: key x is stored if some answer to it is a hit, with the value of the last such answer
def found[K](keys [int]K, hits [int]bool, n int, x K) bool = exists j int :: { hits[j] } 0 <= j < n && hits[j] && keys[j] == x

func Chain.msetForMGet
params c, ctx, caches, keys, values, status
requires len(values) == len(status) && len(status) <= len(keys)
requires forall i int :: { seq(caches)[i] } 0 <= i < len(caches) ==> seq(caches)[i] != nil && seq(caches)[i].Cache != nil
modifies wrN, wrLvl, wrKind, wrTTL, wrDom, wrVal, wrErr, wrAt
ensures [C24:stores-found] wrN == old(wrN) + ((exists j int :: { seq(status)[j] } 0 <= j < len(status) && seq(status)[j]) ? len(caches) : 0)
ensures [C24:stores-levels] forall w int :: { wrLvl[w] } { wrTTL[w] } { wrKind[w] } old(wrN) <= w < wrN ==> wrKind[w] == 3 && wrLvl[w] == seq(caches)[w - old(wrN)].Cache && wrTTL[w] == int(seq(caches)[w - old(wrN)].TTL)
ensures [C24:stores-keys] forall w int, k K :: { wrDom[w][box(k)] } old(wrN) <= w < wrN ==> (wrDom[w][box(k)] <==> found(seq(keys), seq(status), len(status), k))
ensures [C24:stores-values] forall w int, j int :: { wrVal[w], seq(status)[j] } old(wrN) <= w < wrN && 0 <= j < len(status) && seq(status)[j] && (forall l int :: { seq(status)[l] } j < l < len(status) && seq(status)[l] ==> seq(keys)[l] != seq(keys)[j]) ==> wrVal[w][box(seq(keys)[j])] == box(seq(values)[j])
ensures forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } w < old(wrN) ==> wrLvl[w] == old(wrLvl)[w] && wrKind[w] == old(wrKind)[w] && wrTTL[w] == old(wrTTL)[w] && wrDom[w] == old(wrDom)[w] && wrVal[w] == old(wrVal)[w]
loop 1
invariant kvs != nil && fresh(kvs)
invariant forall k K :: { k in kvs } k in kvs <==> found(seq(keys), seq(status), $it, k)
invariant len(kvs) == 0 ==> (forall j int :: { seq(status)[j] } 0 <= j < $it ==> !seq(status)[j])
invariant len(kvs) != 0 ==> (exists j int :: { seq(status)[j] } 0 <= j < $it && seq(status)[j])
invariant forall j int :: { seq(status)[j] } 0 <= j < $it && seq(status)[j] && (forall l int :: { seq(status)[l] } j < l < $it && seq(status)[l] ==> seq(keys)[l] != seq(keys)[j]) ==> kvs[seq(keys)[j]] == seq(values)[j]
loop 2
invariant wrN == old(wrN) + $it && (forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } old(wrN) <= w < wrN ==> storesAll(w, seq(caches)[w - old(wrN)], kvs))
invariant forall w int :: { wrLvl[w] } { wrDom[w] } { wrVal[w] } { wrKind[w] } { wrTTL[w] } w < old(wrN) ==> wrLvl[w] == old(wrLvl)[w] && wrKind[w] == old(wrKind)[w] && wrTTL[w] == old(wrTTL)[w] && wrDom[w] == old(wrDom)[w] && wrVal[w] == old(wrVal)[w]

// Progress of a batch read: mgAt[r][i] is where position i of the request stands in the query of read r
// (in the list of keys still missing after the last read), -1 once it was found; mgW[r] counts the writes before those that follow read r.
ghost var mgAt [int][int]int
ghost var mgW [int]int

// where a position stands after the answers h
def nextAt(p int, h [int]bool, got int) int = p < 0 || (p < got && h[p]) ? -1 : nmiss(h, got, p)
def anyHit(h [int]bool, got int) bool = exists j int :: { h[j] } 0 <= j < got && h[j]

func Chain.MGet
params c, ctx, keys
results vals, oks, err
requires chainok(c)
modifies rdN, rdLvl, rdLen, rdKey, rdGot, rdHas, rdVal, rdErr, mgAt, mgW
modifies wrN, wrLvl, wrKind, wrTTL, wrDom, wrVal, wrErr, wrAt
ensures [C24:nothing-asked] len(keys) == 0 ==> rdN == old(rdN) && wrN == old(wrN) && len(vals) == 0 && len(oks) == 0 && err == nil
ensures [C24:levels-in-order] (len(keys) > 0 ==> old(rdN) <= rdN <= old(rdN) + len(c.Caches)) && (forall r int :: { rdLvl[r] } { rdLen[r] } { rdGot[r] } old(rdN) <= r < rdN ==> rdLvl[r] == seq(c.Caches)[r - old(rdN)].Cache && rdLen[r] > 0 && rdGot[r] <= rdLen[r])
ensures [C24:errors] (forall r int :: { rdErr[r] } old(rdN) <= r < rdN - 1 ==> rdErr[r] == nil || c.ContinueOnReadErr) && (rdN > old(rdN) ? err == rdErr[rdN-1] : err == nil)
ensures [C24:failed] err != nil && !c.ContinueOnReadErr ==> len(vals) == 0 && len(oks) == 0
ensures [C24:aligned] err == nil || c.ContinueOnReadErr ==> len(vals) == len(keys) && len(oks) == len(keys)
ensures [C24:complete] len(keys) > 0 && (err == nil || c.ContinueOnReadErr) && rdN < old(rdN) + len(c.Caches) ==> (forall i int :: { mgAt[rdN][i] } 0 <= i < len(keys) ==> mgAt[rdN][i] < 0)
ensures [C24:first-query] forall i int :: { mgAt[old(rdN)][i] } 0 <= i < len(keys) ==> mgAt[old(rdN)][i] == i
ensures [C24:asks-missing] forall r int, i int :: { mgAt[r][i] } old(rdN) <= r < rdN && 0 <= i < len(keys) && mgAt[r][i] >= 0 ==> mgAt[r][i] < rdLen[r] && rdKey[r][mgAt[r][i]] == box(seq(keys)[i])
ensures [C24:next-query] err == nil || c.ContinueOnReadErr ==> (forall r int, i int :: { mgAt[r][i] } old(rdN) < r && r <= rdN && 0 <= i < len(keys) ==> mgAt[r][i] == nextAt(mgAt[r-1][i], rdHas[r-1], rdGot[r-1]))
ensures [C24:asks-only-missing] (rdN > old(rdN) ==> rdLen[old(rdN)] == len(keys)) && (forall r int :: { rdLen[r] } old(rdN) < r && r < rdN ==> rdLen[r] == nmiss(rdHas[r-1], rdGot[r-1], rdLen[r-1]))
ensures [C24:hit] err == nil || c.ContinueOnReadErr ==> (forall r int, i int :: { mgAt[r][i] } old(rdN) <= r < rdN && 0 <= i < len(keys) && 0 <= mgAt[r][i] && mgAt[r][i] < rdGot[r] && rdHas[r][mgAt[r][i]] ==> seq(oks)[i] && box(seq(vals)[i]) == rdVal[r][mgAt[r][i]])
ensures [C24:miss] err == nil || c.ContinueOnReadErr ==> (forall i int :: { mgAt[rdN][i] } 0 <= i < len(keys) && mgAt[rdN][i] >= 0 ==> !seq(oks)[i] && seq(vals)[i] == zero(ty(V)))
ensures [C24:stores-above] len(keys) > 0 ==> mgW[old(rdN)] == old(wrN) && (forall r int :: { mgW[r] } old(rdN) < r && r <= rdN && (r < rdN || err == nil || c.ContinueOnReadErr) ==> mgW[r] == mgW[r-1] + (anyHit(rdHas[r-1], rdGot[r-1]) ? r - 1 - old(rdN) : 0))
ensures [C24:stores-last] len(keys) > 0 ==> wrN == mgW[err == nil || c.ContinueOnReadErr ? rdN : rdN - 1]
ensures [C24:stores-levels] forall r int, w int :: { mgW[r], wrLvl[w] } { mgW[r], wrTTL[w] } len(keys) > 0 && old(rdN) <= r < rdN && (r < rdN - 1 || err == nil || c.ContinueOnReadErr) && mgW[r] <= w < mgW[r+1] ==> wrKind[w] == 3 && wrLvl[w] == seq(c.Caches)[w - mgW[r]].Cache && wrTTL[w] == int(seq(c.Caches)[w - mgW[r]].TTL)
ensures [C24:stores-keys] forall r int, w int, k K :: { mgW[r], wrDom[w][box(k)] } len(keys) > 0 && old(rdN) <= r < rdN && (r < rdN - 1 || err == nil || c.ContinueOnReadErr) && mgW[r] <= w < mgW[r+1] ==> (wrDom[w][box(k)] <==> (exists j int :: { rdHas[r][j] } 0 <= j < rdGot[r] && rdHas[r][j] && rdKey[r][j] == box(k)))
loop 1
invariant len(positions) == len(keys) && fresh(positions) && off(positions) == 0
invariant forall i int :: { seq(positions)[i] } 0 <= i < $it ==> seq(positions)[i] == i
loop 2
before set mgAt@(r int, i int) := i
before set mgW@(r int) := wrN
step set mgAt@(r int, i int) := r == rdN ? nextAt(mgAt[rdN-1][i], rdHas[rdN-1], rdGot[rdN-1]) : mgAt[r][i]
step set mgW@(r int) := r >= rdN ? wrN : mgW[r]
invariant rdN == old(rdN) + $it && len(values) == length && len(status) == length && fresh(values) && fresh(status) && fresh(positions) && off(values) == 0 && off(status) == 0 && off(positions) == 0
invariant values != nil && status != nil
invariant len(positions) == len(keys) && ($it == 0 ? err == nil : err == rdErr[rdN-1])
invariant wrN == mgW[rdN] && mgW[old(rdN)] == old(wrN)
invariant forall i int :: { seq(positions)[i] } 0 <= i < len(positions) ==> 0 <= seq(positions)[i] && seq(positions)[i] < length && mgAt[rdN][seq(positions)[i]] == i
invariant forall i int :: { mgAt[rdN][i] } { seq(status)[i] } 0 <= i < length && mgAt[rdN][i] >= 0 ==> mgAt[rdN][i] < len(positions) && seq(positions)[mgAt[rdN][i]] == i && seq(keys)[mgAt[rdN][i]] == old(seq(keys))[i] && !seq(status)[i] && seq(values)[i] == zero(ty(V))
invariant forall i int :: { mgAt[old(rdN)][i] } 0 <= i < length ==> mgAt[old(rdN)][i] == i
invariant forall r int, i int :: { mgAt[r][i] } old(rdN) < r && r <= rdN && 0 <= i < length ==> mgAt[r][i] == nextAt(mgAt[r-1][i], rdHas[r-1], rdGot[r-1])
invariant forall r int, i int :: { mgAt[r][i] } old(rdN) <= r < rdN && 0 <= i < length && mgAt[r][i] >= 0 ==> mgAt[r][i] < rdLen[r] && rdKey[r][mgAt[r][i]] == box(old(seq(keys))[i])
invariant forall r int, i int :: { mgAt[r][i] } old(rdN) <= r < rdN && 0 <= i < length && 0 <= mgAt[r][i] && mgAt[r][i] < rdGot[r] && rdHas[r][mgAt[r][i]] ==> seq(status)[i] && box(seq(values)[i]) == rdVal[r][mgAt[r][i]]
invariant forall r int, i int :: { mgAt[r][i] } old(rdN) <= r < rdN && 0 <= i < length && (mgAt[r][i] < 0 || mgAt[r][i] < rdGot[r] && rdHas[r][mgAt[r][i]]) ==> mgAt[rdN][i] < 0
invariant forall r int :: { rdLvl[r] } { rdLen[r] } { rdGot[r] } { rdErr[r] } old(rdN) <= r < rdN ==> rdLvl[r] == seq(c.Caches)[r - old(rdN)].Cache && rdLen[r] > 0 && rdGot[r] <= rdLen[r] && (rdErr[r] == nil || c.ContinueOnReadErr)
invariant $it > 0 ? rdLen[old(rdN)] == length && len(keys) == nmiss(rdHas[rdN-1], rdGot[rdN-1], rdLen[rdN-1]) : len(keys) == length
invariant forall r int :: { rdLen[r] } old(rdN) < r && r < rdN ==> rdLen[r] == nmiss(rdHas[r-1], rdGot[r-1], rdLen[r-1])
invariant forall r int :: { mgW[r] } old(rdN) < r && r <= rdN ==> mgW[r] == mgW[r-1] + (anyHit(rdHas[r-1], rdGot[r-1]) ? r - 1 - old(rdN) : 0)
invariant forall r int :: { mgW[r] } old(rdN) <= r && r <= rdN ==> mgW[r] <= wrN
invariant forall r int, w int :: { mgW[r], wrLvl[w] } { mgW[r], wrTTL[w] } { mgW[r], wrKind[w] } old(rdN) <= r < rdN && mgW[r] <= w < mgW[r+1] ==> wrKind[w] == 3 && wrLvl[w] == seq(c.Caches)[w - mgW[r]].Cache && wrTTL[w] == int(seq(c.Caches)[w - mgW[r]].TTL)
invariant forall r int, w int, k K :: { mgW[r], wrDom[w][box(k)] } old(rdN) <= r < rdN && mgW[r] <= w < mgW[r+1] ==> (wrDom[w][box(k)] <==> (exists j int :: { rdHas[r][j] } 0 <= j < rdGot[r] && rdHas[r][j] && rdKey[r][j] == box(k)))
loop 3
invariant fresh(missed) && off(missed) == 0 && len(missed) == nmiss(rdHas[rdN-1], rdGot[rdN-1], $it) && len(missed) <= $it && arr(missed) != arr(positions) && rdGot[rdN-1] == len(oks) && rdGot[rdN-1] <= len(positions)
invariant rdHas[rdN-1] == seq(oks)
invariant forall j int :: { seq(vals)[j] } { rdVal[rdN-1][j] } 0 <= j < len(vals) ==> rdVal[rdN-1][j] == box(seq(vals)[j])
invariant forall j int :: { seq(positions)[j] } 0 <= j < len(positions) ==> 0 <= seq(positions)[j] && seq(positions)[j] < length && mgAt[rdN-1][seq(positions)[j]] == j
invariant forall j int :: { seq(positions)[j] } 0 <= j < $it && (j < rdGot[rdN-1] && rdHas[rdN-1][j]) ==> seq(status)[seq(positions)[j]] && seq(values)[seq(positions)[j]] == seq(vals)[j]
invariant forall j int :: { seq(positions)[j] } 0 <= j < len(positions) && !(j < $it && j < rdGot[rdN-1] && rdHas[rdN-1][j]) ==> !seq(status)[seq(positions)[j]] && seq(values)[seq(positions)[j]] == zero(ty(V))
invariant forall j int :: { seq(positions)[j] } { nmiss(rdHas[rdN-1], rdGot[rdN-1], j) } 0 <= j < $it && !(j < rdGot[rdN-1] && rdHas[rdN-1][j]) ==> nmiss(rdHas[rdN-1], rdGot[rdN-1], j) < len(missed) && nmiss(rdHas[rdN-1], rdGot[rdN-1], j) >= 0 && seq(missed)[nmiss(rdHas[rdN-1], rdGot[rdN-1], j)] == seq(positions)[j]
invariant forall i int :: { seq(status)[i] } { seq(values)[i] } 0 <= i < length && mgAt[rdN-1][i] < 0 ==> seq(status)[i] == pre(seq(status))[i] && seq(values)[i] == pre(seq(values))[i]
invariant forall i int :: { mgAt[rdN-1][i] } { seq(status)[i] } { seq(values)[i] } 0 <= i < length && 0 <= mgAt[rdN-1][i] ==> seq(positions)[mgAt[rdN-1][i]] == i && mgAt[rdN-1][i] < len(positions)
invariant forall i int :: { mgAt[rdN-1][i] } { seq(status)[i] } { seq(values)[i] } 0 <= i < length && 0 <= mgAt[rdN-1][i] && mgAt[rdN-1][i] < $it && mgAt[rdN-1][i] < rdGot[rdN-1] && rdHas[rdN-1][mgAt[rdN-1][i]] ==> seq(status)[i] && box(seq(values)[i]) == rdVal[rdN-1][mgAt[rdN-1][i]]
invariant forall m int :: { seq(missed)[m] } 0 <= m < len(missed) ==> 0 <= seq(missed)[m] && seq(missed)[m] < length && nextAt(mgAt[rdN-1][seq(missed)[m]], rdHas[rdN-1], rdGot[rdN-1]) == m

// ---- NoCache and the views of a batch result ----

func NoCache.Get
params n, ctx, key
results v, has, err
option nilrecv
ensures [C24:nothing] v == zero(ty(V)) && !has && err == nil

func NoCache.Set
option nilrecv
ensures [C24:accepts] result == nil

func NoCache.MSet
option nilrecv
ensures [C24:accepts] result == nil

func NoCache.Delete
option nilrecv
ensures [C24:accepts] result == nil

func NoCache.MGet
params n, ctx, keys
results vals, oks, err
option nilrecv
ensures [C24:aligned] err == nil && len(vals) == len(keys) && len(oks) == len(keys) && (forall i int :: { seq(oks)[i] } 0 <= i < len(keys) ==> !seq(oks)[i]) && (forall i int :: { seq(vals)[i] } 0 <= i < len(keys) ==> seq(vals)[i] == zero(ty(V)))

func MGetter.MGet
params lv, ctx, keys
results vals, oks, err
trusted "any cache: its two lists have the same length, that of the keys if there is no error, and are not kept by the cache; the call is recorded"
modifies rdN, rdLvl, rdLen, rdKey, rdGot, rdHas, rdVal, rdErr
ensures len(vals) == len(oks) && len(oks) <= len(keys) && (err == nil ==> len(oks) == len(keys))
ensures rdN == old(rdN) + 1 && rdLvl == old(rdLvl)[old(rdN) := lv] && rdErr == old(rdErr)[old(rdN) := err] && rdLen == old(rdLen)[old(rdN) := len(keys)] && rdGot == old(rdGot)[old(rdN) := len(oks)]
ensures rdHas == old(rdHas)[old(rdN) := seq(oks)] && (vals == nil || fresh(vals)) && (oks == nil || fresh(oks))
ensures forall j int :: { rdKey[old(rdN)][j] } 0 <= j < len(keys) ==> rdKey[old(rdN)][j] == box(seq(keys)[j])
ensures forall j int :: { rdVal[old(rdN)][j] } { seq(vals)[j] } 0 <= j < len(vals) ==> rdVal[old(rdN)][j] == box(seq(vals)[j])

func MGet
params ctx, cache, keys
results r, err
requires cache != nil
modifies rdN, rdLvl, rdLen, rdKey, rdGot, rdHas, rdVal, rdErr
ensures [C24:asks] rdN == old(rdN) + 1 && rdLvl[old(rdN)] == cache && rdLen[old(rdN)] == len(keys) && err == rdErr[old(rdN)] && (forall j int :: { rdKey[old(rdN)][j] } 0 <= j < len(keys) ==> rdKey[old(rdN)][j] == box(seq(keys)[j]))
ensures [C24:result] r.keys == keys && len(r.hits) == rdGot[old(rdN)] && len(r.values) == len(r.hits) && seq(r.hits) == rdHas[old(rdN)] && (forall j int :: { seq(r.values)[j] } 0 <= j < len(r.values) ==> box(seq(r.values)[j]) == rdVal[old(rdN)][j])

def mrok[K, V](mr MGetResult[K, V]) bool = len(mr.hits) == len(mr.keys) && len(mr.values) == len(mr.keys)
// hits among the first j
rec nhit(h [int]bool, j int) int = j <= 0 ? 0 : nhit(h, j - 1) + (h[j-1] ? 1 : 0)

lemma nhitMono(h [int]bool, a int, b int)
requires 0 <= a <= b
induction b
use a < b ==> nhitMono(h, a, b-1)
ensures nhit(h, a) <= nhit(h, b) && (a < b && h[a] ==> nhit(h, a) < nhit(h, b))

func MGetResult.Range
params mr, fn
option trace
requires mrok(mr) && fn != nil
loop 1
invariant 0 <= $it <= len(mr.keys) && calls(fn) == old(calls(fn)) + $it
invariant forall c int :: { callarg(fn, c, 0, ty(K)) } { callarg(fn, c, 1, ty(bool)) } { callarg(fn, c, 2, ty(V)) } old(calls(fn)) <= c < calls(fn) ==> callarg(fn, c, 0, ty(K)) == seq(mr.keys)[c - old(calls(fn))] && callarg(fn, c, 1, ty(bool)) == seq(mr.hits)[c - old(calls(fn))] && callarg(fn, c, 2, ty(V)) == seq(mr.values)[c - old(calls(fn))] && fn(callarg(fn, c, 0, ty(K)), callarg(fn, c, 1, ty(bool)), callarg(fn, c, 2, ty(V)))
decreases len(mr.keys) - $it
ensures [C24:in-order] forall c int :: { callarg(fn, c, 0, ty(K)) } { callarg(fn, c, 1, ty(bool)) } { callarg(fn, c, 2, ty(V)) } old(calls(fn)) <= c < calls(fn) ==> callarg(fn, c, 0, ty(K)) == seq(mr.keys)[c - old(calls(fn))] && callarg(fn, c, 1, ty(bool)) == seq(mr.hits)[c - old(calls(fn))] && callarg(fn, c, 2, ty(V)) == seq(mr.values)[c - old(calls(fn))]
ensures [C24:until] old(calls(fn)) <= calls(fn) <= old(calls(fn)) + len(mr.keys) && (calls(fn) == old(calls(fn)) + len(mr.keys) || calls(fn) > old(calls(fn)) && !fn(callarg(fn, calls(fn)-1, 0, ty(K)), callarg(fn, calls(fn)-1, 1, ty(bool)), callarg(fn, calls(fn)-1, 2, ty(V))))

func MGetResult.RangeHit
params mr, fn
option trace
option shareloops
requires mrok(mr) && fn != nil
loop 1
invariant 0 <= idx <= len(mr.keys) && 0 <= nhit(seq(mr.hits), idx)
invariant [C24:hits-only] calls(fn) == old(calls(fn)) + nhit(seq(mr.hits), idx)
invariant [C24:hits-only] forall j int :: { seq(mr.keys)[j] } { nhit(seq(mr.hits), j) } 0 <= j < idx && seq(mr.hits)[j] ==> 0 <= nhit(seq(mr.hits), j) && nhit(seq(mr.hits), j) < nhit(seq(mr.hits), idx) && callarg(fn, old(calls(fn)) + nhit(seq(mr.hits), j), 0, ty(K)) == seq(mr.keys)[j] && callarg(fn, old(calls(fn)) + nhit(seq(mr.hits), j), 1, ty(V)) == seq(mr.values)[j]
decreases len(mr.keys) - idx
exit use forall a int, b int :: { nhit(seq(mr.hits), a), nhit(seq(mr.hits), b) } 0 <= a <= b ==> nhitMono(seq(mr.hits), a, b)
ensures [C24:in-order] forall j int :: { seq(mr.keys)[j] } 0 <= j < len(mr.keys) && seq(mr.hits)[j] && nhit(seq(mr.hits), j) < calls(fn) - old(calls(fn)) ==> callarg(fn, old(calls(fn)) + nhit(seq(mr.hits), j), 0, ty(K)) == seq(mr.keys)[j] && callarg(fn, old(calls(fn)) + nhit(seq(mr.hits), j), 1, ty(V)) == seq(mr.values)[j]
ensures [C24:until] old(calls(fn)) <= calls(fn) && (calls(fn) == old(calls(fn)) + nhit(seq(mr.hits), len(mr.keys)) || calls(fn) > old(calls(fn)) && !fn(callarg(fn, calls(fn)-1, 0, ty(K)), callarg(fn, calls(fn)-1, 1, ty(V))))

func MGetResult.HitKeys
params mr
results r
option shareloops
requires mrok(mr)
ensures [C24:hit-keys] fresh(r) && len(r) == nhit(seq(mr.hits), len(mr.keys)) && (forall j int :: { seq(mr.keys)[j] } 0 <= j < len(mr.keys) && seq(mr.hits)[j] ==> 0 <= nhit(seq(mr.hits), j) < len(r) && seq(r)[nhit(seq(mr.hits), j)] == seq(mr.keys)[j])
loop 1
invariant 0 <= idx <= len(mr.keys) && fresh(result) && len(result) == nhit(seq(mr.hits), idx) && len(result) <= idx && off(result) == 0 && (forall j int :: { seq(mr.keys)[j] } { nhit(seq(mr.hits), j) } 0 <= j < idx && seq(mr.hits)[j] ==> 0 <= nhit(seq(mr.hits), j) < len(result) && seq(result)[nhit(seq(mr.hits), j)] == seq(mr.keys)[j])
decreases len(mr.keys) - idx

// misses among the first j
rec nmis(h [int]bool, j int) int = j <= 0 ? 0 : nmis(h, j - 1) + (h[j-1] ? 0 : 1)

lemma nmisMono(h [int]bool, a int, b int)
requires 0 <= a <= b
induction b
use a < b ==> nmisMono(h, a, b-1)
ensures nmis(h, a) <= nmis(h, b) && (a < b && !h[a] ==> nmis(h, a) < nmis(h, b))

func MGetResult.RangeMiss
params mr, fn
option trace
option shareloops
requires mrok(mr) && fn != nil
loop 1
invariant 0 <= idx <= len(mr.keys) && 0 <= nmis(seq(mr.hits), idx)
invariant [C24:misses-only] calls(fn) == old(calls(fn)) + nmis(seq(mr.hits), idx)
invariant [C24:misses-only] forall j int :: { seq(mr.keys)[j] } { nmis(seq(mr.hits), j) } 0 <= j < idx && !seq(mr.hits)[j] ==> 0 <= nmis(seq(mr.hits), j) && nmis(seq(mr.hits), j) < nmis(seq(mr.hits), idx) && callarg(fn, old(calls(fn)) + nmis(seq(mr.hits), j), 0, ty(K)) == seq(mr.keys)[j]
decreases len(mr.keys) - idx
exit use forall a int, b int :: { nmis(seq(mr.hits), a), nmis(seq(mr.hits), b) } 0 <= a <= b ==> nmisMono(seq(mr.hits), a, b)
ensures [C24:in-order] forall j int :: { seq(mr.keys)[j] } 0 <= j < len(mr.keys) && !seq(mr.hits)[j] && nmis(seq(mr.hits), j) < calls(fn) - old(calls(fn)) ==> callarg(fn, old(calls(fn)) + nmis(seq(mr.hits), j), 0, ty(K)) == seq(mr.keys)[j]
ensures [C24:until] old(calls(fn)) <= calls(fn) && (calls(fn) == old(calls(fn)) + nmis(seq(mr.hits), len(mr.keys)) || calls(fn) > old(calls(fn)) && !fn(callarg(fn, calls(fn)-1, 0, ty(K))))

func MGetResult.MissKeys
params mr
results r
option shareloops
requires mrok(mr)
ensures [C24:miss-keys] fresh(r) && len(r) == nmis(seq(mr.hits), len(mr.keys)) && (forall j int :: { seq(mr.keys)[j] } 0 <= j < len(mr.keys) && !seq(mr.hits)[j] ==> 0 <= nmis(seq(mr.hits), j) < len(r) && seq(r)[nmis(seq(mr.hits), j)] == seq(mr.keys)[j])
loop 1
invariant 0 <= idx <= len(mr.keys) && fresh(result) && len(result) == nmis(seq(mr.hits), idx) && len(result) <= idx && off(result) == 0 && (forall j int :: { seq(mr.keys)[j] } { nmis(seq(mr.hits), j) } 0 <= j < idx && !seq(mr.hits)[j] ==> 0 <= nmis(seq(mr.hits), j) < len(result) && seq(result)[nmis(seq(mr.hits), j)] == seq(mr.keys)[j])
decreases len(mr.keys) - idx

func MGetResult.HitMissKeys
params mr
results hits, misses
requires mrok(mr)
ensures [C24:hit-keys] fresh(hits) && len(hits) == nhit(seq(mr.hits), len(mr.keys)) && (forall j int :: { seq(mr.keys)[j] } 0 <= j < len(mr.keys) && seq(mr.hits)[j] ==> 0 <= nhit(seq(mr.hits), j) < len(hits) && seq(hits)[nhit(seq(mr.hits), j)] == seq(mr.keys)[j])
ensures [C24:miss-keys] fresh(misses) && len(misses) == nmis(seq(mr.hits), len(mr.keys)) && (forall j int :: { seq(mr.keys)[j] } 0 <= j < len(mr.keys) && !seq(mr.hits)[j] ==> 0 <= nmis(seq(mr.hits), j) < len(misses) && seq(misses)[nmis(seq(mr.hits), j)] == seq(mr.keys)[j])
loop 1
invariant 0 <= idx <= len(mr.keys) && fresh(hit) && fresh(miss) && arr(hit) != arr(miss) && len(hit) == nhit(seq(mr.hits), idx) && len(hit) <= idx && off(hit) == 0 && len(miss) == nmis(seq(mr.hits), idx) && len(miss) <= idx && off(miss) == 0
invariant forall j int :: { seq(mr.keys)[j] } { nhit(seq(mr.hits), j) } 0 <= j < idx && seq(mr.hits)[j] ==> 0 <= nhit(seq(mr.hits), j) < len(hit) && seq(hit)[nhit(seq(mr.hits), j)] == seq(mr.keys)[j]
invariant forall j int :: { seq(mr.keys)[j] } { nmis(seq(mr.hits), j) } 0 <= j < idx && !seq(mr.hits)[j] ==> 0 <= nmis(seq(mr.hits), j) < len(miss) && seq(miss)[nmis(seq(mr.hits), j)] == seq(mr.keys)[j]
decreases len(mr.keys) - idx

// the value of the last hit of a key counts
func MGetResult.HitMapValues
params mr
results r
option shareloops
requires mrok(mr)
ensures [C24:hit-map] fresh(r) && (forall k K :: { k in r } k in r <==> found(seq(mr.keys), seq(mr.hits), len(mr.keys), k)) && (forall j int :: { seq(mr.hits)[j] } 0 <= j < len(mr.keys) && seq(mr.hits)[j] && (forall l int :: { seq(mr.hits)[l] } j < l < len(mr.keys) && seq(mr.hits)[l] ==> seq(mr.keys)[l] != seq(mr.keys)[j]) ==> r[seq(mr.keys)[j]] == seq(mr.values)[j])
loop 1
invariant 0 <= idx <= len(mr.keys) && result != nil && fresh(result) && (forall k K :: { k in result } k in result <==> found(seq(mr.keys), seq(mr.hits), idx, k)) && (forall j int :: { seq(mr.hits)[j] } 0 <= j < idx && seq(mr.hits)[j] && (forall l int :: { seq(mr.hits)[l] } j < l < idx && seq(mr.hits)[l] ==> seq(mr.keys)[l] != seq(mr.keys)[j]) ==> result[seq(mr.keys)[j]] == seq(mr.values)[j])
decreases len(mr.keys) - idx
