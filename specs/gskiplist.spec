package gskiplist

// The nodes of a list by key: node[k] is the entry of key k or nil. at[1..n] are the keys in ascending order, pos is the inverse.
ghost field SkipList.node [K]*SkipListElement[K,V]
ghost field SkipList.at [int]K
ghost field SkipList.pos [K]int

// every node carries its own key and a level that the list knows
def sk_nodes[K, V](t *SkipList[K,V], N [K]*SkipListElement[K,V]) bool =
  forall k K :: { N[k] } N[k] != nil ==> N[k].key == k && alloced(N[k]) && 0 <= N[k].level && N[k].level <= t.maxLevel && N[k].level < 25

// the keys with nodes are exactly at[1] < .. < at[n]
def sk_ranked[K, V](N [K]*SkipListElement[K,V], at [int]K, pos [K]int, n int) bool =
  n >= 0
  && (forall k K :: { N[k] } { pos[k] } N[k] != nil ==> 1 <= pos[k] && pos[k] <= n && at[pos[k]] == k)
  && (forall i int :: { at[i] } 1 <= i && i <= n ==> N[at[i]] != nil && pos[at[i]] == i)
  && (forall k K, m K :: { pos[k], pos[m] } N[k] != nil && N[m] != nil && k < m ==> pos[k] < pos[m])

def skIn[K, V](N [K]*SkipListElement[K,V], e *SkipListElement[K,V]) bool = e != nil && N[e.key] == e

// the forward links of levels a .. b lead to the next key of that level
def sk_chain[K, V](N [K]*SkipListElement[K,V], a int, b int) bool =
  (forall k K, lv int :: { N[k].next[lv] } N[k] != nil && a <= lv && lv <= b && lv <= N[k].level && N[k].next[lv] != nil ==> N[N[k].next[lv].key] == N[k].next[lv] && k < N[k].next[lv].key && lv <= N[k].next[lv].level)
  && (forall k K, m K, lv int :: { N[k].next[lv], N[m] } N[k] != nil && N[m] != nil && a <= lv && lv <= b && lv <= N[k].level && lv <= N[m].level && k < m ==> N[k].next[lv] != nil && N[k].next[lv].key <= m)

// the entry points of levels a .. b are the first and last nodes of that level
def sk_starts[K, V](t *SkipList[K,V], N [K]*SkipListElement[K,V], a int, b int) bool =
  (forall lv int :: { t.startLevels[lv] } a <= lv && lv <= b && t.startLevels[lv] != nil ==> N[t.startLevels[lv].key] == t.startLevels[lv] && lv <= t.startLevels[lv].level)
  && (forall m K, lv int :: { t.startLevels[lv], N[m] } N[m] != nil && a <= lv && lv <= b && lv <= N[m].level ==> t.startLevels[lv] != nil && t.startLevels[lv].key <= m)
def sk_ends[K, V](t *SkipList[K,V], N [K]*SkipListElement[K,V], a int, b int) bool =
  (forall lv int :: { t.endLevels[lv] } a <= lv && lv <= b && t.endLevels[lv] != nil ==> N[t.endLevels[lv].key] == t.endLevels[lv] && lv <= t.endLevels[lv].level)
  && (forall m K, lv int :: { t.endLevels[lv], N[m] } N[m] != nil && a <= lv && lv <= b && lv <= N[m].level ==> t.endLevels[lv] != nil && m <= t.endLevels[lv].key)

// the backward links lead to the next smaller key
def sk_back[K, V](N [K]*SkipListElement[K,V]) bool =
  (forall k K :: { N[k].prev } N[k] != nil && N[k].prev != nil ==> N[N[k].prev.key] == N[k].prev && N[k].prev.key < k)
  && (forall k K, m K :: { N[k].prev, N[m] } N[k] != nil && N[m] != nil && m < k ==> N[k].prev != nil && m <= N[k].prev.key)

def skOK[K, V](t *SkipList[K,V]) bool =
  t != nil && t.maxNewLevel == 25 && 0-1 <= t.maxLevel && t.maxLevel < 25 && t.elementCount < 1152921504606846976
  && sk_nodes(t, t.node) && sk_ranked(t.node, t.at, t.pos, t.elementCount)
  && sk_chain(t.node, 0, 24) && sk_starts(t, t.node, 0, 24) && sk_ends(t, t.node, 0, 24) && sk_back(t.node)

func New
ensures [C09,C10:empty] fresh(result) && skOK(result) && result.elementCount == 0 && (forall k K :: { result.node[k] } result.node[k] == nil)
set result.node@(k K) := nil

func SkipList.IsEmpty
params t
ensures result <==> t.startLevels[0] == nil
ensures [C09:empty] skOK(t) ==> (result <==> t.elementCount == 0)

func SkipList.GetNodeCount
params t
requires skOK(t)
ensures [C09:count] result == t.elementCount && sk_ranked(t.node, t.at, t.pos, result)

func SkipList.generateLevel
params t, maxLevel
requires maxLevel == 25
ensures 0 <= result && result < 25

// the entry level: no key that is looked for is left of the entry node
func SkipList.findEntryIndex
params t, key, level
requires t.maxLevel < 25 && 0 <= level && level < 25
loop 1
invariant i <= t.maxLevel && i < 25
invariant forall lv int :: { t.startLevels[lv] } i < lv && lv <= t.maxLevel ==> lv > level && (t.startLevels[lv] == nil || key < t.startLevels[lv].key)
decreases i
ensures 0 <= result && result < 25 && (result <= t.maxLevel || result == 0)
ensures forall lv int :: { t.startLevels[lv] } result < lv && lv <= t.maxLevel ==> lv > level && (t.startLevels[lv] == nil || key < t.startLevels[lv].key)
ensures result <= level || t.startLevels[result] != nil && t.startLevels[result].key <= key

func SkipList.findExtended
params t, key, findGreaterOrEqual
results e, ok
requires skOK(t)
loop 1
invariant 0 <= index && index < 25 && skIn(t.node, currentNode) && index <= currentNode.level
invariant currentNode.key <= key || !findGreaterOrEqual && index == 0 && currentNode == t.startLevels[0]
decreases index + t.elementCount - t.pos[currentNode.key]
ensures [C09:find] ok <==> e != nil
ensures [C09:find] e != nil ==> skIn(t.node, e)
ensures [C09:find] !findGreaterOrEqual ==> e == t.node[key]
ensures [C09:search] findGreaterOrEqual && e != nil ==> key <= e.key
ensures [C09:search] findGreaterOrEqual ==> (forall m K :: { t.node[m] } t.node[m] != nil && key <= m ==> e != nil && e.key <= m)

func SkipList.Find
params t, key
results v, ok
option nilrecv
requires t == nil || skOK(t)
ensures [C09:find] ok <==> t != nil && t.node[key] != nil
ensures [C09:find] v == (ok ? t.node[key].value : zero(ty(V)))

func SkipList.FindGreaterOrEqual
params t, key
results e, ok
option nilrecv
requires t == nil || skOK(t)
ensures [C09:search] ok <==> e != nil
ensures [C09:search] e != nil ==> t != nil && skIn(t.node, e) && key <= e.key
ensures [C09:search] t != nil ==> (forall m K :: { t.node[m] } t.node[m] != nil && key <= m ==> e != nil && e.key <= m)

func SkipList.ChangeValue
params t, key, newValue
requires skOK(t)
modifies SkipListElement.value at t.node[key]
ensures [C09:change] result <==> old(t.node[key]) != nil
ensures [C09:change] result ==> t.node[key].value == newValue
ensures skOK(t)

func SkipListElement.GetValue
params e
option nilrecv
ensures [C09:value] result == (e == nil ? zero(ty(V)) : e.value)

func SkipList.GetSmallestNode
params t
requires skOK(t)
ensures [C10:smallest] t.elementCount == 0 ? result == nil : skIn(t.node, result) && t.pos[result.key] == 1

func SkipList.GetLargestNode
params t
requires skOK(t)
ensures [C10:largest] t.elementCount == 0 ? result == nil : skIn(t.node, result) && t.pos[result.key] == t.elementCount

func SkipList.Next
params t, e
requires skOK(t) && skIn(t.node, e)
ensures [C10:next] let p := (t.pos[e.key] == t.elementCount ? 1 : t.pos[e.key] + 1) :: result != nil && result == t.node[t.at[p]] && result.key == t.at[p] && t.pos[t.at[p]] == p

func SkipList.Prev
params t, e
requires skOK(t) && skIn(t.node, e)
ensures [C10:prev] let p := (t.pos[e.key] == 1 ? t.elementCount : t.pos[e.key] - 1) :: result != nil && result == t.node[t.at[p]] && result.key == t.at[p] && t.pos[t.at[p]] == p

func SkipList.Delete
option merge
params t, key
option nilrecv
requires t == nil || skOK(t)
modifies SkipListElement.next
modifies SkipListElement.prev
modifies SkipList.startLevels at t
modifies SkipList.endLevels at t
modifies SkipList.maxLevel at t
modifies SkipList.elementCount at t
modifies SkipList.node at t
modifies SkipList.at at t
modifies SkipList.pos at t
set t.node := old(t.node)[key := nil]
set t.at@(i int) := old(t.node[key]) == nil || i < old(t.pos[key]) ? old(t.at)[i] : old(t.at)[i+1]
set t.pos@(k K) := old(t.node[key]) == nil || k <= key ? old(t.pos)[k] : old(t.pos)[k] - 1
loop 1
invariant 0 <= index && index < 25 && t.maxLevel < 25 && 0-1 <= t.maxLevel
invariant currentNode != nil ==> skIn(t.node, currentNode) && currentNode.key < key && index <= currentNode.level
invariant t.elementCount == old(t.elementCount)
invariant forall k K :: { t.node[k] } t.node[k] != nil && k != key ==> t.node[k].level <= t.maxLevel
invariant sk_chain(t.node, 0, index)
invariant sk_starts(t, t.node, 0, index)
invariant sk_ends(t, t.node, 0, index)
invariant sk_chain(t.node[key := nil], index + 1, 24)
invariant sk_starts(t, t.node[key := nil], index + 1, 24)
invariant sk_ends(t, t.node[key := nil], index + 1, 24)
invariant sk_back(t.node)
invariant forall e *SkipListElement[K,V] :: { e.next } { e.prev } !skIn(t.node, e) ==> e.next == old(e.next) && e.prev == old(e.prev)
decreases index + old(t.elementCount) - (currentNode == nil ? 0 : old(t.pos)[currentNode.key])
ensures [C09,C10:delete] t != nil ==> t.node == old(t.node)[key := nil] && skOK(t)
ensures [C09,C10:others] t != nil ==> (forall e *SkipListElement[K,V] :: { e.next } { e.prev } !skIn(old(t.node), e) ==> e.next == old(e.next) && e.prev == old(e.prev))

func SkipList.Insert
option merge
params t, key, e
option nilrecv
requires t == nil || skOK(t) && t.elementCount < 1152921504606846975
modifies SkipListElement.next
modifies SkipListElement.prev
modifies SkipListElement.value
modifies SkipListElement.key at fresh
modifies SkipListElement.level at fresh
modifies SkipList.startLevels at t
modifies SkipList.endLevels at t
modifies SkipList.maxLevel at t
modifies SkipList.elementCount at t
modifies SkipList.node at t
modifies SkipList.at at t
modifies SkipList.pos at t
loop 1
invariant 0 <= index && index < 25
invariant currentNode != nil ==> skIn(t.node, currentNode) && currentNode.key < key && index <= currentNode.level
invariant currentNode == nil ==> elem.prev == nil
invariant sk_chain(t.node, 0, index)
invariant sk_chain(t.node, level + 1, 24)
invariant forall k K, lv int :: { t.node[k].next[lv] } t.node[k] != nil && index < lv && lv <= level && lv <= t.node[k].level && t.node[k].next[lv] != nil ==> t.node[k].next[lv] == elem && k < key || t.node[t.node[k].next[lv].key] == t.node[k].next[lv] && k < t.node[k].next[lv].key && lv <= t.node[k].next[lv].level
invariant forall k K, m K, lv int :: { t.node[k].next[lv], t.node[m] } t.node[k] != nil && t.node[m] != nil && index < lv && lv <= level && lv <= t.node[k].level && lv <= t.node[m].level && k < m ==> t.node[k].next[lv] != nil && t.node[k].next[lv].key <= m
invariant forall k K, lv int :: { t.node[k].next[lv] } t.node[k] != nil && index < lv && lv <= level && lv <= t.node[k].level && k < key ==> t.node[k].next[lv] != nil && t.node[k].next[lv].key <= key
invariant forall lv int :: { elem.next[lv] } index < lv && lv <= level && elem.next[lv] != nil ==> t.node[elem.next[lv].key] == elem.next[lv] && key < elem.next[lv].key && lv <= elem.next[lv].level
invariant forall m K, lv int :: { elem.next[lv], t.node[m] } index < lv && lv <= level && t.node[m] != nil && key < m && lv <= t.node[m].level ==> elem.next[lv] != nil && elem.next[lv].key <= m
invariant sk_back(t.node)
decreases index + old(t.elementCount) - (currentNode == nil ? 0 : old(t.pos)[currentNode.key])
invariant forall e *SkipListElement[K,V] :: { e.next } { e.prev } old(alloced(e)) && !skIn(old(t.node), e) ==> e.next == old(e.next) && e.prev == old(e.prev)
loop 2
before set t.at@(i int) := let p := (newFirst ? 1 : newLast ? old(t.elementCount) + 1 : elem.prev == nil ? 1 : old(t.pos)[elem.prev.key] + 1) :: i < p ? old(t.at)[i] : i == p ? key : old(t.at)[i-1]
before set t.pos@(k K) := let p := (newFirst ? 1 : newLast ? old(t.elementCount) + 1 : elem.prev == nil ? 1 : old(t.pos)[elem.prev.key] + 1) :: k == key ? p : k < key ? old(t.pos)[k] : old(t.pos)[k] + 1
before set t.node := old(t.node)[key := elem]
invariant 0-1 <= i && i <= level
decreases i + 1
invariant newFirst ==> (forall k K :: { t.node[k] } t.node[k] != nil && k != key ==> key < k) && elem.prev == nil
invariant newLast ==> (forall k K :: { t.node[k] } t.node[k] != nil && k != key ==> k < key)
invariant newFirst && newLast ==> (forall k K :: { t.node[k] } t.node[k] != nil ==> k == key)
invariant !normallyInserted ==> (newFirst || newLast) && (forall lv int :: { elem.next[lv] } lv <= i || newLast ==> elem.next[lv] == nil) && (i >= 0 ==> elem.prev == nil)
invariant sk_chain(t.node, i + 1, 24)
invariant sk_starts(t, t.node, i + 1, 24)
invariant sk_ends(t, t.node, i + 1, 24)
invariant sk_starts(t, old(t.node), 0, i)
invariant sk_ends(t, old(t.node), 0, i)
invariant !normallyInserted ==> sk_chain(old(t.node), 0, i)
invariant normallyInserted ==> sk_chain(t.node, 0, i)
invariant i >= 0 && !normallyInserted ==> sk_back(old(t.node))
invariant i < 0 || normallyInserted ==> sk_back(t.node)
invariant forall e *SkipListElement[K,V] :: { e.next } { e.prev } old(alloced(e)) && !skIn(old(t.node), e) ==> e.next == old(e.next) && e.prev == old(e.prev)
ensures [C09,C10:insert] t != nil ==> skOK(t) && t.node[key] != nil && t.node[key].value == e && (old(t.node[key]) != nil ==> t.node == old(t.node)) && (old(t.node[key]) == nil ==> fresh(t.node[key]) && t.node == old(t.node)[key := t.node[key]])
ensures [C09:values] t != nil ==> (forall k K :: { t.node[k] } k != key && t.node[k] != nil ==> t.node[k].value == old(t.node[k].value))
ensures [C09,C10:others] t != nil ==> (forall e *SkipListElement[K,V] :: { e.next } { e.prev } { e.value } old(alloced(e)) && !skIn(old(t.node), e) ==> e.next == old(e.next) && e.prev == old(e.prev) && e.value == old(e.value))
