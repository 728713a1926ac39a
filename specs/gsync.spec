package gsync

// The read-only map of a Map and its entries: the entry of a key is the one of the read-only map or, when that is marked
// as amended, the one of the dirty map.
def sm_rmap[K, V](m *Map[K,V]) map[K]*entry[V] = m.read == nil ? nil : m.read.m
def sm_amended[K, V](m *Map[K,V]) bool = m.read != nil && m.read.amended
def sm_ent[K, V](m *Map[K,V], k K) *entry[V] = k in sm_rmap(m) ? sm_rmap(m)[k] : sm_amended(m) && (k in m.dirty) ? m.dirty[k] : nil

// a key is present when its entry holds a value
def sm_live[V](e *entry[V]) bool = e != nil && e.p != nil && e.p != expunged
def sm_has[K, V](m *Map[K,V], k K) bool = sm_live(sm_ent(m, k))
def sm_val[K, V](m *Map[K,V], k K) V = *sm_ent(m, k).p

def smOK[K, V](m *Map[K,V]) bool =
  m != nil && m.mu == 0 && m.misses <= len(m.dirty) && (sm_amended(m) <==> m.dirty != nil) && smIn(m)

def smIn[K, V](m *Map[K,V]) bool =
  m != nil && 0 <= m.misses
  && (m.dirty != nil ==> m.dirty != sm_rmap(m))
  && (forall k K :: { sm_rmap(m)[k] } { k in sm_rmap(m) } (k in sm_rmap(m)) ==> sm_rmap(m)[k] != nil && alloced(sm_rmap(m)[k]) && (sm_rmap(m)[k].p != nil ==> alloced(sm_rmap(m)[k].p)))
  && (forall k K :: { m.dirty[k] } { k in m.dirty } (k in m.dirty) ==> m.dirty[k] != nil && alloced(m.dirty[k]) && m.dirty[k].p != expunged && (m.dirty[k].p != nil ==> alloced(m.dirty[k].p)))
  && (forall k K :: { sm_rmap(m)[k] } { k in sm_rmap(m) } (k in sm_rmap(m)) && sm_rmap(m)[k].p == expunged ==> m.dirty != nil && !(k in m.dirty))
  && (forall k K :: { sm_rmap(m)[k] } { k in sm_rmap(m) } (k in sm_rmap(m)) && sm_rmap(m)[k].p != expunged && m.dirty != nil ==> (k in m.dirty) && m.dirty[k] == sm_rmap(m)[k])
  && (forall k K, j K :: { sm_rmap(m)[k], sm_rmap(m)[j] } (k in sm_rmap(m)) && (j in sm_rmap(m)) && sm_rmap(m)[k] == sm_rmap(m)[j] ==> k == j)
  && (forall k K, j K :: { sm_rmap(m)[k], m.dirty[j] } (k in sm_rmap(m)) && (j in m.dirty) && sm_rmap(m)[k] == m.dirty[j] ==> k == j)
  && (forall k K, j K :: { m.dirty[k], m.dirty[j] } (k in m.dirty) && (j in m.dirty) && m.dirty[k] == m.dirty[j] ==> k == j)

lemma sm_zero[K, V](m *Map[K,V])
requires m != nil && m.mu == 0 && m.read == nil && m.dirty == nil && m.misses == 0
ensures [C14:empty] smOK(m) && (forall k K :: { sm_ent(m, k) } !sm_has(m, k))

func newEntry
params i
results e
ensures fresh(e) && alloced(e) && e.p != nil && fresh(e.p) && alloced(e.p) && *e.p == i && e.p != expunged

func Map.loadReadOnly
params m
results r
ensures r.m == sm_rmap(m) && r.amended == sm_amended(m)

func entry.load
params e
results value, ok
requires e != nil
ensures ok <==> sm_live(e)
ensures value == (ok ? *e.p : zero(ty(V)))

func Map.missLocked
params m
requires m.misses <= len(m.dirty) + 1 && len(m.dirty) <= 1152921504606846976
requires m != nil && m.dirty != nil && sm_amended(m) && smIn(m)
modifies Map.read at m
modifies Map.dirty at m
modifies Map.misses at m
ensures smIn(m) && (sm_amended(m) <==> m.dirty != nil) && m.misses <= len(m.dirty)
ensures [C14:promotion] forall k K :: { sm_ent(m, k) } sm_live(sm_ent(m, k)) == sm_live(old(sm_ent(m, k))) && (sm_has(m, k) ==> sm_ent(m, k) == old(sm_ent(m, k)))

func entry.tryCompareAndSwap
params e, was, new
requires e != nil
modifies entry.p at e
loop 1
invariant p == e.p && e.p == old(e.p) && sm_live(e) && *p == was
decreases 0
ensures result <==> old(sm_live(e)) && old(*e.p) == was
ensures result ==> fresh(e.p) && alloced(e.p) && *e.p == new
ensures !result ==> e.p == old(e.p)

func entry.unexpungeLocked
params e
results was
requires e != nil
modifies entry.p at e
ensures was <==> old(e.p) == expunged
ensures e.p == (was ? nil : old(e.p))

func entry.swapLocked
params e, i
results r
requires e != nil
modifies entry.p at e
ensures r == old(e.p) && e.p == i

func entry.tryLoadOrStore
params e, i
results actual, loaded, ok
requires e != nil
modifies entry.p at e
loop 1
invariant p == e.p && e.p == old(e.p) && p == nil
decreases 0
ensures ok <==> old(e.p) != expunged
ensures loaded <==> old(sm_live(e))
ensures loaded ==> actual == old(*e.p)
ensures ok && !loaded ==> fresh(e.p) && alloced(e.p) && *e.p == i && actual == i
ensures !ok || loaded ==> e.p == old(e.p)

func entry.delete
params e
results value, ok
requires e != nil
modifies entry.p at e
loop 1
invariant e.p == old(e.p)
decreases 0
ensures ok <==> old(sm_live(e))
ensures value == (ok ? old(*e.p) : zero(ty(V)))
ensures e.p == (ok ? nil : old(e.p))

func entry.trySwap
params e, i
results v, ok
requires e != nil
modifies entry.p at e
loop 1
invariant e.p == old(e.p)
decreases 0
ensures ok <==> old(e.p) != expunged
ensures v == (ok ? old(e.p) : nil)
ensures e.p == (ok ? i : old(e.p))

func entry.tryExpungeLocked
params e
results is
requires e != nil
modifies entry.p at e
loop 1
invariant p == e.p && e.p == old(e.p)
decreases 0
ensures is <==> old(e.p) == nil || old(e.p) == expunged
ensures e.p == (old(e.p) == nil ? expunged : old(e.p))

func Map.dirtyLocked
params m
requires m != nil && smIn(m) && !sm_amended(m) && m.dirty == nil
modifies Map.dirty at m
modifies entry[V].p
loop 1
invariant m.dirty != nil && fresh(m.dirty)
invariant forall k K :: { k in m.dirty } { m.dirty[k] } (k in m.dirty) ==> (k in $vis) && (k in sm_rmap(m)) && m.dirty[k] == sm_rmap(m)[k]
invariant forall k K :: { k in $vis } { k in m.dirty } (k in $vis) ==> ((k in m.dirty) <==> sm_rmap(m)[k].p != expunged)
invariant forall k K :: { sm_rmap(m)[k] } (k in sm_rmap(m)) ==> sm_rmap(m)[k].p == ((k in $vis) && old(sm_rmap(m)[k].p) == nil ? expunged : old(sm_rmap(m)[k].p))
ensures smIn(m) && m.dirty != nil && fresh(m.dirty)
ensures forall k K :: { k in m.dirty } (k in m.dirty) ==> (k in sm_rmap(m))
ensures forall k K :: { sm_rmap(m)[k] } (k in sm_rmap(m)) ==> sm_live(sm_rmap(m)[k]) == old(sm_live(sm_rmap(m)[k])) && (sm_live(sm_rmap(m)[k]) ==> sm_rmap(m)[k].p == old(sm_rmap(m)[k].p))

func Map.Load
params m, key
results value, ok
requires smOK(m)
modifies Map.read at m
modifies Map.dirty at m
modifies Map.misses at m
modifies Map.mu at m
ensures smOK(m)
ensures [C14:load] ok <==> old(sm_has(m, key))
ensures [C14:load] value == (ok ? old(sm_val(m, key)) : zero(ty(V)))
ensures [C14:keeps] forall k K :: { sm_ent(m, k) } sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))

func Map.Store
params m, key, value
requires smOK(m)
modifies Map.read at m
modifies Map.dirty at m
modifies Map.misses at m
modifies Map.mu at m
modifies Map(K,*entry[V]) at m.dirty and fresh
modifies entry[V].p
ensures smOK(m)
ensures [C14:store] sm_has(m, key) && sm_val(m, key) == value
ensures [C14:others] forall k K :: { sm_ent(m, k) } k != key ==> sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))

func Map.LoadOrStore
params m, key, value
results actual, loaded
requires smOK(m)
modifies Map.read at m
modifies Map.dirty at m
modifies Map.misses at m
modifies Map.mu at m
modifies Map(K,*entry[V]) at m.dirty and fresh
modifies entry[V].p
ensures smOK(m)
ensures [C14:load-or-store] loaded <==> old(sm_has(m, key))
ensures [C14:load-or-store] actual == (loaded ? old(sm_val(m, key)) : value)
ensures [C14:load-or-store] sm_has(m, key) && sm_val(m, key) == actual
ensures [C14:others] forall k K :: { sm_ent(m, k) } k != key ==> sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))

func Map.LoadAndDelete
params m, key
results value, loaded
requires smOK(m)
modifies Map.read at m
modifies Map.dirty at m
modifies Map.misses at m
modifies Map.mu at m
modifies Map(K,*entry[V]) at m.dirty and fresh
modifies entry[V].p
ensures smOK(m)
ensures [C14:load-and-delete] loaded <==> old(sm_has(m, key))
ensures [C14:load-and-delete] value == (loaded ? old(sm_val(m, key)) : zero(ty(V)))
ensures [C14:load-and-delete] !sm_has(m, key)
ensures [C14:others] forall k K :: { sm_ent(m, k) } k != key ==> sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))

func Map.Delete
params m, key
requires smOK(m)
modifies Map.read at m
modifies Map.dirty at m
modifies Map.misses at m
modifies Map.mu at m
modifies Map(K,*entry[V]) at m.dirty and fresh
modifies entry[V].p
ensures smOK(m)
ensures [C14:delete] !sm_has(m, key)
ensures [C14:others] forall k K :: { sm_ent(m, k) } k != key ==> sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))

func Map.Swap
params m, key, value
results previous, loaded
requires smOK(m)
modifies Map.read at m
modifies Map.dirty at m
modifies Map.misses at m
modifies Map.mu at m
modifies Map(K,*entry[V]) at m.dirty and fresh
modifies entry[V].p
ensures smOK(m)
ensures [C14:swap] loaded <==> old(sm_has(m, key))
ensures [C14:swap] previous == (loaded ? old(sm_val(m, key)) : zero(ty(V)))
ensures [C14:swap] sm_has(m, key) && sm_val(m, key) == value
ensures [C14:others] forall k K :: { sm_ent(m, k) } k != key ==> sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))

func Map.CompareAndSwap
params m, key, was, new
results swapped
requires smOK(m)
modifies Map.read at m
modifies Map.dirty at m
modifies Map.misses at m
modifies Map.mu at m
modifies Map(K,*entry[V]) at m.dirty and fresh
modifies entry[V].p
ensures smOK(m)
ensures [C14:compare-and-swap] swapped <==> old(sm_has(m, key)) && old(sm_val(m, key)) == was
ensures [C14:compare-and-swap] swapped ==> sm_has(m, key) && sm_val(m, key) == new
ensures [C14:compare-and-swap] !swapped ==> sm_has(m, key) == old(sm_has(m, key)) && (sm_has(m, key) ==> sm_val(m, key) == old(sm_val(m, key)))
ensures [C14:others] forall k K :: { sm_ent(m, k) } k != key ==> sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))

func Map.CompareAndDelete
option merge
params m, key, was
results deleted
requires smOK(m)
modifies Map.read at m
modifies Map.dirty at m
modifies Map.misses at m
modifies Map.mu at m
modifies Map(K,*entry[V]) at m.dirty and fresh
modifies entry[V].p
loop 1
invariant smOK(m) && (ok ==> e != nil) && (ok && sm_live(e) ? e == sm_ent(m, key) : !sm_has(m, key))
invariant forall k K :: { sm_ent(m, k) } sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))
decreases 0
ensures smOK(m)
ensures [C14:compare-and-delete] deleted <==> old(sm_has(m, key)) && old(sm_val(m, key)) == was
ensures [C14:compare-and-delete] deleted ==> !sm_has(m, key)
ensures [C14:compare-and-delete] !deleted ==> sm_has(m, key) == old(sm_has(m, key)) && (sm_has(m, key) ==> sm_val(m, key) == old(sm_val(m, key)))
ensures [C14:others] forall k K :: { sm_ent(m, k) } k != key ==> sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))

func Map.Range
option merge
option trace
params m, f
requires smOK(m) && f != nil
modifies Map.read at m
modifies Map.dirty at m
modifies Map.misses at m
modifies Map.mu at m
loop 1
invariant smOK(m) && !sm_amended(m) && read.m == sm_rmap(m) && old(calls(f)) <= calls(f)
invariant forall k K :: { sm_ent(m, k) } sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))
invariant forall c int :: { callarg(f, c, 0, ty(K)) } { callarg(f, c, 1, ty(V)) } old(calls(f)) <= c < calls(f) ==> (callarg(f, c, 0, ty(K)) in $vis) && sm_has(m, callarg(f, c, 0, ty(K))) && callarg(f, c, 1, ty(V)) == sm_val(m, callarg(f, c, 0, ty(K)))
invariant forall c int, d int :: { callarg(f, c, 0, ty(K)), callarg(f, d, 0, ty(K)) } old(calls(f)) <= c && c < d && d < calls(f) ==> callarg(f, c, 0, ty(K)) != callarg(f, d, 0, ty(K))
invariant forall k K :: { k in $vis } (k in $vis) && sm_has(m, k) ==> (exists c int :: { callarg(f, c, 0, ty(K)) } old(calls(f)) <= c < calls(f) && callarg(f, c, 0, ty(K)) == k)
invariant forall c int :: { callarg(f, c, 0, ty(K)) } old(calls(f)) <= c < calls(f) ==> f(callarg(f, c, 0, ty(K)), callarg(f, c, 1, ty(V)))
ensures smOK(m)
ensures [C14:keeps] forall k K :: { sm_ent(m, k) } sm_has(m, k) == old(sm_has(m, k)) && (sm_has(m, k) ==> sm_val(m, k) == old(sm_val(m, k)))
ensures [C14:range-pairs] old(calls(f)) <= calls(f) && (forall c int :: { callarg(f, c, 0, ty(K)) } { callarg(f, c, 1, ty(V)) } old(calls(f)) <= c < calls(f) ==> sm_has(m, callarg(f, c, 0, ty(K))) && callarg(f, c, 1, ty(V)) == sm_val(m, callarg(f, c, 0, ty(K))))
ensures [C14:range-once] forall c int, d int :: { callarg(f, c, 0, ty(K)), callarg(f, d, 0, ty(K)) } old(calls(f)) <= c && c < d && d < calls(f) ==> callarg(f, c, 0, ty(K)) != callarg(f, d, 0, ty(K))
ensures [C14:range-until] forall c int :: { callarg(f, c, 0, ty(K)) } old(calls(f)) <= c < calls(f) - 1 ==> f(callarg(f, c, 0, ty(K)), callarg(f, c, 1, ty(V)))
ensures [C14:range-all] calls(f) > old(calls(f)) && !f(callarg(f, calls(f)-1, 0, ty(K)), callarg(f, calls(f)-1, 1, ty(V))) || (forall k K :: { sm_ent(m, k) } sm_has(m, k) ==> (exists c int :: { callarg(f, c, 0, ty(K)) } old(calls(f)) <= c < calls(f) && callarg(f, c, 0, ty(K)) == k))
