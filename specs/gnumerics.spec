package gnumerics

// strict weak order
pred swo[T](less gconstraints.Less[T]) =
  (forall a T :: !less(a, a))
  && (forall a T, b T, c T :: { less(a, b), less(b, c) } less(a, b) && less(b, c) ==> less(a, c))
  && (forall a T, b T, c T :: { less(a, b), less(b, c) } !less(a, b) && !less(b, c) ==> !less(a, c))

func Max
params a, b
ensures [C04:max] result == a || result == b
ensures [C04:max] !(result < a) && !(result < b)

func Min
params a, b
ensures [C04:min] result == a || result == b
ensures [C04:min] !(a < result) && !(b < result)

func MaxCollection
params c
results r
loop 1
invariant exists k int :: 0 <= k <= $it && k < len(c) && maxC == c[k]
invariant forall j int :: 0 <= j <= $it && j < len(c) ==> !(maxC < c[j])
spare invariant exists k int :: 0 <= k && k < len(c) && maxC == c[k]
spare invariant forall j int :: 0 <= j < $it && j < len(c) ==> !(maxC < c[j])
ensures [C04:empty] len(c) == 0 ==> r == zero(ty(T))
ensures [C04:member] len(c) > 0 ==> (exists k int :: 0 <= k < len(c) && r == c[k])
ensures [C04:greatest] forall j int :: 0 <= j < len(c) ==> !(r < c[j])

func MinCollection
params c
results r
loop 1
invariant exists k int :: 0 <= k <= $it && k < len(c) && minC == c[k]
invariant forall j int :: 0 <= j <= $it && j < len(c) ==> !(c[j] < minC)
spare invariant exists k int :: 0 <= k && k < len(c) && minC == c[k]
spare invariant forall j int :: 0 <= j < $it && j < len(c) ==> !(c[j] < minC)
ensures [C04:empty] len(c) == 0 ==> r == zero(ty(T))
ensures [C04:member] len(c) > 0 ==> (exists k int :: 0 <= k < len(c) && r == c[k])
ensures [C04:least] forall j int :: 0 <= j < len(c) ==> !(c[j] < r)

func MaxBy
params c, cmp
results r
requires cmp != nil && swo(cmp)
loop 1
invariant exists k int :: 0 <= k <= $it && k < len(c) && maxC == c[k] && (forall j int :: 0 <= j < k ==> cmp(maxC, c[j]))
invariant forall j int :: 0 <= j <= $it && j < len(c) ==> !cmp(c[j], maxC)
spare invariant exists k int :: 0 <= k && k < len(c) && maxC == c[k] && (forall j int :: 0 <= j < k ==> cmp(maxC, c[j]))
spare invariant forall j int :: 0 <= j < $it && j < len(c) ==> !cmp(c[j], maxC)
ensures [C04:empty] len(c) == 0 ==> r == zero(ty(T))
ensures [C04:first] len(c) > 0 ==> (exists k int :: 0 <= k < len(c) && r == c[k] && (forall j int :: 0 <= j < k ==> cmp(r, c[j])))
ensures [C04:extreme] forall j int :: 0 <= j < len(c) ==> !cmp(c[j], r)

func MinBy
params c, cmp
results r
requires cmp != nil && swo(cmp)
loop 1
invariant exists k int :: 0 <= k <= $it && k < len(c) && minC == c[k] && (forall j int :: 0 <= j < k ==> cmp(minC, c[j]))
invariant forall j int :: 0 <= j <= $it && j < len(c) ==> !cmp(c[j], minC)
spare invariant exists k int :: 0 <= k && k < len(c) && minC == c[k] && (forall j int :: 0 <= j < k ==> cmp(minC, c[j]))
spare invariant forall j int :: 0 <= j < $it && j < len(c) ==> !cmp(c[j], minC)
ensures [C04:empty] len(c) == 0 ==> r == zero(ty(T))
ensures [C04:first] len(c) > 0 ==> (exists k int :: 0 <= k < len(c) && r == c[k] && (forall j int :: 0 <= j < k ==> cmp(r, c[j])))
ensures [C04:extreme] forall j int :: 0 <= j < len(c) ==> !cmp(c[j], r)
