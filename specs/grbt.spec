package grbt

// An order embedding of the keys into the numbers between 0 and 1: there is one for every strict total order on a Go type,
// since the values of a comparable type are countable.
logic rb_ord[K](less gconstraints.Less[K], k K) float64

def rb_total[K](less gconstraints.Less[K]) bool =
  less != nil
  && (forall a K, b K :: { less(a, b) } less(a, b) <==> rb_ord(less, a) < rb_ord(less, b))
  && (forall a K, b K :: { rb_ord(less, a), rb_ord(less, b) } rb_ord(less, a) == rb_ord(less, b) ==> a == b)
  && (forall a K :: { rb_ord(less, a) } 0 < rb_ord(less, a) && rb_ord(less, a) < 1)

// The nodes of a tree by key: node[k] is the node of key k or nil. at[1..len] are the keys in ascending order, pos is the
// inverse. Every node has the open interval lo..hi of the keys that belong below it and its black height h; bound is not
// below any black height.
ghost field RbTree.node [K]*rbNode[K,V]
ghost field RbTree.at [int]K
ghost field RbTree.pos [K]int
ghost field RbTree.bound int
ghost field rbNode.lo float64
ghost field rbNode.hi float64
ghost field rbNode.h int

def rb_o[K, V](t *RbTree[K,V], k K) float64 = rb_ord(t.less, k)
def rb_in[K, V](t *RbTree[K,V], x *rbNode[K,V]) bool = x != nil && t.node[x.key] == x
def rb_h[K, V](t *RbTree[K,V], x *rbNode[K,V]) int = x == t.sentinel ? 1 : x.h
def rb_c[K, V](x *rbNode[K,V]) int = x.color ? 1 : 0

// nodes carry their keys; the sentinel is black and no node
def rb_nodes[K, V](t *RbTree[K,V]) bool =
  t != nil && t.bound >= 1 && rb_total(t.less) && t.sentinel != nil && alloced(t.sentinel) && t.sentinel.color && t.sentinel.value == zero(ty(V))
  && (forall k K :: { t.node[k] } t.node[k] != nil ==> t.node[k].key == k && alloced(t.node[k]) && t.node[k] != t.sentinel)

// search order: the children of a node split its interval at the key
def rb_links[K, V](t *RbTree[K,V]) bool =
  (forall x *rbNode[K,V] :: { x.left } rb_in(t, x) ==> x.left != nil && x.lo < rb_o(t, x.key) && (x.left != t.sentinel ==> rb_in(t, x.left) && x.left.parent == x && x.left.lo == x.lo && x.left.hi == rb_o(t, x.key)))
  && (forall x *rbNode[K,V] :: { x.right } rb_in(t, x) ==> x.right != nil && rb_o(t, x.key) < x.hi && (x.right != t.sentinel ==> rb_in(t, x.right) && x.right.parent == x && x.right.lo == rb_o(t, x.key) && x.right.hi == x.hi))
  && (forall x *rbNode[K,V], k K :: { x.left, t.node[k] } rb_in(t, x) && x.left == t.sentinel && t.node[k] != nil ==> !(x.lo < rb_o(t, k) && rb_o(t, k) < rb_o(t, x.key)))
  && (forall x *rbNode[K,V], k K :: { x.right, t.node[k] } rb_in(t, x) && x.right == t.sentinel && t.node[k] != nil ==> !(rb_o(t, x.key) < rb_o(t, k) && rb_o(t, k) < x.hi))
  && (forall x *rbNode[K,V] :: { x.parent } rb_in(t, x) ==> (x == t.root ? x.parent == t.sentinel : rb_in(t, x.parent) && (x.parent.left == x || x.parent.right == x)))
  && (t.root == t.sentinel ? (forall k K :: { t.node[k] } t.node[k] == nil) : rb_in(t, t.root) && t.root.lo == 0 && t.root.hi == 1)

// the interval of a node is inside one of the two parts of another node's interval, or around it, or apart from it
def rb_within[K, V](t *RbTree[K,V], x *rbNode[K,V], y *rbNode[K,V]) bool = y.lo <= x.lo && x.hi <= rb_o(t, y.key) || rb_o(t, y.key) <= x.lo && x.hi <= y.hi
def rb_fit[K, V](t *RbTree[K,V], x *rbNode[K,V], y *rbNode[K,V]) bool = x.hi <= y.lo || y.hi <= x.lo || rb_within(t, x, y) || rb_within(t, y, x)
// rb_pair is always true: it only names the pairs that rb_nested is to be used for
rec rb_pair[K, V](x *rbNode[K,V], y *rbNode[K,V]) bool = true
def rb_nested[K, V](t *RbTree[K,V]) bool =
  (forall x *rbNode[K,V] :: { x.lo } { x.hi } rb_in(t, x) ==> x.lo < rb_o(t, x.key) && rb_o(t, x.key) < x.hi)
  && forall x *rbNode[K,V], y *rbNode[K,V] :: { rb_pair(x, y) } rb_in(t, x) && rb_in(t, y) && x != y ==> rb_fit(t, x, y)

// black heights: the same on both sides
def rb_height[K, V](t *RbTree[K,V]) bool =
  (forall x *rbNode[K,V] :: { x.h } rb_in(t, x) ==> 1 <= x.h) && forall x *rbNode[K,V] :: { x.left } { x.right } rb_in(t, x) ==> 1 <= x.h && x.h <= t.bound && x.h == rb_c(x) + rb_h(t, x.left) && x.h == rb_c(x) + rb_h(t, x.right)

// no red node has a red child, except that z may be one
def rb_reds[K, V](t *RbTree[K,V], z *rbNode[K,V]) bool =
  forall x *rbNode[K,V] :: { x.left } { x.right } rb_in(t, x) && !x.color ==> (x.left.color || x.left == z) && (x.right.color || x.right == z)

def rbTree[K, V](t *RbTree[K,V]) bool = rb_nodes(t) && rb_links(t) && rb_nested(t) && rb_height(t) && rb_reds(t, nil) && t.root.color

def rb_ranked[K, V](t *RbTree[K,V]) bool =
  0 <= t.len && t.len <= 9007199254740992
  && (forall k K :: { t.node[k] } { t.pos[k] } t.node[k] != nil ==> 1 <= t.pos[k] && t.pos[k] <= t.len && t.at[t.pos[k]] == k)
  && (forall i int :: { t.at[i] } 1 <= i && i <= t.len ==> t.node[t.at[i]] != nil && t.pos[t.at[i]] == i)
  && (forall k K, m K :: { t.pos[k], t.pos[m] } t.node[k] != nil && t.node[m] != nil && rb_o(t, k) < rb_o(t, m) ==> t.pos[k] < t.pos[m])

def rbOK[K, V](t *RbTree[K,V]) bool = rbTree(t) && rb_ranked(t)

// bound on the steps left when a search is at x
def rb_steps[K, V](t *RbTree[K,V], x *rbNode[K,V]) int = 2 * rb_h(t, x) + (x.color ? 0 : 1)

func New
params less
requires rb_total(less)
ensures [C13:apart] fresh(result.sentinel)
ensures [C11,C12:empty] fresh(result) && rbOK(result) && result.len == 0 && result.less == less && (forall k K :: { result.node[k] } result.node[k] == nil)
set result.node@(k K) := nil
set result.bound := 1

func RbTree.search
params tree, key
requires rbTree(tree)
loop 1
invariant x == tree.sentinel || rb_in(tree, x) && x.lo < rb_o(tree, key) && rb_o(tree, key) < x.hi
invariant x == tree.sentinel ==> tree.node[key] == nil
invariant [C12:steps] $it + rb_steps(tree, x) <= 2 * rb_h(tree, tree.root)
decreases rb_steps(tree, x)
ensures [C11:search] result == (tree.node[key] == nil ? tree.sentinel : tree.node[key])

func RbTree.Search
params tree, key
requires rbTree(tree)
ensures [C11:search] result <==> tree.node[key] != nil

func RbTree.Get
params tree, key
requires rbTree(tree)
ensures [C11:get] result == (tree.node[key] == nil ? zero(ty(V)) : tree.node[key].value)

func RbTree.Update
params tree, key, value
results was, ok
requires rbOK(tree)
modifies rbNode.value at tree.node[key]
ensures [C11,C12:inv] rbOK(tree)
ensures [C11:update] ok <==> tree.node[key] != nil
ensures [C11:update] was == (ok ? old(tree.node[key].value) : zero(ty(V)))
ensures [C11:update] ok ==> tree.node[key].value == value

// leftRotate lifts y, the right child of x, above x; the black heights of the two are computed anew
func RbTree.leftRotate
option merge
params tree, x
requires rb_nodes(tree) && rb_links(tree) && rb_nested(tree) && rb_in(tree, x) && x.right != tree.sentinel
modifies RbTree.root at tree
modifies rbNode.left at x and x.right and x.parent
modifies rbNode.right at x and x.right and x.parent
modifies rbNode.parent at x and x.right and x.right.left
modifies rbNode.lo at x and x.right
modifies rbNode.hi at x and x.right
modifies rbNode.h at x and x.right
set x.hi := rb_o(tree, old(x.right).key)
set (old(x.right)).lo := old(x.lo)
set x.h := rb_c(x) + rb_h(tree, old(x.right.left))
set (old(x.right)).h := rb_c(old(x.right)) + rb_c(x) + rb_h(tree, old(x.right.left))
exit assert let y := old(x.right) :: forall n *rbNode[K,V] :: { n.lo } { n.hi } rb_in(tree, n) && n != x && n != y ==> n.lo == old(n.lo) && n.hi == old(n.hi) && (rb_pair(n, x) && rb_pair(n, y) ==> old(rb_fit(tree, n, x)) && old(rb_fit(tree, n, y)))
exit assert let y := old(x.right) :: forall n *rbNode[K,V] :: { rb_pair(n, x) } rb_in(tree, n) && n != x && n != y ==> rb_fit(tree, n, x)
exit assert let y := old(x.right) :: forall n *rbNode[K,V] :: { rb_pair(n, y) } rb_in(tree, n) && n != x && n != y ==> rb_fit(tree, n, y)
exit assert let y := old(x.right) :: forall n *rbNode[K,V] :: { n.left } n.left == (n == y ? x : n == old(x.parent) && n != tree.sentinel && old(x.parent.left) == x ? y : old(n.left))
exit assert let y := old(x.right) :: forall n *rbNode[K,V] :: { n.right } n.right == (n == x ? old(y.left) : n == old(x.parent) && n != tree.sentinel && old(x.parent.right) == x ? y : old(n.right))
exit assert let y := old(x.right) :: forall n *rbNode[K,V] :: { n.parent } n.parent == (n == x ? y : n == y ? old(x.parent) : n != tree.sentinel && n == old(y.left) ? x : old(n.parent))
ensures rb_nodes(tree)
ensures rb_nested(tree)
ensures rb_links(tree)
ensures let y := old(x.right) :: forall n *rbNode[K,V] :: { n.left } n.left == (n == y ? x : n == old(x.parent) && n != tree.sentinel && old(x.parent.left) == x ? y : old(n.left))
ensures let y := old(x.right) :: forall n *rbNode[K,V] :: { n.right } n.right == (n == x ? old(y.left) : n == old(x.parent) && n != tree.sentinel && old(x.parent.right) == x ? y : old(n.right))
ensures let y := old(x.right) :: forall n *rbNode[K,V] :: { n.parent } n.parent == (n == x ? y : n == y ? old(x.parent) : n != tree.sentinel && n == old(y.left) ? x : old(n.parent))
ensures x.right == old(x.right.left) && x.parent == old(x.right) && old(x.right).left == x && old(x.right).right == old(x.right.right) && x.left == old(x.left)
ensures tree.root == (old(x.parent) == tree.sentinel ? old(x.right) : old(tree.root))
ensures x.h == rb_c(x) + rb_h(tree, x.right) && old(x.right).h == rb_c(old(x.right)) + x.h

// rightRotate lifts y, the left child of x, above x; the black heights of the two are computed anew
func RbTree.rightRotate
option merge
params tree, x
requires rb_nodes(tree) && rb_links(tree) && rb_nested(tree) && rb_in(tree, x) && x.left != tree.sentinel
modifies RbTree.root at tree
modifies rbNode.left at x and x.left and x.parent
modifies rbNode.right at x and x.left and x.parent
modifies rbNode.parent at x and x.left and x.left.right
modifies rbNode.lo at x and x.left
modifies rbNode.hi at x and x.left
modifies rbNode.h at x and x.left
set x.lo := rb_o(tree, old(x.left).key)
set (old(x.left)).hi := old(x.hi)
set x.h := rb_c(x) + rb_h(tree, old(x.left.right))
set (old(x.left)).h := rb_c(old(x.left)) + rb_c(x) + rb_h(tree, old(x.left.right))
exit assert let y := old(x.left) :: forall n *rbNode[K,V] :: { n.lo } { n.hi } rb_in(tree, n) && n != x && n != y ==> n.lo == old(n.lo) && n.hi == old(n.hi) && (rb_pair(n, x) && rb_pair(n, y) ==> old(rb_fit(tree, n, x)) && old(rb_fit(tree, n, y)))
exit assert let y := old(x.left) :: forall n *rbNode[K,V] :: { rb_pair(n, x) } rb_in(tree, n) && n != x && n != y ==> rb_fit(tree, n, x)
exit assert let y := old(x.left) :: forall n *rbNode[K,V] :: { rb_pair(n, y) } rb_in(tree, n) && n != x && n != y ==> rb_fit(tree, n, y)
exit assert let y := old(x.left) :: forall n *rbNode[K,V] :: { n.right } n.right == (n == y ? x : n == old(x.parent) && n != tree.sentinel && old(x.parent.right) == x ? y : old(n.right))
exit assert let y := old(x.left) :: forall n *rbNode[K,V] :: { n.left } n.left == (n == x ? old(y.right) : n == old(x.parent) && n != tree.sentinel && old(x.parent.left) == x ? y : old(n.left))
exit assert let y := old(x.left) :: forall n *rbNode[K,V] :: { n.parent } n.parent == (n == x ? y : n == y ? old(x.parent) : n != tree.sentinel && n == old(y.right) ? x : old(n.parent))
ensures rb_nodes(tree)
ensures rb_nested(tree)
ensures rb_links(tree)
ensures let y := old(x.left) :: forall n *rbNode[K,V] :: { n.right } n.right == (n == y ? x : n == old(x.parent) && n != tree.sentinel && old(x.parent.right) == x ? y : old(n.right))
ensures let y := old(x.left) :: forall n *rbNode[K,V] :: { n.left } n.left == (n == x ? old(y.right) : n == old(x.parent) && n != tree.sentinel && old(x.parent.left) == x ? y : old(n.left))
ensures let y := old(x.left) :: forall n *rbNode[K,V] :: { n.parent } n.parent == (n == x ? y : n == y ? old(x.parent) : n != tree.sentinel && n == old(y.right) ? x : old(n.parent))
ensures x.left == old(x.left.right) && x.parent == old(x.left) && old(x.left).right == x && old(x.left).left == old(x.left.left) && x.right == old(x.right)
ensures tree.root == (old(x.parent) == tree.sentinel ? old(x.left) : old(tree.root))
ensures x.h == rb_c(x) + rb_h(tree, x.left) && old(x.left).h == rb_c(old(x.left)) + x.h

// insert puts the value of z under its key: at the node of the key when there is one, otherwise z becomes a red leaf
func RbTree.insert
option merge
params tree, z
results stored, ok
requires rbTree(tree) && z != nil && alloced(z) && !rb_in(tree, z) && z != tree.sentinel && z.left == tree.sentinel && z.right == tree.sentinel 
modifies RbTree.root at tree
modifies RbTree.node at tree
modifies rbNode.left
modifies rbNode.right
modifies rbNode.parent at z
modifies rbNode.color at z
modifies rbNode.value at tree.node[z.key]
modifies rbNode.lo at z
modifies rbNode.hi at z
modifies rbNode.h at z
loop 1
invariant x == tree.sentinel || rb_in(tree, x) && x.lo < rb_o(tree, z.key) && rb_o(tree, z.key) < x.hi
invariant y == tree.sentinel ? x == tree.root : rb_in(tree, y) && y.lo < rb_o(tree, z.key) && rb_o(tree, z.key) < y.hi && y.key != z.key && x == (rb_o(tree, z.key) < rb_o(tree, y.key) ? y.left : y.right)
invariant x == tree.sentinel ==> tree.node[z.key] == nil
invariant forall n *rbNode[K,V] :: { n.value } n.value == old(n.value)
decreases rb_steps(tree, x)
set tree.node := ok ? old(tree.node)[z.key := z] : old(tree.node)
set z.lo := !ok ? z.lo : y == tree.sentinel ? 0 : rb_o(tree, z.key) < rb_o(tree, y.key) ? y.lo : rb_o(tree, y.key)
set z.hi := !ok ? z.hi : y == tree.sentinel ? 1 : rb_o(tree, z.key) < rb_o(tree, y.key) ? rb_o(tree, y.key) : y.hi
set z.h := 1
exit assert ok ==> let w := y :: (forall n *rbNode[K,V] :: { n.lo } { n.hi } old(rb_in(tree, n)) && n != w && w != tree.sentinel ==> (rb_pair(n, w) ==> old(rb_fit(tree, n, w))))
ensures ok <==> old(tree.node[z.key]) == nil
ensures !ok ==> rbTree(tree) && tree.node == old(tree.node) && tree.node[z.key].value == z.value && stored == old(tree.node[z.key].value)
ensures ok ==> tree.node == old(tree.node)[z.key := z] && rb_nodes(tree) && rb_links(tree) && rb_nested(tree) && rb_height(tree) && rb_reds(tree, z) && !z.color && (tree.root == z || tree.root.color)
ensures ok ==> z.left == tree.sentinel && z.right == tree.sentinel
ensures ok ==> (forall n *rbNode[K,V] :: { n.value } n.value == old(n.value))
ensures forall n *rbNode[K,V] :: { n.left } { n.right } n != z && !old(rb_in(tree, n)) ==> n.left == old(n.left) && n.right == old(n.right)

func RbTree.insertFix
option merge
params tree, z
requires rb_nodes(tree) && rb_links(tree) && rb_nested(tree) && rb_height(tree) && rb_reds(tree, z) && rb_in(tree, z) && !z.color && (tree.root == z || tree.root.color)
modifies RbTree.root at tree
modifies RbTree.bound at tree
modifies rbNode.left
modifies rbNode.right
modifies rbNode.parent
modifies rbNode.color
modifies rbNode.lo
modifies rbNode.hi
modifies rbNode.h
loop 1
invariant rb_nodes(tree) && rb_links(tree) && rb_nested(tree) && rb_height(tree)
invariant rb_reds(tree, z) && rb_in(tree, z) && !z.color && (tree.root == z || tree.root.color)
invariant forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } !rb_in(tree, n) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h)
step set forall n *rbNode[K,V] :: n.h := n != tree.sentinel && z.h != rb_h(tree, z.left) && (n == z.left || n == z.right) ? n.h + 1 : n.h
decreases 2 * (tree.bound - z.h) + (z.parent.color ? 0 : 1)
set tree.bound := tree.bound + 1
set tree.root.h := tree.root == tree.sentinel ? tree.root.h : 1 + rb_h(tree, tree.root.left)
ensures rbTree(tree)
ensures forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } !rb_in(tree, n) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h)

// Insert
func RbTree.Insert
params tree, key, value
requires rbOK(tree) && tree.len < 9007199254740992
modifies RbTree.root at tree
modifies RbTree.len at tree
modifies RbTree.node at tree
modifies RbTree.at at tree
modifies RbTree.pos at tree
modifies RbTree.bound at tree
modifies rbNode.left
modifies rbNode.right
modifies rbNode.parent
modifies rbNode.color
modifies rbNode.value at tree.node[key]
modifies rbNode.lo
modifies rbNode.hi
modifies rbNode.h
call insertFix set tree.at@(i int) := let p := node.parent == tree.sentinel ? 1 : node == node.parent.left ? tree.pos[node.parent.key] : tree.pos[node.parent.key] + 1 :: i < p ? tree.at[i] : i == p ? key : tree.at[i-1]
call insertFix set tree.pos@(k K) := let p := node.parent == tree.sentinel ? 1 : node == node.parent.left ? tree.pos[node.parent.key] : tree.pos[node.parent.key] + 1 :: k == key ? p : tree.node[k] != nil && tree.pos[k] >= p ? tree.pos[k] + 1 : tree.pos[k]
ensures [C11:inv] rbOK(tree)
ensures [C12:balance] rbTree(tree)
ensures [C11:insert] tree.node[key] != nil && tree.node[key].value == value && (forall k K :: { tree.node[k] } k != key ==> tree.node[k] == old(tree.node[k]) && (tree.node[k] != nil ==> tree.node[k].value == old(tree.node[k].value)))
ensures [C11:insertResult] result == old(tree.node[key] == nil ? zero(ty(V)) : tree.node[key].value)
ensures [C11:insertLen] tree.len == old(tree.len) + (old(tree.node[key]) == nil ? 1 : 0)
ensures [C13:apart] old(tree.node[key]) == nil ==> (forall n *rbNode[K,V] :: { n.value } old(alloced(n)) ==> n.value == old(n.value))
ensures [C13:apart] old(tree.node[key]) == nil ? fresh(tree.node[key]) : tree.node[key] == old(tree.node[key])
ensures [C13:apart] forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } old(alloced(n)) && !old(rb_in(tree, n)) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h)

func RbTree.transplant
params tree, u, v
requires tree != nil && u != nil && v != nil && tree.sentinel != nil && u.parent != nil
modifies RbTree.root at tree
modifies rbNode.left at u.parent
modifies rbNode.right at u.parent
modifies rbNode.parent at v
ensures tree.root == (old(u.parent) == tree.sentinel ? v : old(tree.root))
ensures forall n *rbNode[K,V] :: { n.left } n.left == (n == old(u.parent) && n != tree.sentinel && old(u.parent.left) == u ? v : old(n.left))
ensures forall n *rbNode[K,V] :: { n.right } n.right == (n == old(u.parent) && n != tree.sentinel && old(u.parent.left) != u ? v : old(n.right))
ensures v.parent == old(u.parent)

func RbTree.minimum
params tree, node
requires rb_nodes(tree) && rb_links(tree) && rb_nested(tree) && rb_height(tree) && rb_reds(tree, nil) && rb_in(tree, node)
decreases rb_steps(tree, node)
ensures rb_in(tree, result) && result.left == tree.sentinel && result.lo == node.lo && result != tree.sentinel
ensures rb_o(tree, result.key) <= rb_o(tree, node.key) && result.hi <= node.hi

// the height of x that the tree counts on when one black node is missing on top of x
def rb_dl[K, V](n *rbNode[K,V], x *rbNode[K,V]) int = n.left == x && x.parent == n ? 1 : 0
def rb_dr[K, V](n *rbNode[K,V], x *rbNode[K,V]) int = n.right == x && n.left != x && x.parent == n ? 1 : 0
def rb_heightl[K, V](t *RbTree[K,V], x *rbNode[K,V]) bool =
  forall n *rbNode[K,V] :: { n.left } { n.right } rb_in(t, n) ==> n.h == rb_c(n) + rb_h(t, n.left) + rb_dl(n, x)
def rb_heightr[K, V](t *RbTree[K,V], x *rbNode[K,V]) bool =
  forall n *rbNode[K,V] :: { n.left } { n.right } rb_in(t, n) ==> n.h == rb_c(n) + rb_h(t, n.right) + rb_dr(n, x)
def rb_heightp[K, V](t *RbTree[K,V]) bool = (forall n *rbNode[K,V] :: { n.h } { n.left } { n.right } rb_in(t, n) ==> 1 <= n.h && n.h <= t.bound)
def rb_redsx[K, V](t *RbTree[K,V], x *rbNode[K,V]) bool =
  forall n *rbNode[K,V] :: { n.left } { n.right } rb_in(t, n) && !n.color && n != x ==> (n.left.color || n.left == x) && (n.right.color || n.right == x)
def rb_nh[K, V](t *RbTree[K,V], n *rbNode[K,V]) int = n == t.sentinel ? 1 : rb_c(n) + rb_h(t, n.left)
def rb_def[K, V](t *RbTree[K,V], x *rbNode[K,V]) bool =
  x != nil && rb_h(t, x) >= 1 && (x == t.sentinel || rb_in(t, x)) && (x.parent == t.sentinel ? x == t.root : rb_in(t, x.parent) && (x.parent.left == x || x.parent.right == x))
  && (t.root.color || t.root == x)

func RbTree.deleteFix
option merge
params tree, x
requires rb_nodes(tree) && rb_links(tree) && rb_nested(tree) && rb_def(tree, x) && rb_heightp(tree) && rb_heightl(tree, x) && rb_heightr(tree, x) && rb_redsx(tree, x)
modifies RbTree.root at tree
modifies RbTree.bound at tree
modifies rbNode.left
modifies rbNode.right
modifies rbNode.parent
modifies rbNode.color
modifies rbNode.lo
modifies rbNode.hi
modifies rbNode.h
loop 1
invariant rb_nodes(tree) && rb_links(tree) && rb_nested(tree)
invariant rb_def(tree, x)
invariant rb_redsx(tree, x)
invariant rb_heightp(tree)
invariant rb_heightl(tree, x)
invariant rb_heightr(tree, x)
invariant forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } !rb_in(tree, n) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h)
step set s.h := rb_c(s) + rb_nh(tree, s.left)
step set s.left.h := s.left == tree.sentinel ? s.left.h : rb_nh(tree, s.left)
step set s.right.h := s.right == tree.sentinel ? s.right.h : rb_nh(tree, s.right)
step set x.h := s.parent == x ? rb_c(x) + rb_c(s) + rb_nh(tree, s.left) : x.h
decreases x == tree.root ? 0 : 1 + 2 * (tree.bound - rb_h(tree, x)) + (x.color ? 1 : 0)
set tree.bound := tree.bound + 1
set x.h := x == tree.sentinel ? x.h : rb_nh(tree, x)
ensures rbTree(tree)
ensures forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } !rb_in(tree, n) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h)

// delete takes z out of the tree
func RbTree.delete
params tree, z
requires rbTree(tree) && rb_in(tree, z)
modifies RbTree.root at tree
modifies RbTree.node at tree
modifies RbTree.bound at tree
modifies rbNode.left
modifies rbNode.right
modifies rbNode.parent
modifies rbNode.color
modifies rbNode.lo
modifies rbNode.hi
modifies rbNode.h
call deleteFix set tree.node := tree.node[z.key] == z ? tree.node[z.key := nil] : tree.node
call deleteFix set forall n *rbNode[K,V] :: n.lo := tree.node[z.key] != z || !rb_in(tree, n) ? n.lo : y != z ? (n == y ? z.lo : n.lo == rb_o(tree, z.key) ? rb_o(tree, y.key) : n.lo) : z.left == tree.sentinel && n.lo == rb_o(tree, z.key) ? z.lo : n.lo
call deleteFix set forall n *rbNode[K,V] :: n.hi := tree.node[z.key] != z || !rb_in(tree, n) ? n.hi : y != z ? (n == y ? z.hi : n.hi == rb_o(tree, z.key) ? rb_o(tree, y.key) : n.hi) : z.left != tree.sentinel && n.hi == rb_o(tree, z.key) ? z.hi : n.hi
call deleteFix set y.h := tree.node[z.key] == z ? z.h : y.h
call deleteFix assert let w := y :: forall n *rbNode[K,V] :: { n.lo } { n.hi } old(rb_in(tree, n)) && n != z && n != w ==> (rb_pair(n, z) && rb_pair(n, w) ==> old(rb_fit(tree, n, z)) && (w != z ==> old(rb_fit(tree, n, w))))
set tree.node := tree.node[z.key] == z ? tree.node[z.key := nil] : tree.node
set forall n *rbNode[K,V] :: n.lo := tree.node[z.key] != z || !rb_in(tree, n) ? n.lo : y != z ? (n == y ? z.lo : n.lo == rb_o(tree, z.key) ? rb_o(tree, y.key) : n.lo) : z.left == tree.sentinel && n.lo == rb_o(tree, z.key) ? z.lo : n.lo
set forall n *rbNode[K,V] :: n.hi := tree.node[z.key] != z || !rb_in(tree, n) ? n.hi : y != z ? (n == y ? z.hi : n.hi == rb_o(tree, z.key) ? rb_o(tree, y.key) : n.hi) : z.left != tree.sentinel && n.hi == rb_o(tree, z.key) ? z.hi : n.hi
set y.h := tree.node[z.key] == z ? z.h : y.h
exit assert let w := y :: forall n *rbNode[K,V] :: { n.lo } { n.hi } old(rb_in(tree, n)) && n != z && n != w ==> (rb_pair(n, z) && rb_pair(n, w) ==> old(rb_fit(tree, n, z)) && (w != z ==> old(rb_fit(tree, n, w))))
ensures rbTree(tree)
ensures tree.node == old(tree.node)[z.key := nil]
ensures forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } !old(rb_in(tree, n)) && n != tree.sentinel ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h)

func RbTree.Delete
params tree, key
requires rbOK(tree)
modifies RbTree.root at tree
modifies RbTree.len at tree
modifies RbTree.node at tree
modifies RbTree.at at tree
modifies RbTree.pos at tree
modifies RbTree.bound at tree
modifies rbNode.left
modifies rbNode.right
modifies rbNode.parent
modifies rbNode.color
modifies rbNode.lo
modifies rbNode.hi
modifies rbNode.h
set tree.at@(i int) := old(tree.node[key]) != nil && i >= old(tree.pos[key]) ? old(tree.at)[i+1] : old(tree.at)[i]
set tree.pos@(k K) := old(tree.node[key]) != nil && old(tree.pos)[k] > old(tree.pos[key]) ? old(tree.pos)[k] - 1 : old(tree.pos)[k]
ensures [C11:inv] rbOK(tree)
ensures [C12:balance] rbTree(tree)
ensures [C11:delete] tree.node == old(tree.node)[key := nil]
ensures [C11:deleteResult] result == old(tree.node[key] == nil ? zero(ty(V)) : tree.node[key].value)
ensures [C11:deleteLen] tree.len == old(tree.len) - (old(tree.node[key]) != nil ? 1 : 0)

func RbTree.Len
params tree
requires rbOK(tree)
ensures [C11:len] result == tree.len

func RbTree.Empty
params tree
requires rbOK(tree)
ensures [C11:empty] result <==> (forall k K :: { tree.node[k] } tree.node[k] == nil)
exit assert tree.len > 0 ==> tree.node[tree.at[1]] != nil

func RbTree.Clear
params tree
requires rbOK(tree)
modifies RbTree.root at tree
modifies RbTree.sentinel at tree
modifies RbTree.len at tree
modifies RbTree.node at tree
set tree.node@(k K) := nil
ensures [C11,C12:clear] rbOK(tree) && tree.len == 0 && (forall k K :: { tree.node[k] } tree.node[k] == nil)

// the listings: *index keys are at most node.lo before, and below node.hi after
func RbTree.keys
params tree, node, data, index
requires rbOK(tree) && (node == tree.sentinel || rb_in(tree, node)) && len(data) == tree.len && index != nil && 0 <= *index && *index <= tree.len
requires node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil ==> (rb_o(tree, k) <= node.lo <==> tree.pos[k] <= *index))
modifies M(K) at data
modifies P(int) at index
decreases rb_steps(tree, node)
entry assert node != tree.sentinel ==> 1 <= tree.pos[node.key] && tree.pos[node.key] <= tree.len && tree.at[tree.pos[node.key]] == node.key
call keys assert *index > old(*index) ==> tree.node[tree.at[*index]] != nil && tree.pos[tree.at[*index]] == *index && !(rb_o(tree, tree.at[*index]) < rb_o(tree, node.key))
call keys assert *index > old(*index) ==> tree.at[*index] == node.key
call keys assert *index > old(*index) ==> tree.pos[node.key] == *index
exit assert node != tree.sentinel && node.right == tree.sentinel ==> tree.node[tree.at[*index]] != nil && tree.pos[tree.at[*index]] == *index && tree.at[*index] == node.key
exit assert node != tree.sentinel && node.right == tree.sentinel ==> tree.pos[node.key] == *index
ensures node == tree.sentinel ==> *index == old(*index)
ensures old(*index) <= *index && *index <= tree.len
ensures node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil ==> (rb_o(tree, k) < node.hi <==> tree.pos[k] <= *index))
ensures forall i int :: { data[i] } old(*index) <= i && i < *index ==> data[i] == tree.at[i+1]
ensures forall i int :: { data[i] } 0 <= i && i < old(*index) ==> data[i] == old(data[i])

func RbTree.Keys
params tree
requires rbOK(tree)
ensures [C11:keys] fresh(result) && len(result) == tree.len && (forall i int :: { result[i] } 0 <= i && i < tree.len ==> result[i] == tree.at[i+1])

func RbTree.values
params tree, node, data, index
requires rbOK(tree) && (node == tree.sentinel || rb_in(tree, node)) && len(data) == tree.len && index != nil && 0 <= *index && *index <= tree.len
requires node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil ==> (rb_o(tree, k) <= node.lo <==> tree.pos[k] <= *index))
modifies M(V) at data
modifies P(int) at index
decreases rb_steps(tree, node)
entry assert node != tree.sentinel ==> 1 <= tree.pos[node.key] && tree.pos[node.key] <= tree.len && tree.at[tree.pos[node.key]] == node.key
call values assert *index > old(*index) ==> tree.node[tree.at[*index]] != nil && tree.pos[tree.at[*index]] == *index && !(rb_o(tree, tree.at[*index]) < rb_o(tree, node.key))
call values assert *index > old(*index) ==> tree.at[*index] == node.key
call values assert *index > old(*index) ==> tree.pos[node.key] == *index
exit assert node != tree.sentinel && node.right == tree.sentinel ==> tree.node[tree.at[*index]] != nil && tree.pos[tree.at[*index]] == *index && tree.at[*index] == node.key
exit assert node != tree.sentinel && node.right == tree.sentinel ==> tree.pos[node.key] == *index
ensures node == tree.sentinel ==> *index == old(*index)
ensures old(*index) <= *index && *index <= tree.len
ensures node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil ==> (rb_o(tree, k) < node.hi <==> tree.pos[k] <= *index))
ensures forall i int :: { data[i] } old(*index) <= i && i < *index ==> data[i] == tree.node[tree.at[i+1]].value
ensures forall i int :: { data[i] } 0 <= i && i < old(*index) ==> data[i] == old(data[i])

func RbTree.Values
params tree
requires rbOK(tree)
ensures [C11:values] fresh(result) && len(result) == tree.len && (forall i int :: { result[i] } 0 <= i && i < tree.len ==> result[i] == tree.node[tree.at[i+1]].value)

func RbTree.nodes
params tree, node, data, index
requires rbOK(tree) && (node == tree.sentinel || rb_in(tree, node)) && len(data) == tree.len && index != nil && 0 <= *index && *index <= tree.len
requires node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil ==> (rb_o(tree, k) <= node.lo <==> tree.pos[k] <= *index))
modifies M(gconstraints.Pair[K,V]) at data
modifies P(int) at index
decreases rb_steps(tree, node)
entry assert node != tree.sentinel ==> 1 <= tree.pos[node.key] && tree.pos[node.key] <= tree.len && tree.at[tree.pos[node.key]] == node.key
call nodes assert *index > old(*index) ==> tree.node[tree.at[*index]] != nil && tree.pos[tree.at[*index]] == *index && !(rb_o(tree, tree.at[*index]) < rb_o(tree, node.key))
call nodes assert *index > old(*index) ==> tree.at[*index] == node.key
call nodes assert *index > old(*index) ==> tree.pos[node.key] == *index
exit assert node != tree.sentinel && node.right == tree.sentinel ==> tree.node[tree.at[*index]] != nil && tree.pos[tree.at[*index]] == *index && tree.at[*index] == node.key
exit assert node != tree.sentinel && node.right == tree.sentinel ==> tree.pos[node.key] == *index
ensures node == tree.sentinel ==> *index == old(*index)
ensures old(*index) <= *index && *index <= tree.len
ensures node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil ==> (rb_o(tree, k) < node.hi <==> tree.pos[k] <= *index))
ensures forall i int :: { data[i] } old(*index) <= i && i < *index ==> data[i].key == tree.at[i+1] && data[i].value == tree.node[tree.at[i+1]].value
ensures forall i int :: { data[i] } 0 <= i && i < old(*index) ==> data[i] == old(data[i])

func RbTree.Nodes
params tree
requires rbOK(tree)
ensures [C11:nodes] fresh(result) && len(result) == tree.len && (forall i int :: { result[i] } 0 <= i && i < tree.len ==> result[i].key == tree.at[i+1] && result[i].value == tree.node[tree.at[i+1]].value)

rec rb_pow2(n int) int = n <= 0 ? 1 : 2 * rb_pow2(n - 1)

// below a node of black height h there are at least 2 to the power h-1 less 1 keys: lo..hi holds the keys of rank a+1 to b
lemma rb_below[K comparable, V any](t *RbTree[K,V], x *rbNode[K,V], a int, b int, n int)
induction n
requires rbOK(t) && (x == t.sentinel || rb_in(t, x)) && n == rb_steps(t, x) && a <= b
requires x != t.sentinel ==> 0 <= a && b <= t.len && (forall k K :: { t.pos[k] } t.node[k] != nil ==> (rb_o(t, k) <= x.lo <==> t.pos[k] <= a) && (rb_o(t, k) < x.hi <==> t.pos[k] <= b))
use x != t.sentinel ==> rb_below(t, x.left, a, t.pos[x.key] - 1, rb_steps(t, x.left))
use x != t.sentinel ==> rb_below(t, x.right, t.pos[x.key], b, rb_steps(t, x.right))
ensures b - a >= rb_pow2(rb_h(t, x) - 1) - 1

// the root has all keys below it
lemma rb_size[K comparable, V any](t *RbTree[K,V])
requires rbOK(t)
use rb_below(t, t.root, 0, t.len, rb_steps(t, t.root))
ensures [C12:size] t.len + 1 >= rb_pow2(rb_h(t, t.root) - 1)

// t and s share no node
def rb_apart[K, V](t *RbTree[K,V], s *RbTree[K,V]) bool =
  t != s && t != nil && s != nil && t.sentinel != s.sentinel && t.less == s.less
  && (forall k K :: { t.node[k] } { s.node[k] } t.node[k] != nil ==> s.node[k] != t.node[k] && t.node[k] != s.sentinel)
  && (forall k K :: { s.node[k] } s.node[k] != nil ==> s.node[k] != t.sentinel)
// s has the keys of t for which c holds, with their values
// keeps: what is not in s is as it was
def rb_sub[K, V](t *RbTree[K,V], s *RbTree[K,V], k K, c bool) bool =
  t.node[k] != nil && c ? s.node[k] != nil && s.node[k].value == t.node[k].value : s.node[k] == nil

func RbTree.SubTree
option merge
params tree, fromKey, fromInclusive, toKey, toInclusive
requires rbOK(tree) && tree.len < 9007199254740992
panics rb_o(tree, toKey) < rb_o(tree, fromKey)
closure traverse
params node
call Insert assert subTree.node[node.key] == nil
requires rbOK(tree)
requires rbOK(subTree)
requires rb_apart(tree, subTree)
requires node == tree.sentinel || rb_in(tree, node)
requires tree.len < 9007199254740992 && subTree.len <= tree.len
requires node != tree.sentinel ==> (forall k K :: { subTree.node[k] } rb_sub(tree, subTree, k, (k == fromKey && fromInclusive || k == toKey && toInclusive || rb_o(tree, fromKey) < rb_o(tree, k) && rb_o(tree, k) < rb_o(tree, toKey)) && rb_o(tree, k) <= node.lo))
requires node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil && node.lo < rb_o(tree, k) ==> subTree.len < tree.pos[k])
modifies RbTree.root at subTree
modifies RbTree.len at subTree
modifies RbTree.node at subTree
modifies RbTree.at at subTree
modifies RbTree.pos at subTree
modifies RbTree.bound at subTree
modifies rbNode.left
modifies rbNode.right
modifies rbNode.parent
modifies rbNode.color
modifies rbNode.value
modifies rbNode.lo
modifies rbNode.hi
modifies rbNode.h
decreases rb_steps(tree, node)
ensures rbOK(tree)
ensures rbOK(subTree)
ensures rb_apart(tree, subTree)
ensures subTree.len <= tree.len
ensures forall k K :: { subTree.node[k] } subTree.node[k] == old(subTree.node[k]) || old(subTree.node[k]) == nil && fresh(subTree.node[k])
ensures node == tree.sentinel ==> subTree.node == old(subTree.node) && subTree.len == old(subTree.len)
ensures node != tree.sentinel ==> (forall k K :: { subTree.node[k] } rb_sub(tree, subTree, k, (k == fromKey && fromInclusive || k == toKey && toInclusive || rb_o(tree, fromKey) < rb_o(tree, k) && rb_o(tree, k) < rb_o(tree, toKey)) && rb_o(tree, k) < node.hi))
ensures node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil && node.hi <= rb_o(tree, k) ==> subTree.len < tree.pos[k])
ensures forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } { n.value } old(alloced(n)) && !old(rb_in(subTree, n)) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h) && n.value == old(n.value)
end
ensures [C13:SubTree] fresh(result) && rbOK(result) && result.less == tree.less
ensures [C13:SubTree] forall k K :: { result.node[k] } rb_sub(tree, result, k, (k == fromKey && fromInclusive || k == toKey && toInclusive || rb_o(tree, fromKey) < rb_o(tree, k) && rb_o(tree, k) < rb_o(tree, toKey)))
ensures [C13:source] rbOK(tree)
ensures [C13:source] forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } { n.value } old(alloced(n)) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h) && n.value == old(n.value)

func RbTree.LeftSubTree
option merge
params tree, key, inclusive
requires rbOK(tree) && tree.len < 9007199254740992
closure traverse
params node
call Insert assert subTree.node[node.key] == nil
requires rbOK(tree)
requires rbOK(subTree)
requires rb_apart(tree, subTree)
requires node == tree.sentinel || rb_in(tree, node)
requires tree.len < 9007199254740992 && subTree.len <= tree.len
requires node != tree.sentinel ==> (forall k K :: { subTree.node[k] } rb_sub(tree, subTree, k, (k == key && inclusive || rb_o(tree, k) < rb_o(tree, key)) && rb_o(tree, k) <= node.lo))
requires node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil && node.lo < rb_o(tree, k) ==> subTree.len < tree.pos[k])
modifies RbTree.root at subTree
modifies RbTree.len at subTree
modifies RbTree.node at subTree
modifies RbTree.at at subTree
modifies RbTree.pos at subTree
modifies RbTree.bound at subTree
modifies rbNode.left
modifies rbNode.right
modifies rbNode.parent
modifies rbNode.color
modifies rbNode.value
modifies rbNode.lo
modifies rbNode.hi
modifies rbNode.h
decreases rb_steps(tree, node)
ensures rbOK(tree)
ensures rbOK(subTree)
ensures rb_apart(tree, subTree)
ensures subTree.len <= tree.len
ensures forall k K :: { subTree.node[k] } subTree.node[k] == old(subTree.node[k]) || old(subTree.node[k]) == nil && fresh(subTree.node[k])
ensures node == tree.sentinel ==> subTree.node == old(subTree.node) && subTree.len == old(subTree.len)
ensures node != tree.sentinel ==> (forall k K :: { subTree.node[k] } rb_sub(tree, subTree, k, (k == key && inclusive || rb_o(tree, k) < rb_o(tree, key)) && rb_o(tree, k) < node.hi))
ensures node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil && node.hi <= rb_o(tree, k) ==> subTree.len < tree.pos[k])
ensures forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } { n.value } old(alloced(n)) && !old(rb_in(subTree, n)) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h) && n.value == old(n.value)
end
ensures [C13:LeftSubTree] fresh(result) && rbOK(result) && result.less == tree.less
ensures [C13:LeftSubTree] forall k K :: { result.node[k] } rb_sub(tree, result, k, (k == key && inclusive || rb_o(tree, k) < rb_o(tree, key)))
ensures [C13:source] rbOK(tree)
ensures [C13:source] forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } { n.value } old(alloced(n)) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h) && n.value == old(n.value)

func RbTree.RightSubTree
option merge
params tree, key, inclusive
requires rbOK(tree) && tree.len < 9007199254740992
closure traverse
params node
call Insert assert subTree.node[node.key] == nil
requires rbOK(tree)
requires rbOK(subTree)
requires rb_apart(tree, subTree)
requires node == tree.sentinel || rb_in(tree, node)
requires tree.len < 9007199254740992 && subTree.len <= tree.len
requires node != tree.sentinel ==> (forall k K :: { subTree.node[k] } rb_sub(tree, subTree, k, (k == key && inclusive || rb_o(tree, key) < rb_o(tree, k)) && rb_o(tree, k) <= node.lo))
requires node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil && node.lo < rb_o(tree, k) ==> subTree.len < tree.pos[k])
modifies RbTree.root at subTree
modifies RbTree.len at subTree
modifies RbTree.node at subTree
modifies RbTree.at at subTree
modifies RbTree.pos at subTree
modifies RbTree.bound at subTree
modifies rbNode.left
modifies rbNode.right
modifies rbNode.parent
modifies rbNode.color
modifies rbNode.value
modifies rbNode.lo
modifies rbNode.hi
modifies rbNode.h
decreases rb_steps(tree, node)
ensures rbOK(tree)
ensures rbOK(subTree)
ensures rb_apart(tree, subTree)
ensures subTree.len <= tree.len
ensures forall k K :: { subTree.node[k] } subTree.node[k] == old(subTree.node[k]) || old(subTree.node[k]) == nil && fresh(subTree.node[k])
ensures node == tree.sentinel ==> subTree.node == old(subTree.node) && subTree.len == old(subTree.len)
ensures node != tree.sentinel ==> (forall k K :: { subTree.node[k] } rb_sub(tree, subTree, k, (k == key && inclusive || rb_o(tree, key) < rb_o(tree, k)) && rb_o(tree, k) < node.hi))
ensures node != tree.sentinel ==> (forall k K :: { tree.pos[k] } tree.node[k] != nil && node.hi <= rb_o(tree, k) ==> subTree.len < tree.pos[k])
ensures forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } { n.value } old(alloced(n)) && !old(rb_in(subTree, n)) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h) && n.value == old(n.value)
end
ensures [C13:RightSubTree] fresh(result) && rbOK(result) && result.less == tree.less
ensures [C13:RightSubTree] forall k K :: { result.node[k] } rb_sub(tree, result, k, (k == key && inclusive || rb_o(tree, key) < rb_o(tree, k)))
ensures [C13:source] rbOK(tree)
ensures [C13:source] forall n *rbNode[K,V] :: { n.left } { n.right } { n.parent } { n.color } { n.lo } { n.hi } { n.h } { n.value } old(alloced(n)) ==> n.left == old(n.left) && n.right == old(n.right) && n.parent == old(n.parent) && n.color == old(n.color) && n.lo == old(n.lo) && n.hi == old(n.hi) && n.h == old(n.h) && n.value == old(n.value)

// the number of keys of rank 1 to n that f holds for
rec rb_cnt[K](f func(K) bool, at [int]K, n int) int = n <= 0 ? 0 : rb_cnt(f, at, n - 1) + (f(at[n]) ? 1 : 0)

func RbTree.GetIf
params tree, f
requires rbOK(tree) && f != nil
closure traverse
params node
changes values
requires rbOK(tree) && f != nil
requires node == tree.sentinel || rb_in(tree, node)
requires node != tree.sentinel ==> (forall i int :: { tree.at[i] } 1 <= i && i <= tree.len && node.lo < rb_o(tree, tree.at[i]) && (i == 1 || rb_o(tree, tree.at[i-1]) <= node.lo) ==> len(values) == rb_cnt(f, tree.at, i - 1))
requires node != tree.sentinel ==> (forall i int :: { tree.at[i] } 1 <= i && i <= tree.len && rb_o(tree, tree.at[i]) <= node.lo && f(tree.at[i]) ==> let c := rb_cnt(f, tree.at, i) :: 1 <= c && c <= len(values) && values[c-1] == tree.node[tree.at[i]].value)
modifies M(V) at values and fresh
decreases rb_steps(tree, node)
ensures arr(values) == old(arr(values)) || let v := values :: !old(alloced(v))
ensures node == tree.sentinel ==> values == old(values)
ensures node != tree.sentinel ==> (forall i int :: { tree.at[i] } 1 <= i && i <= tree.len && rb_o(tree, tree.at[i]) < node.hi && (i == tree.len || node.hi <= rb_o(tree, tree.at[i+1])) ==> len(values) == rb_cnt(f, tree.at, i))
ensures node != tree.sentinel ==> (forall i int :: { tree.at[i] } 1 <= i && i <= tree.len && rb_o(tree, tree.at[i]) < node.hi && f(tree.at[i]) ==> let c := rb_cnt(f, tree.at, i) :: 1 <= c && c <= len(values) && values[c-1] == tree.node[tree.at[i]].value)
end
ensures [C13:GetIf] fresh(result) && len(result) == rb_cnt(f, tree.at, tree.len)
ensures [C13:GetIf] forall i int :: { tree.at[i] } 1 <= i && i <= tree.len && f(tree.at[i]) ==> let c := rb_cnt(f, tree.at, i) :: 1 <= c && c <= len(result) && result[c-1] == tree.node[tree.at[i]].value
