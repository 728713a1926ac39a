package gpool

// everything the pool can hand out has the pool's type
pred poolOf[T](p *Pool[T]) = p.pool.New != nil && istype(ty(T), p.pool.New()) && (forall v any :: { p.pool.bag[v] } p.pool.bag[v] > 0 ==> istype(ty(T), v))
pred arraysOf[T](p *ArrayPool[T]) = p.pool.New != nil && istype(ty([]T), p.pool.New()) && (forall v any :: { p.pool.bag[v] } p.pool.bag[v] > 0 ==> istype(ty([]T), v))

func New
params fn
requires fn != nil
ensures [C36:constructor] result.pool.New() == box(fn())

func Pool.Get
params p
requires poolOf(p)
modifies sync.Pool.bag at p.pool
ensures [C36:source] (old(p.pool.bag)[box(result)] > 0 && p.pool.bag[box(result)] < old(p.pool.bag)[box(result)]) || box(result) == p.pool.New()
ensures [C36:no-extra] forall v any :: { p.pool.bag[v] } p.pool.bag[v] <= old(p.pool.bag)[v]
ensures [C36:valid] poolOf(p)

func Pool.Put
params p, x
requires poolOf(p)
modifies sync.Pool.bag at p.pool
ensures [C36:put] forall v any :: { p.pool.bag[v] } p.pool.bag[v] <= old(p.pool.bag)[v] + (v == box(x) ? 1 : 0)
ensures [C36:valid] poolOf(p)

func NewArrayPool
params size
requires size < 281474976710656
ensures [C36:constructor] istype(ty([]T), result.pool.New()) && len(unbox(ty([]T), result.pool.New())) == 0 && cap(unbox(ty([]T), result.pool.New())) == size

func ArrayPool.Get
params p
requires arraysOf(p)
modifies sync.Pool.bag at p.pool
ensures [C36:source] (old(p.pool.bag)[box(result)] > 0 && p.pool.bag[box(result)] < old(p.pool.bag)[box(result)]) || box(result) == p.pool.New()
ensures [C36:no-extra] forall v any :: { p.pool.bag[v] } p.pool.bag[v] <= old(p.pool.bag)[v]
ensures [C36:valid] arraysOf(p)

func ArrayPool.Put
params p, x
requires arraysOf(p)
modifies sync.Pool.bag at p.pool
ensures [C36:put] forall v any :: { p.pool.bag[v] } p.pool.bag[v] <= old(p.pool.bag)[v] + (v == box(x) ? 1 : 0)
ensures [C36:valid] arraysOf(p)
