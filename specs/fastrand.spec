package fastrand

// the runtime's random words: any value is possible at every call
func runtimefastrand
trusted "runtime random word: no contract beyond its type"
func runtimefastrand64
trusted "runtime random word: no contract beyond its type"
func runtimefastrandu
trusted "runtime random word: no contract beyond its type"

lemma scale(v int, n int, m int)
requires 0 <= v < m && 0 < n
ensures 0 <= v*n < m*n

func Int
ensures [C30:nonneg] result >= 0

func Int31
ensures [C30:nonneg] result >= 0

func Int63
ensures [C30:nonneg] result >= 0

func Int63n
params n
panics [C30:bound] n <= 0
ensures [C30:range] 0 <= result < n
loop 1
invariant v >= 0

func Int31n
params n
panics [C30:bound] n <= 0
loop 1
invariant prod == v * n
exit use n > 0 ==> scale(v, n, 4294967296)
head use n > 0 ==> scale(v, n, 4294967296)
ensures [C30:range] 0 <= result < n

func Intn
params n
panics [C30:bound] n <= 0
ensures [C30:range] 0 <= result < n

func Float64
ensures [C30:range] 0 <= result && result < 1

func Float32
ensures [C30:range] 0 <= result && result < 1

func Uintn
params n
requires n > 0
ensures [C30:range] 0 <= result < n

func Uint32n
params n
requires n > 0
ensures [C30:range] 0 <= result < n

func Uint64n
params n
requires n > 0
ensures [C30:range] 0 <= result < n

func wyrand.Uint64n
params r, n
requires n > 0
modifies P(wyrand) at r
ensures [C30:range] 0 <= result < n

func wyrand.Uint32n
params r, n
requires 0 < n <= 4294967296
ensures [C30:range] 0 <= result < n

func Shuffle
params n, swap
option trace
option shareloops
panics [C31:negative] n < 0
requires swap != nil
loop 1
invariant i <= n-1 && (n > 0 ==> i >= 0)
invariant [C31:inside] forall c int :: { callarg(swap, c, 0, ty(int)) } old(calls(swap)) <= c < calls(swap) ==> 0 <= callarg(swap, c, 0, ty(int)) < n && 0 <= callarg(swap, c, 1, ty(int)) < n
loop 2
invariant i <= n-1
invariant [C31:inside] forall c int :: { callarg(swap, c, 0, ty(int)) } old(calls(swap)) <= c < calls(swap) ==> 0 <= callarg(swap, c, 0, ty(int)) < n && 0 <= callarg(swap, c, 1, ty(int)) < n
ensures [C31:inside] forall c int :: { callarg(swap, c, 0, ty(int)) } old(calls(swap)) <= c < calls(swap) ==> 0 <= callarg(swap, c, 0, ty(int)) < n && 0 <= callarg(swap, c, 1, ty(int)) < n

func Perm
params n
requires n < 281474976710656
panics [C31:negative] n < 0
loop 1
invariant 1 <= i && (i <= n || i == 1)
invariant len(m) == n && fresh(m)
invariant forall a int :: { m[a] } 0 <= a < i && a < n ==> 0 <= m[a] < i
invariant forall a int, b int :: { m[a], m[b] } 0 <= a < b && b < i && b < n ==> m[a] != m[b]
ensures [C31:length] len(result) == n && fresh(result)
ensures [C31:range] forall a int :: { result[a] } 0 <= a < n ==> 0 <= result[a] < n
ensures [C31:distinct] forall a int, b int :: { result[a], result[b] } 0 <= a < b && b < n ==> result[a] != result[b]
