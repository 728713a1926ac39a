package unsafex

func SliceToString
params b
ensures [C37:text] result == str(b)
ensures [C37:length] len(result) == len(b)
ensures [C37:bytes] forall i int :: { seq(b)[i] } { result[i] } 0 <= i < len(b) ==> result[i] == seq(b)[i]

func StringToSlice
params s
ensures [C37:length] len(result) == len(s)
ensures [C37:bytes] forall i int :: { seq(result)[i] } { s[i] } 0 <= i < len(s) ==> seq(result)[i] == s[i]
ensures [C37:shared] issub(arr(result)) && old(alloced(result))
