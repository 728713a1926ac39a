package gconstraints

func Empty
ensures [C35:zero] result == zero(ty(T))

func ToPtr
params v
ensures [C35:pointer] fresh(result) && *result == v

func ToValue
params v
ensures [C35:nil] v == nil ==> result == zero(ty(T))
ensures [C35:value] v != nil ==> result == *v

func IsEmpty
params v
ensures [C35:empty] result <==> v == zero(ty(T))

func IsNotEmpty
params v
ensures [C35:empty] result <==> v != zero(ty(T))

func Pack
params key, value
ensures [C35:pair] result.key == key && result.value == value

func Pair.Unpack
params t
results k, v
ensures [C35:pair] k == t.key && v == t.value

// the holder is empty or holds a wrapped non-nil error
pred holder(ae *AtomicError) = ae.err == nil || (istype(ty(errorHolder), ae.err) && unbox(ty(errorHolder), ae.err).err != nil)

func AtomicError.Set
params ae, err
requires holder(ae)
modifies AtomicError.err at ae
ensures [C35:keeps] err == nil ==> ae.err == old(ae.err)
ensures [C35:latest] err != nil ==> istype(ty(errorHolder), ae.err) && unbox(ty(errorHolder), ae.err).err == err
ensures [C35:valid] holder(ae)

func AtomicError.Load
params ae
requires holder(ae)
ensures [C35:latest] ae.err != nil ==> result == unbox(ty(errorHolder), ae.err).err && result != nil
ensures [C35:none] ae.err == nil ==> result == nil
