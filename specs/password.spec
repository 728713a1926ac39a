package password

// character classes of one byte (every byte of 0x80 and above belongs to no class)
def digit(c byte) bool = 48 <= int(c) && int(c) <= 57
def lower(c byte) bool = 97 <= int(c) && int(c) <= 122
def upper(c byte) bool = 65 <= int(c) && int(c) <= 90
def symbol(c byte) bool = (33 <= int(c) && int(c) <= 47) || (58 <= int(c) && int(c) <= 64) || (91 <= int(c) && int(c) <= 96) || (123 <= int(c) && int(c) <= 126)
def known(c byte) bool = 33 <= int(c) && int(c) <= 126

def hasDigit(s string, n int) bool = exists i int :: { s[i] } 0 <= i < n && digit(s[i])
def hasLower(s string, n int) bool = exists i int :: { s[i] } 0 <= i < n && lower(s[i])
def hasUpper(s string, n int) bool = exists i int :: { s[i] } 0 <= i < n && upper(s[i])
def hasSymbol(s string, n int) bool = exists i int :: { s[i] } 0 <= i < n && symbol(s[i])
def allKnown(s string, n int) bool = forall i int :: { s[i] } 0 <= i < n ==> known(s[i])

func CheckPassword
params pw, flag, minLen, maxLen
ensures [C29:length] result ==> len(pw) >= minLen && (len(maxLen) > 0 ==> len(pw) <= seq(maxLen)[0])
ensures [C29:characters] result ==> allKnown(pw, len(pw))
ensures [C29:digits] result ==> (bit(flag, 0) <==> hasDigit(pw, len(pw)))
ensures [C29:symbols] result ==> (bit(flag, 4) <==> hasSymbol(pw, len(pw)))
ensures [C29:letters] result ==> (bit(flag, 1) || bit(flag, 2) || bit(flag, 3) <==> hasLower(pw, len(pw)) || hasUpper(pw, len(pw)))
ensures [C29:lower] result && bit(flag, 2) ==> hasLower(pw, len(pw))
ensures [C29:upper] result && bit(flag, 3) ==> hasUpper(pw, len(pw))
ensures [C29:accepts] len(pw) >= minLen && (len(maxLen) > 0 ==> len(pw) <= seq(maxLen)[0]) && allKnown(pw, len(pw)) && (bit(flag, 0) <==> hasDigit(pw, len(pw))) && (bit(flag, 4) <==> hasSymbol(pw, len(pw))) && (bit(flag, 1) || bit(flag, 2) || bit(flag, 3) <==> hasLower(pw, len(pw)) || hasUpper(pw, len(pw))) && (bit(flag, 2) ==> hasLower(pw, len(pw))) && (bit(flag, 3) ==> hasUpper(pw, len(pw))) ==> result
loop 1
invariant allKnown(pw, $pos)
invariant bit(r, 0) <==> hasDigit(pw, $pos)
invariant bit(r, 1) <==> hasLower(pw, $pos) || hasUpper(pw, $pos)
invariant bit(r, 2) <==> hasLower(pw, $pos)
invariant bit(r, 3) <==> hasUpper(pw, $pos)
invariant bit(r, 4) <==> hasSymbol(pw, $pos)
invariant !bit(r, 5) && !bit(r, 6) && !bit(r, 7)
