// ---- others.go: Flatten and Indent, for arbitrary bytes ---------------------------------------------------
// md(s, i): before byte i: 0 outside strings, 1 inside a string, 2 and 3 the same right after an active backslash
logic md(s: seq, i: int): int
axiom md0: forall s: seq {md(s, 0)} :: md(s, 0) == 0
axiom md1: forall s: seq, i: int {md(s, i), s[i]} :: 0 <= i && i < len(s) ==> (md(s, i) == 2 ==> md(s, i+1) == 0) && (md(s, i) == 3 ==> md(s, i+1) == 1)
   && (md(s, i) == 0 ==> md(s, i+1) == ite(s[i] == 92, 2, ite(s[i] == 34, 1, 0))) && (md(s, i) == 1 ==> md(s, i+1) == ite(s[i] == 92, 3, ite(s[i] == 34, 0, 1)))
lemma mds(s: seq, i: int)
  requires 0 <= i && i <= len(s)
  ensures 0 <= md(s, i) && md(s, i) <= 3
  case i > 0 ==> 0 <= s[i-1]
  induction i from 0
  trigger {md(s, i)}
  auto

// fl(s, i): the first i bytes of s without the white space outside strings
logic fl(s: seq, i: int): seq
axiom fl0: forall s: seq {fl(s, 0)} :: fl(s, 0) == ""
axiom fl1: forall s: seq, i: int {fl(s, i), s[i]} :: 0 <= i && i < len(s) ==> (md(s, i) == 0 && ws(s[i]) ==> fl(s, i+1) == fl(s, i)) && (!(md(s, i) == 0 && ws(s[i])) ==> fl(s, i+1) == fl(s, i) ++ unit(s[i]))

func Flatten(json) (r)
  pure
  ensures value: r == fl(json, len(json))
  ensures owned: fresh(r)
  inv i <= len(json) ==> newJSON == fl(json, i)
  inv i <= len(json) ==> md(json, i) == ite(inQuote, 1, 0)
  inv i > len(json) ==> i == len(json)+1 && newJSON == fl(json, len(json))

// tabs(n): n tabs (none for n <= 0)
logic tabs(n: int): seq
axiom tabs0: forall n: int {tabs(n)} :: len(tabs(n)) == ite(n < 0, 0, n)
axiom tabs1: forall n: int, k: int {tabs(n)[k]} :: 0 <= k && k < n ==> tabs(n)[k] == 9

// lv(s, i): open brackets outside strings;  nd(s, i): the first i bytes of s, indented
logic lv(s: seq, i: int): int
logic nd(s: seq, i: int): seq
def opb(c) = c == 91 || c == 123
def clb(c) = c == 93 || c == 125
axiom lv0: forall s: seq {lv(s, 0)} :: lv(s, 0) == 0
axiom lv1: forall s: seq, i: int {lv(s, i), s[i]} :: 0 <= i && i < len(s) ==> lv(s, i+1) == lv(s, i) + ite(md(s, i) == 0 && opb(s[i]), 1, ite(md(s, i) == 0 && clb(s[i]), 0-1, 0))
axiom nd0: forall s: seq {nd(s, 0)} :: nd(s, 0) == ""
axiom nd1: forall s: seq, i: int {nd(s, i), s[i]} :: 0 <= i && i < len(s) ==>
   (md(s, i) != 0 ==> nd(s, i+1) == nd(s, i) ++ unit(s[i]))
   && (md(s, i) == 0 && opb(s[i]) ==> nd(s, i+1) == nd(s, i) ++ unit(s[i]) ++ "\n" ++ tabs(lv(s, i)+1))
   && (md(s, i) == 0 && clb(s[i]) ==> nd(s, i+1) == nd(s, i) ++ "\n" ++ tabs(lv(s, i)-1) ++ unit(s[i]))
   && (md(s, i) == 0 && s[i] == 44 ==> nd(s, i+1) == nd(s, i) ++ unit(s[i]) ++ "\n" ++ tabs(lv(s, i)))
   && (md(s, i) == 0 && s[i] == 58 ==> nd(s, i+1) == nd(s, i) ++ unit(s[i]) ++ " ")
   && (md(s, i) == 0 && ws(s[i]) ==> nd(s, i+1) == nd(s, i))
   && (md(s, i) == 0 && !opb(s[i]) && !clb(s[i]) && s[i] != 44 && s[i] != 58 && !ws(s[i]) ==> nd(s, i+1) == nd(s, i) ++ unit(s[i]))

func Indent(json) (r)
  pure
  ensures value: r == nd(fl(json, len(json)), len(fl(json, len(json))))
  ensures owned: fresh(r)
  inv i <= len(cur(json)) ==> newJSON == nd(cur(json), i)
  inv i <= len(cur(json)) ==> md(cur(json), i) == ite(inQuote, 1, 0)
  inv i <= len(cur(json)) ==> lv(cur(json), i) == level
  inv i > len(cur(json)) ==> i == len(cur(json))+1 && newJSON == nd(cur(json), len(cur(json)))

// flattening again, or indenting and flattening, changes nothing
lemma flpre(s: seq, i: int, j: int)
  requires 0 <= i && i <= j && j <= len(s)
  ensures len(fl(s, i)) <= len(fl(s, j)) && (forall q: int {fl(s, j)[q]} :: 0 <= q && q < len(fl(s, i)) ==> fl(s, j)[q] == fl(s, i)[q])
  case j > i ==> 0 <= s[j-1]
  induction j from i
  trigger {fl(s, i), fl(s, j)}
lemma flagain(s: seq, i: int)
  requires 0 <= i && i <= len(s)
  ensures fl(fl(s, len(s)), len(fl(s, i))) == fl(s, i) && md(fl(s, len(s)), len(fl(s, i))) == md(s, i)
  use flpre
  case i > 0 ==> 0 <= s[i-1] && len(fl(s, i)) <= len(fl(s, len(s)))
  case i > 0 && !(md(s, i-1) == 0 && ws(s[i-1])) ==> len(fl(s, i)) == len(fl(s, i-1)) + 1 && fl(s, i)[len(fl(s, i-1))] == s[i-1]
  case i > 0 && !(md(s, i-1) == 0 && ws(s[i-1])) ==> fl(s, len(s))[len(fl(s, i-1))] == s[i-1]
  case i > 0 && !(md(s, i-1) == 0 && ws(s[i-1])) ==> fl(fl(s, len(s)), len(fl(s, i-1))+1) == fl(s, i-1) ++ unit(s[i-1])
  induction i from 0
  trigger {fl(fl(s, len(s)), len(fl(s, i)))}
lemma idempotent(s: seq)
  ensures fl(fl(s, len(s)), len(fl(s, len(s)))) == fl(s, len(s))
  use flagain
  trigger {fl(fl(s, len(s)), len(fl(s, len(s))))}

lemma ndpre(s: seq, i: int, j: int)
  requires 0 <= i && i <= j && j <= len(s)
  ensures len(nd(s, i)) <= len(nd(s, j)) && (forall q: int {nd(s, j)[q]} :: 0 <= q && q < len(nd(s, i)) ==> nd(s, j)[q] == nd(s, i)[q])
  case j > i ==> 0 <= s[j-1]
  induction j from i
  trigger {nd(s, i), nd(s, j)}
lemma skipws(t: seq, a: int, b: int)
  requires 0 <= a && a <= b && b <= len(t) && md(t, a) == 0 && (forall q: int {t[q]} :: a <= q && q < b ==> ws(t[q]))
  ensures fl(t, b) == fl(t, a) && md(t, b) == 0
  case b > a ==> 0 <= t[b-1] && ws(t[b-1])
  induction b from a
  trigger {fl(t, a), fl(t, b)}
def NA(s, i) = len(nd(s, i-1))
lemma flnd(s: seq, i: int)
  requires 0 <= i && i <= len(s)
  ensures fl(nd(s, len(s)), len(nd(s, i))) == fl(s, i) && md(nd(s, len(s)), len(nd(s, i))) == md(s, i)
  use ndpre skipws
  case i > 0 ==> 0 <= s[i-1] && len(nd(s, i)) <= len(nd(s, len(s))) && len(nd(s, i-1)) <= len(nd(s, i))
  case i > 0 ==> (forall q: int {nd(s, len(s))[q]} :: NA(s, i) <= q && q < len(nd(s, i)) ==> nd(s, len(s))[q] == nd(s, i)[q])
  case i > 0 && !(md(s, i-1) == 0 && (ws(s[i-1]) || clb(s[i-1]))) ==> nd(s, len(s))[NA(s, i)] == s[i-1] && NA(s, i) < len(nd(s, i))
  case i > 0 && !(md(s, i-1) == 0 && (ws(s[i-1]) || clb(s[i-1]))) ==> fl(nd(s, len(s)), NA(s, i)+1) == fl(s, i) && md(nd(s, len(s)), NA(s, i)+1) == md(s, i)
  case i > 0 && md(s, i-1) == 0 && (opb(s[i-1]) || s[i-1] == 44 || s[i-1] == 58) ==> (forall q: int {nd(s, len(s))[q]} :: NA(s, i) < q && q < len(nd(s, i)) ==> ws(nd(s, len(s))[q]))
  case i > 0 && md(s, i-1) == 0 && clb(s[i-1]) ==> (forall q: int {nd(s, len(s))[q]} :: NA(s, i) <= q && q < len(nd(s, i))-1 ==> ws(nd(s, len(s))[q]))
  case i > 0 && md(s, i-1) == 0 && clb(s[i-1]) ==> fl(nd(s, len(s)), len(nd(s, i))-1) == fl(s, i-1) && md(nd(s, len(s)), len(nd(s, i))-1) == 0 && nd(s, len(s))[len(nd(s, i))-1] == s[i-1]
  induction i from 0
  trigger {fl(nd(s, len(s)), len(nd(s, i)))}
// Flatten(Indent(x)) == Flatten(x)
lemma roundtrip(s: seq)
  ensures fl(nd(fl(s, len(s)), len(fl(s, len(s)))), len(nd(fl(s, len(s)), len(fl(s, len(s)))))) == fl(s, len(s))
  use flnd flagain
  case fl(fl(s, len(s)), len(fl(s, len(s)))) == fl(s, len(s))
  trigger {nd(fl(s, len(s)), len(fl(s, len(s))))}
