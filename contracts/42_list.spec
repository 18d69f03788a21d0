// ---- what a container lists: its keys and values in order ---------------------------------------------------
// for the container opened at u, of depth d (d == dp(s, u)+1):
// keysof(s, u, d, i): the raw texts of its keys whose colon is below i
// vb(s, u, d, i): where the text of its current value begins (behind the last colon or comma)
// valsof(s, u, d, i): the texts of its values whose comma or closing bracket is below i
def here(s, u, d, i) = dp(s, i) == d && op(s, i, d) == u
def colon(s, u, d, i) = here(s, u, d, i) && st(s, i) == 4 && s[i] == 58
def comma(s, u, d, i) = here(s, u, d, i) && endv(st(s, i)) && s[i] == 44
def close(s, u, d, i) = here(s, u, d, i) && endv(st(s, i)) && shut(s, i)
logic keysof(s: seq, u: int, d: int, i: int): seqs
axiom keys0: forall s: seq, u: int, d: int, i: int {keysof(s, u, d, i)} :: i <= u+1 ==> len(keysof(s, u, d, i)) == 0
axiom keys1: forall s: seq, u: int, d: int, i: int {keysof(s, u, d, i), s[i]} :: 0 <= u && u < i && i < len(s) ==>
   (colon(s, u, d, i) ==> keysof(s, u, d, i+1) == keysof(s, u, d, i) ++ unit(s[ks(s, i):ke(s, i)])) && (!colon(s, u, d, i) ==> keysof(s, u, d, i+1) == keysof(s, u, d, i))
logic vb(s: seq, u: int, d: int, i: int): int
axiom vb0: forall s: seq, u: int, d: int, i: int {vb(s, u, d, i)} :: i <= u+1 ==> vb(s, u, d, i) == u+1
axiom vb1: forall s: seq, u: int, d: int, i: int {vb(s, u, d, i), s[i]} :: 0 <= u && u < i && i < len(s) ==>
   (colon(s, u, d, i) || comma(s, u, d, i) ==> vb(s, u, d, i+1) == i+1) && (!colon(s, u, d, i) && !comma(s, u, d, i) ==> vb(s, u, d, i+1) == vb(s, u, d, i))
logic valsof(s: seq, u: int, d: int, i: int): seqs
axiom vals0: forall s: seq, u: int, d: int, i: int {valsof(s, u, d, i)} :: i <= u+1 ==> len(valsof(s, u, d, i)) == 0
axiom vals1: forall s: seq, u: int, d: int, i: int {valsof(s, u, d, i), s[i]} :: 0 <= u && u < i && i < len(s) ==>
   (comma(s, u, d, i) || close(s, u, d, i) ==> valsof(s, u, d, i+1) == valsof(s, u, d, i) ++ unit(trim(s[vb(s, u, d, i):i]))) && (!comma(s, u, d, i) && !close(s, u, d, i) ==> valsof(s, u, d, i+1) == valsof(s, u, d, i))

// the text without the white space around it and without the quotes of a string
def tlo(s) = nxs(s, 0)
def thi(s) = pns(s, len(s))
def tquo(s) = thi(s) - tlo(s) > 1 && s[tlo(s)] == 34 && s[thi(s)-1] == 34
def trim(s) = s[tlo(s)+ite(tquo(s), 1, 0):thi(s)-ite(tquo(s), 1, 0)]

lemma listend(s: seq, u: int, d: int, i: int, j: int)
  requires 0 <= u && u < i && i <= j && j <= len(s) && 1 <= d && dp(s, i) < d
  ensures keysof(s, u, d, j) == keysof(s, u, d, i) && valsof(s, u, d, j) == valsof(s, u, d, i)
  use closed
  case j > i ==> 0 <= s[j-1]
  case j > i ==> dp(s, j-1) >= d ==> op(s, j-1, d) >= i
  case j > i ==> keysof(s, u, d, j-1) == keysof(s, u, d, i) && valsof(s, u, d, j-1) == valsof(s, u, d, i)
  induction j from i
  trigger {keysof(s, u, d, i), keysof(s, u, d, j)} {valsof(s, u, d, i), valsof(s, u, d, j)}
lemma keysdone(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && 1 <= d && dp(s, i) < d
  ensures keysof(s, u, d, len(s)) == keysof(s, u, d, i)
  use listend
  trigger {keysof(s, u, d, i), keysof(s, u, d, len(s))}
lemma valsdone(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && 1 <= d && dp(s, i) < d
  ensures valsof(s, u, d, len(s)) == valsof(s, u, d, i)
  use listend
  trigger {valsof(s, u, d, i), valsof(s, u, d, len(s))}
// the text of a value begins where it begins, and is not blank where it ends
lemma vbs(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s)
  ensures u < vb(s, u, d, i) && vb(s, u, d, i) <= i
  case i > u+1 ==> 0 <= s[i-1]
  induction i from u+1
  trigger {vb(s, u, d, i)}
  auto
// the text of a value is not blank where it may end
lemma vbn(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && here(s, u, d, i) && endv(st(s, i)) && isopen(s[u]) && vpos(st(s, u)) && dp(s, u)+1 == d
  ensures nxs(s, vb(s, u, d, i)) < i
  use ops tops
  case i > u+1 ==> 0 <= s[i-1]
  case i > u+1 && dp(s, i-1) >= d ==> op(s, i-1, d) == u
  case i > u+1 && st(s, i-1) == 1 && dp(s, i-1) == d ==> s[i-1] != 93 || i-1 > u
  case i > u+1 ==> (ws(s[i-1]) || nxs(s, i-1) == i-1)
  case i > u+1 && here(s, u, d, i-1) && endv(st(s, i-1)) ==> nxs(s, vb(s, u, d, i-1)) < i-1
  case vb(s, u, d, i) <= nxs(s, vb(s, u, d, i))
  induction i from u+1
  trigger {vb(s, u, d, i), st(s, i)}
lemma vtext(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && here(s, u, d, i) && endv(st(s, i)) && isopen(s[u]) && vpos(st(s, u)) && dp(s, u)+1 == d
  ensures nxs(s[vb(s, u, d, i):i], 0) < len(s[vb(s, u, d, i):i])
  use vbn
  case vb(s, u, d, i) <= nxs(s, vb(s, u, d, i)) && nxs(s, vb(s, u, d, i)) < i && !ws(s[nxs(s, vb(s, u, d, i))])
  case s[vb(s, u, d, i):i][nxs(s, vb(s, u, d, i)) - vb(s, u, d, i)] == s[nxs(s, vb(s, u, d, i))]
  trigger {s[vb(s, u, d, i):i], st(s, i)}
lemma valsmono(s: seq, u: int, d: int, i: int, j: int)
  requires 0 <= u && u < i && i <= j && j <= len(s)
  ensures len(valsof(s, u, d, i)) <= len(valsof(s, u, d, j)) && (forall q: int {valsof(s, u, d, i)[q]} {valsof(s, u, d, j)[q]} :: 0 <= q && q < len(valsof(s, u, d, i)) ==> valsof(s, u, d, j)[q] == valsof(s, u, d, i)[q])
  case j > i ==> 0 <= s[j-1]
  case j > i ==> len(valsof(s, u, d, j-1)) <= len(valsof(s, u, d, j)) && (forall q: int {valsof(s, u, d, j)[q]} :: 0 <= q && q < len(valsof(s, u, d, j-1)) ==> valsof(s, u, d, j)[q] == valsof(s, u, d, j-1)[q])
  induction j from i
  trigger {valsof(s, u, d, i), valsof(s, u, d, j)}
// the conversions of a list of texts
logic ints(v: seqs): seqi
axiom ints0: forall v: seqs {ints(v)} :: len(ints(v)) == len(v)
axiom ints1: forall v: seqs, j: int {ints(v)[j]} :: 0 <= j && j < len(v) ==> ints(v)[j] == atoi(v[j])
logic flts(v: seqs): seqf
axiom flts0: forall v: seqs {flts(v)} :: len(flts(v)) == len(v)
axiom flts1: forall v: seqs, j: int {flts(v)[j]} :: 0 <= j && j < len(v) ==> flts(v)[j] == pflt(v[j])
logic bools(v: seqs): seqb
axiom bools0: forall v: seqs {bools(v)} :: len(bools(v)) == len(v)
axiom bools1: forall v: seqs, j: int {bools(v)[j]} :: 0 <= j && j < len(v) ==> bools(v)[j] == (v[j] == "true")
def allints(v) = (forall j: int {v[j]} :: 0 <= j && j < len(v) ==> atoiok(v[j]))
def allflts(v) = (forall j: int {v[j]} :: 0 <= j && j < len(v) ==> pfltok(v[j]))
def allbools(v) = (forall j: int {v[j]} :: 0 <= j && j < len(v) ==> (v[j] == "true" || v[j] == "false"))
lemma valsat(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i < len(s) && (comma(s, u, d, i) || close(s, u, d, i))
  ensures len(valsof(s, u, d, i)) < len(valsof(s, u, d, len(s))) && valsof(s, u, d, len(s))[len(valsof(s, u, d, i))] == trim(s[vb(s, u, d, i):i])
  use valsmono
  case len(valsof(s, u, d, i+1)) == len(valsof(s, u, d, i))+1 && valsof(s, u, d, i+1)[len(valsof(s, u, d, i))] == trim(s[vb(s, u, d, i):i])
  trigger {valsof(s, u, d, i), s[i]}
// the text of a value as positions of the document
lemma vbst(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && isopen(s[u]) && vpos(st(s, u)) && 1 <= d
  ensures 0 <= st(s, vb(s, u, d, i)) && st(s, vb(s, u, d, i)) <= 3
  case i > u+1 ==> 0 <= s[i-1]
  case i > u+1 ==> vb(s, u, d, i) == vb(s, u, d, i-1) || vb(s, u, d, i) == i && (colon(s, u, d, i-1) || comma(s, u, d, i-1))
  case i > u+1 && comma(s, u, d, i-1) ==> dp(s, i-1) == d
  case i > u+1 && comma(s, u, d, i-1) ==> st(s, i) == 0 || st(s, i) == 3
  induction i from u+1
  trigger {vb(s, u, d, i)}
lemma vquo(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && here(s, u, d, i) && endv(st(s, i)) && isopen(s[u]) && vpos(st(s, u)) && dp(s, u)+1 == d && 1 <= d && s[nxs(s, vb(s, u, d, i))] == 34
  ensures nxs(s, vb(s, u, d, i))+1 < pns(s, i)
  use vbn vbst blank
  case 0 <= s[i-1]
  case vb(s, u, d, i) <= nxs(s, vb(s, u, d, i)) && nxs(s, vb(s, u, d, i)) < i
  case 0 <= st(s, nxs(s, vb(s, u, d, i))) && st(s, nxs(s, vb(s, u, d, i))) <= 3
  case !ws(s[i-1]) ==> pns(s, i) == i
  case ws(s[i-1]) ==> pns(s, i) == pns(s, i-1) && i > u+1
  case ws(s[i-1]) ==> here(s, u, d, i-1) && endv(st(s, i-1)) && vb(s, u, d, i-1) == vb(s, u, d, i)
  case !ws(s[i-1]) && s[i-1] != 34 ==> nxs(s, vb(s, u, d, i)) < i-1
  case s[i-1] == 34 ==> st(s, i-1) == 7
  case s[i-1] == 34 ==> nxs(s, vb(s, u, d, i)) < i-1
  induction i from u+1
  trigger {vb(s, u, d, i), st(s, i)}
lemma nxsub(s: seq, a: int, b: int)
  requires 0 <= a && a <= b && b <= len(s) && nxs(s, a) < b
  ensures nxs(s[a:b], 0) == nxs(s, a) - a
  case len(s[a:b]) == b-a && s[a:b][nxs(s, a)-a] == s[nxs(s, a)]
  case nxs(s[a:b], 0) <= nxs(s, a) - a
  case s[a:b][nxs(s[a:b], 0)] == s[a+nxs(s[a:b], 0)]
  trigger {nxs(s[a:b], 0)}
lemma pnsub(s: seq, a: int, b: int)
  requires 0 <= a && a <= b && b <= len(s) && a < pns(s, b)
  ensures pns(s[a:b], b-a) == pns(s, b) - a
  case len(s[a:b]) == b-a && s[a:b][pns(s, b)-1-a] == s[pns(s, b)-1]
  case pns(s[a:b], b-a) >= pns(s, b) - a
  case s[a:b][pns(s[a:b], b-a)-1] == s[a+pns(s[a:b], b-a)-1]
  trigger {pns(s[a:b], b-a)}
lemma vtrim(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && here(s, u, d, i) && endv(st(s, i)) && isopen(s[u]) && vpos(st(s, u)) && dp(s, u)+1 == d && 1 <= d
  ensures nxs(s, vb(s, u, d, i)) < pns(s, i) && pns(s, i) <= i
  ensures s[nxs(s, vb(s, u, d, i))] == 34 && s[pns(s, i)-1] == 34 ==> trim(s[vb(s, u, d, i):i]) == s[nxs(s, vb(s, u, d, i))+1:pns(s, i)-1] && nxs(s, vb(s, u, d, i))+1 < pns(s, i)
  ensures !(s[nxs(s, vb(s, u, d, i))] == 34 && s[pns(s, i)-1] == 34) ==> trim(s[vb(s, u, d, i):i]) == s[nxs(s, vb(s, u, d, i)):pns(s, i)]
  use vbn vquo nxsub pnsub
  case vb(s, u, d, i) <= nxs(s, vb(s, u, d, i)) && nxs(s, vb(s, u, d, i)) < i && 0 <= s[nxs(s, vb(s, u, d, i))]
  case nxs(s, vb(s, u, d, i)) < pns(s, i)
  case nxs(s[vb(s, u, d, i):i], 0) == nxs(s, vb(s, u, d, i)) - vb(s, u, d, i)
  case pns(s[vb(s, u, d, i):i], i-vb(s, u, d, i)) == pns(s, i) - vb(s, u, d, i)
  case len(s[vb(s, u, d, i):i]) == i-vb(s, u, d, i)
  case s[vb(s, u, d, i):i][nxs(s, vb(s, u, d, i)) - vb(s, u, d, i)] == s[nxs(s, vb(s, u, d, i))]
  case s[vb(s, u, d, i):i][pns(s, i)-1 - vb(s, u, d, i)] == s[pns(s, i)-1]
  trigger {vb(s, u, d, i), st(s, i), s[i]}
lemma keysmono(s: seq, u: int, d: int, i: int, j: int)
  requires 0 <= u && u < i && i <= j && j <= len(s)
  ensures len(keysof(s, u, d, i)) <= len(keysof(s, u, d, j)) && (forall q: int {keysof(s, u, d, i)[q]} {keysof(s, u, d, j)[q]} :: 0 <= q && q < len(keysof(s, u, d, i)) ==> keysof(s, u, d, j)[q] == keysof(s, u, d, i)[q])
  case j > i ==> 0 <= s[j-1]
  case j > i ==> len(keysof(s, u, d, j-1)) <= len(keysof(s, u, d, j)) && (forall q: int {keysof(s, u, d, j)[q]} :: 0 <= q && q < len(keysof(s, u, d, j-1)) ==> keysof(s, u, d, j)[q] == keysof(s, u, d, j-1)[q])
  induction j from i
  trigger {keysof(s, u, d, i), keysof(s, u, d, j)}
