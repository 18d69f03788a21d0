// ---- inter_get.go, inter_set.go, inter_add.go, inter_delete.go: arbitrary bytes ----------------------------
// cerr/cks/cs/ce: what the search reports for a path

def cerr(json, path) = fn(core, 3, json, false, path)
def cks(json, path) = fn(core, 0, json, false, path)
def cs(json, path) = fn(core, 1, json, false, path)
def ce(json, path) = fn(core, 2, json, false, path)
// the text of the value from s to e (without the quotes of a string), and the positions with the quotes
def quo(json, s, e) = json[s-1] == 34 && json[e] == 34
def vlo(json, path) = ite(json[cs(json, path)-1] == 34, cs(json, path)-1, cs(json, path))
def vhi(json, path) = ite(json[cs(json, path)-1] == 34, ce(json, path)+1, ce(json, path))

// on well-formed documents: the addressed value starts at RR and ends before RE (quotes included)
def RR(json, path) = R(json, path, len(path))
def RE(json, path) = ce(json, path) + quoted(json, RR(json, path))
def span(s, r, e) = (isopen(s[r]) ==> spanC(s, r, e)) && (s[r] == 34 ==> spanS(s, r, e)) && (!isopen(s[r]) && s[r] != 34 ==> spanT(s, r, e))

// the container that the path without its last element addresses: what it lists
def PU(json, path) = R(json, path, len(path)-1)
def PV(json, path) = valsof(json, PU(json, path), len(path), len(json))
def PK(json, path) = keysof(json, PU(json, path), len(path), len(json))

// one past the new value in the result of Set
def NE(json, v, path) = RR(json, path)+len(v)
def qkey(key) = "\"" ++ key ++ "\""

func Get(json, path) (r, err)
  pure
  ensures len(path) == 0 ==> r == json && err == nil
  ensures len(path) > 0 ==> err == cerr(json, path)
  ensures len(path) > 0 && err == nil ==> r == json[cs(json, path):ce(json, path)]
  ensures err != nil ==> isnil(r)

  behavior wf
  assumes wf(json) && len(path) > 0
  use noquote Rpos
  ensures found: (err == nil) == (RR(json, path) >= 0)
  ensures value: err == nil ==> span(json, RR(json, path), RE(json, path)) && r == json[RR(json, path)+quoted(json, RR(json, path)):RE(json, path)-quoted(json, RR(json, path))]

  behavior list
  local
  assumes wf(json) && len(path) > 0
  use noquote Rpos listedKey listedIdx
  assert cerr(json, path) == nil ==> RR(json, path) >= 0 && span(json, RR(json, path), RE(json, path)) && json[cs(json, path):ce(json, path)] == json[RR(json, path)+quoted(json, RR(json, path)):RE(json, path)-quoted(json, RR(json, path))]
  assert cerr(json, path) == nil ==> RE(json, path) >= len(json) || 0 <= json[RE(json, path)]
  ensures member: err == nil && json[PU(json, path)] == 123 && once(json, PU(json, path), len(path)) ==> (forall n: int {PK(json, path)[n]} :: 0 <= n && n < len(PK(json, path)) && n < len(PV(json, path)) && PK(json, path)[n] == path[len(path)-1] ==> r == PV(json, path)[n])
  ensures element: err == nil && json[PU(json, path)] == 91 ==> (forall n: int {PV(json, path)[n], itoa(n)} :: 0 <= n && n < len(PV(json, path)) && path[len(path)-1] == itoa(n) ==> r == PV(json, path)[n])

func GetString(json, path) (r, err)
  pure
  ensures len(path) == 0 ==> r == json && err == nil
  ensures len(path) > 0 ==> err == cerr(json, path)
  ensures len(path) > 0 && err == nil ==> r == json[cs(json, path):ce(json, path)]
  ensures err != nil ==> r == ""

  behavior wf
  assumes wf(json) && len(path) > 0
  use noquote Rpos
  ensures found: (err == nil) == (RR(json, path) >= 0)
  ensures value: err == nil ==> span(json, RR(json, path), RE(json, path)) && r == json[RR(json, path)+quoted(json, RR(json, path)):RE(json, path)-quoted(json, RR(json, path))]

  behavior list
  local
  assumes wf(json) && len(path) > 0
  use noquote Rpos listedKey listedIdx
  assert cerr(json, path) == nil ==> RE(json, path) >= len(json) || 0 <= json[RE(json, path)]
  assert cerr(json, path) == nil ==> RR(json, path) >= 0 && span(json, RR(json, path), RE(json, path)) && json[cs(json, path):ce(json, path)] == json[RR(json, path)+quoted(json, RR(json, path)):RE(json, path)-quoted(json, RR(json, path))]
  ensures member: err == nil && json[PU(json, path)] == 123 && once(json, PU(json, path), len(path)) ==> (forall n: int {PK(json, path)[n]} :: 0 <= n && n < len(PK(json, path)) && n < len(PV(json, path)) && PK(json, path)[n] == path[len(path)-1] ==> r == PV(json, path)[n])
  ensures element: err == nil && json[PU(json, path)] == 91 ==> (forall n: int {PV(json, path)[n], itoa(n)} :: 0 <= n && n < len(PV(json, path)) && path[len(path)-1] == itoa(n) ==> r == PV(json, path)[n])

func Set(json, newValue, path) (r, err)
  pure
  ensures nopath: len(path) == 0 ==> code(err) == 0
  ensures notfound: len(path) > 0 ==> err == cerr(json, path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)
  ensures replaced: err == nil ==> r == json[:vlo(json, path)] ++ newValue ++ json[vhi(json, path):]

  behavior wf
  assumes wf(json)
  use noquote Rpos
  ensures found: (err == nil) == (len(path) > 0 && RR(json, path) >= 0)
  ensures value: err == nil ==> span(json, RR(json, path), RE(json, path)) && r == json[:RR(json, path)] ++ newValue ++ json[RE(json, path):]

  behavior well
  follows
  assumes wf(json) && wf(newValue)
  use Rpos setwf
  assert err == nil ==> agree(json, r, 0, 0, RR(json, path)) && agree(newValue, r, 0, RR(json, path), len(newValue)) && agree(json, r, RE(json, path), RR(json, path)+len(newValue), len(json)-RE(json, path)) && len(r) == RR(json, path)+len(newValue)+len(json)-RE(json, path)
  ensures well: err == nil ==> wf(r)

  behavior reads
  follows
  assumes wf(json) && wf(newValue) && trimmed(newValue)
  use Rpos setwf vkind Rkeep setspan onespan sameop noerr pre
  assert err == nil ==> wf(r)
  assert err == nil ==> agree(json, r, 0, 0, RR(json, path)) && agree(newValue, r, 0, RR(json, path), len(newValue)) && NE(json, newValue, path) < len(r) && r[NE(json, newValue, path)] == json[RE(json, path)] && RE(json, path) < len(json)
  assert err == nil ==> op(json, RE(json, path), len(path)) == op(json, RE(json, path), dp(json, RR(json, path))) && r[RR(json, path)] == newValue[0] && st(r, RR(json, path)) == st(json, RR(json, path))
  assert err == nil ==> st(json, RE(json, path)+1) != 12 && endv(st(json, RE(json, path))) && (st(json, RE(json, path)) == 9 ==> !vtok(json[RE(json, path)]))
  assert err == nil ==> !vtok(r[NE(json, newValue, path)])
  assert err == nil ==> newValue[0] != 93
  assert err == nil ==> R(r, path, len(path)) == RR(json, path)
  assert err == nil ==> st(r, NE(json, newValue, path)) == st(r, NE(json, newValue, path)) && span(r, RR(json, path), NE(json, newValue, path))
  then Get(r, path)
  assert err == nil ==> fn(Get, 1, r, path) == nil && span(r, RR(r, path), RE(r, path)) && fn(Get, 0, r, path) == r[RR(r, path)+quoted(r, RR(r, path)):RE(r, path)-quoted(r, RR(r, path))]
  assert err == nil ==> RE(r, path) == NE(json, newValue, path)
  assert err == nil ==> r[RR(json, path)+quoted(newValue, 0):NE(json, newValue, path)-quoted(newValue, 0)] == newValue[quoted(newValue, 0):len(newValue)-quoted(newValue, 0)]
  ensures reads: err == nil ==> fn(Get, 1, r, path) == nil && fn(Get, 0, r, path) == newValue[quoted(newValue, 0):len(newValue)-quoted(newValue, 0)]

func Store(json, key, value, path) (r, err)
  pure
  ensures absent: code(cerr(json, path ++ unit(key))) == 8 ==> r == fn(AddKeyValue, 0, json, key, value, path) && err == fn(AddKeyValue, 1, json, key, value, path)
  ensures other: code(cerr(json, path ++ unit(key))) != 8 ==> err == cerr(json, path ++ unit(key))
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)
  ensures replaced: cerr(json, path ++ unit(key)) == nil ==> err == nil && r == json[:vlo(json, path ++ unit(key))] ++ value ++ json[vhi(json, path ++ unit(key)):]

  behavior wf
  assumes wf(json)
  use Rpre Rpos noquote rootend
  assert R(json, path ++ unit(key), len(path)) == RR(json, path)
  assert len((path ++ unit(key))[len(path)]) == len(key)
  ensures value: RK(json, path, key) >= 0 ==> err == nil && span(json, RK(json, path, key), RE(json, path ++ unit(key))) && r == json[:RK(json, path, key)] ++ value ++ json[RE(json, path ++ unit(key)):]
  ensures first: isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> err == nil && spanO(json, path) && r == into(json, path, "\"" ++ key ++ "\":" ++ vtext(value))
  ensures next: isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> err == nil && spanO(json, path) && r == into(json, path, ",\"" ++ key ++ "\":" ++ vtext(value))
  ensures none: !isobj(json, path) && RK(json, path, key) < 0 ==> err != nil

  behavior well
  follows
  assumes wf(json) && !isnil(value) && wf(value) && iskey(qkey(key))
  apply core(json, false, path)
  use blank noquote Rpos setwf addkv closer blankst
  assert isobj(json, path) ==> vpos(st(json, RR(json, path)))
  assert isobj(json, path) ==> lo(json, path) == RR(json, path)
  assert isobj(json, path) ==> 0 <= json[RR(json, path)] && st(json, RR(json, path)+1) == 2
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (blank(json, path) ==> st(json, hi(json, path)-1) == 2)
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (st(json, hi(json, path)-1) == 2) == blank(json, path)
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> r == json[:hi(json, path)-1] ++ qkey(key) ++ ":" ++ value ++ json[hi(json, path)-1:]
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> r == json[:hi(json, path)-1] ++ "," ++ qkey(key) ++ ":" ++ value ++ json[hi(json, path)-1:]
  assert RK(json, path, key) >= 0 ==> dp(json, RK(json, path, key)) == len(path)+1
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (spanC(json, RR(json, path), hi(json, path)) || spanR(json, RR(json, path), hi(json, path)))
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> agree(json, r, 0, 0, hi(json, path)-1) && agree(qkey(key), r, 0, hi(json, path)-1, len(qkey(key))) && r[hi(json, path)-1+len(qkey(key))] == 58
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> agree(value, r, 0, hi(json, path)-1+len(qkey(key))+1, len(value)) && agree(json, r, hi(json, path)-1, hi(json, path)-1+len(qkey(key))+1+len(value), len(json)-(hi(json, path)-1)) && len(r) == len(json)+len(qkey(key))+1+len(value)
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> wf(r)
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> agree(json, r, 0, 0, hi(json, path)-1) && agree(qkey(key), r, 0, hi(json, path), len(qkey(key))) && r[hi(json, path)+len(qkey(key))] == 58
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> agree(value, r, 0, hi(json, path)+len(qkey(key))+1, len(value)) && agree(json, r, hi(json, path)-1, hi(json, path)+len(qkey(key))+1+len(value), len(json)-(hi(json, path)-1)) && len(r) == len(json)+len(qkey(key))+1+len(value)+1 && r[hi(json, path)-1] == 44
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> wf(r)
  assert err == nil && RK(json, path, key) >= 0 ==> agree(json, r, 0, 0, RK(json, path, key)) && agree(value, r, 0, RK(json, path, key), len(value)) && agree(json, r, RE(json, path ++ unit(key)), RK(json, path, key)+len(value), len(json)-RE(json, path ++ unit(key))) && len(r) == RK(json, path, key)+len(value)+len(json)-RE(json, path ++ unit(key))
  assert err == nil && RK(json, path, key) >= 0 ==> wf(r)
  ensures well: err == nil ==> wf(r)

  behavior wellnil
  follows
  assumes wf(json) && isnil(value) && iskey(qkey(key))
  apply core(json, false, path)
  use wfnull blank noquote Rpos setwf addkv closer blankst
  assert wf("null")
  assert isobj(json, path) ==> vpos(st(json, RR(json, path)))
  assert isobj(json, path) ==> lo(json, path) == RR(json, path)
  assert isobj(json, path) ==> 0 <= json[RR(json, path)] && st(json, RR(json, path)+1) == 2
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (blank(json, path) ==> st(json, hi(json, path)-1) == 2)
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (st(json, hi(json, path)-1) == 2) == blank(json, path)
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> r == json[:hi(json, path)-1] ++ qkey(key) ++ ":" ++ "null" ++ json[hi(json, path)-1:]
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> r == json[:hi(json, path)-1] ++ "," ++ qkey(key) ++ ":" ++ "null" ++ json[hi(json, path)-1:]
  assert RK(json, path, key) >= 0 ==> dp(json, RK(json, path, key)) == len(path)+1
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (spanC(json, RR(json, path), hi(json, path)) || spanR(json, RR(json, path), hi(json, path)))
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> agree(json, r, 0, 0, hi(json, path)-1) && agree(qkey(key), r, 0, hi(json, path)-1, len(qkey(key))) && r[hi(json, path)-1+len(qkey(key))] == 58
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> agree("null", r, 0, hi(json, path)-1+len(qkey(key))+1, len("null")) && agree(json, r, hi(json, path)-1, hi(json, path)-1+len(qkey(key))+1+len("null"), len(json)-(hi(json, path)-1)) && len(r) == len(json)+len(qkey(key))+1+len("null")
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> wf(r)
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> agree(json, r, 0, 0, hi(json, path)-1) && agree(qkey(key), r, 0, hi(json, path), len(qkey(key))) && r[hi(json, path)+len(qkey(key))] == 58
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> agree("null", r, 0, hi(json, path)+len(qkey(key))+1, len("null")) && agree(json, r, hi(json, path)-1, hi(json, path)+len(qkey(key))+1+len("null"), len(json)-(hi(json, path)-1)) && len(r) == len(json)+len(qkey(key))+1+len("null")+1 && r[hi(json, path)-1] == 44
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> wf(r)
  ensures wellnil: err == nil && RK(json, path, key) < 0 ==> wf(r)

// pns(s, i): one past the last position below i that holds no white space (0 if there is none)
logic pns(s: seq, i: int): int
axiom pns0: forall s: seq, i: int {pns(s, i)} :: 0 <= i && i <= len(s) ==> 0 <= pns(s, i) && pns(s, i) <= i && (pns(s, i) > 0 ==> !ws(s[pns(s, i)-1]))
axiom pns1: forall s: seq, i: int, j: int {pns(s, i), s[j]} :: 0 <= i && i <= len(s) && pns(s, i) <= j && j < i ==> ws(s[j])
// the container that a path addresses (the whole document for an empty path) is json[lo:hi]
def lo(json, path) = ite(len(path) == 0, nxs(json, 0), cs(json, path))
def hi(json, path) = ite(len(path) == 0, pns(json, len(json)), ce(json, path))
def found(json, path) = len(json) >= 2 && (len(path) == 0 || cerr(json, path) == nil)
def holds(json, path, open, close) = found(json, path) && (len(path) > 0 || lo(json, path) < hi(json, path)) && json[lo(json, path)] == open && json[hi(json, path)-1] == close && !(lo(json, path) > 0 && json[lo(json, path)-1] == 34)
def blank(json, path) = nxs(json, lo(json, path)+1) >= hi(json, path)-1
def into(json, path, text) = json[:hi(json, path)-1] ++ text ++ json[hi(json, path)-1:]
def vtext(value) = ite(isnil(value), "null", value)

// an object (an array) is addressed; where it ends; the value of key in it
def isobj(json, path) = RR(json, path) >= 0 && json[RR(json, path)] == 123
def isarr(json, path) = RR(json, path) >= 0 && json[RR(json, path)] == 91
def spanO(json, path) = (len(path) > 0 ==> spanC(json, RR(json, path), hi(json, path))) && (len(path) == 0 ==> spanR(json, RR(json, path), hi(json, path)))
def RK(json, path, key) = R(json, path ++ unit(key), len(path)+1)
lemma emptyfst(s: seq, r: int, d: int, key: seq, i: int)
  requires 0 <= r && r+1 <= i && i <= nxs(s, r+1) && i <= len(s) && st(s, r+1) == 2
  ensures fst(s, r, d, key, i) < 0
  use blank
  case i > r+1 ==> 0 <= s[i-1] && st(s, i-1) == 2 && fst(s, r, d, key, i-1) < 0
  induction i from r+1
  trigger {fst(s, r, d, key, i), nxs(s, r+1)}
lemma emptyobj(s: seq, r: int, e: int, d: int, key: seq)
  requires wf(s) && 0 <= r && r < e && e <= len(s) && vpos(st(s, r)) && d == dp(s, r)+1 && s[r] == 123 && s[e-1] == 125 && nxs(s, r+1) >= e-1
  ensures fst(s, r, d, key, len(s)) < 0
  use blank emptyfst
  case 0 <= s[r] && 0 <= s[r+1] && r+1 < e && st(s, r+1) == 2 && dp(s, r+1) == dp(s, r)+1
  case !ws(s[e-1]) && nxs(s, r+1) == e-1
  case st(s, e-1) == 2 && dp(s, e-1) == dp(s, r)+1
  case 0 <= s[e-1] && dp(s, e) == dp(s, r)
  case fst(s, r, d, key, e-1) < 0
  case fst(s, r, d, key, e) < 0
  trigger {wf(s), fst(s, r, d, key, len(s)), s[e-1]}

func AddKeyValue(json, key, value, path) (r, err)
  pure
  use nxslice
  decreases ite(isnil(value), 1, 0)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)
  ensures first: holds(json, path, 123, 125) && blank(json, path) ==> err == nil && r == into(json, path, "\"" ++ key ++ "\":" ++ vtext(value))
  ensures next: holds(json, path, 123, 125) && !blank(json, path) && code(cerr(json, path ++ unit(key))) == 8 ==> err == nil && r == into(json, path, ",\"" ++ key ++ "\":" ++ vtext(value))
  ensures exists: holds(json, path, 123, 125) && !blank(json, path) && cerr(json, path ++ unit(key)) == nil ==> code(err) == 11
  ensures other: holds(json, path, 123, 125) && !blank(json, path) && cerr(json, path ++ unit(key)) != nil && code(cerr(json, path ++ unit(key))) != 8 ==> err == cerr(json, path ++ unit(key))
  ensures missing: len(json) >= 2 && len(path) > 0 && cerr(json, path) != nil ==> err == cerr(json, path)
  ensures kind: found(json, path) && len(path) > 0 && !holds(json, path, 123, 125) ==> code(err) == 5
  ensures rootkind: len(path) == 0 && !holds(json, path, 123, 125) ==> err != nil
  ensures short: len(json) < 2 ==> err != nil
  inv nxs(json, i) == nxs(json, 0)
  inv pns(json, len(json)) <= i+1
  inv empty ==> nxs(json, start+1) == nxs(json, i)
  inv !empty ==> nxs(json, start+1) < i
  inv empty || i <= end-1

  behavior wf
  assumes wf(json)
  use Rpre Rpos noquote rootend emptyobj
  assert R(json, path ++ unit(key), len(path)) == RR(json, path)
  assert len((path ++ unit(key))[len(path)]) == len(key)
  assert isobj(json, path) ==> spanO(json, path)
  assert isobj(json, path) && blank(json, path) ==> fst(json, RR(json, path), len(path)+1, key, len(json)) < 0
  assert isobj(json, path) && blank(json, path) ==> RK(json, path, key) < 0
  ensures prefix: R(json, path ++ unit(key), len(path)) == RR(json, path)
  ensures where: isobj(json, path) ==> spanO(json, path)
  ensures first: isobj(json, path) && blank(json, path) ==> err == nil && RK(json, path, key) < 0 && r == into(json, path, "\"" ++ key ++ "\":" ++ vtext(value))
  ensures next: isobj(json, path) && !blank(json, path) && RK(json, path, key) < 0 ==> err == nil && r == into(json, path, ",\"" ++ key ++ "\":" ++ vtext(value))
  ensures exists: isobj(json, path) && RK(json, path, key) >= 0 ==> code(err) == 11
  ensures none: !isobj(json, path) ==> err != nil

  behavior well
  follows
  assumes wf(json) && !isnil(value) && wf(value) && iskey(qkey(key))
  apply core(json, false, path)
  use blank noquote Rpos addkv closer blankst
  assert isobj(json, path) ==> vpos(st(json, RR(json, path)))
  assert isobj(json, path) ==> lo(json, path) == RR(json, path)
  assert isobj(json, path) ==> 0 <= json[RR(json, path)] && st(json, RR(json, path)+1) == 2
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (blank(json, path) ==> st(json, hi(json, path)-1) == 2)
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (st(json, hi(json, path)-1) == 2) == blank(json, path)
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> r == json[:hi(json, path)-1] ++ qkey(key) ++ ":" ++ value ++ json[hi(json, path)-1:]
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> r == json[:hi(json, path)-1] ++ "," ++ qkey(key) ++ ":" ++ value ++ json[hi(json, path)-1:]
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (spanC(json, RR(json, path), hi(json, path)) || spanR(json, RR(json, path), hi(json, path)))
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> agree(json, r, 0, 0, hi(json, path)-1) && agree(qkey(key), r, 0, hi(json, path)-1, len(qkey(key))) && r[hi(json, path)-1+len(qkey(key))] == 58
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> agree(value, r, 0, hi(json, path)-1+len(qkey(key))+1, len(value)) && agree(json, r, hi(json, path)-1, hi(json, path)-1+len(qkey(key))+1+len(value), len(json)-(hi(json, path)-1)) && len(r) == len(json)+len(qkey(key))+1+len(value)
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> wf(r)
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> agree(json, r, 0, 0, hi(json, path)-1) && agree(qkey(key), r, 0, hi(json, path), len(qkey(key))) && r[hi(json, path)+len(qkey(key))] == 58
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> agree(value, r, 0, hi(json, path)+len(qkey(key))+1, len(value)) && agree(json, r, hi(json, path)-1, hi(json, path)+len(qkey(key))+1+len(value), len(json)-(hi(json, path)-1)) && len(r) == len(json)+len(qkey(key))+1+len(value)+1 && r[hi(json, path)-1] == 44
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> wf(r)
  ensures well: err == nil ==> wf(r)

  behavior wellnil
  follows
  assumes wf(json) && isnil(value) && iskey(qkey(key))
  apply core(json, false, path)
  use wfnull blank noquote Rpos addkv closer blankst
  assert wf("null")
  assert isobj(json, path) ==> vpos(st(json, RR(json, path)))
  assert isobj(json, path) ==> lo(json, path) == RR(json, path)
  assert isobj(json, path) ==> 0 <= json[RR(json, path)] && st(json, RR(json, path)+1) == 2
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (blank(json, path) ==> st(json, hi(json, path)-1) == 2)
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (st(json, hi(json, path)-1) == 2) == blank(json, path)
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> r == json[:hi(json, path)-1] ++ qkey(key) ++ ":" ++ "null" ++ json[hi(json, path)-1:]
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> r == json[:hi(json, path)-1] ++ "," ++ qkey(key) ++ ":" ++ "null" ++ json[hi(json, path)-1:]
  assert isobj(json, path) && RK(json, path, key) < 0 ==> (spanC(json, RR(json, path), hi(json, path)) || spanR(json, RR(json, path), hi(json, path)))
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> agree(json, r, 0, 0, hi(json, path)-1) && agree(qkey(key), r, 0, hi(json, path)-1, len(qkey(key))) && r[hi(json, path)-1+len(qkey(key))] == 58
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> agree("null", r, 0, hi(json, path)-1+len(qkey(key))+1, len("null")) && agree(json, r, hi(json, path)-1, hi(json, path)-1+len(qkey(key))+1+len("null"), len(json)-(hi(json, path)-1)) && len(r) == len(json)+len(qkey(key))+1+len("null")
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && blank(json, path) ==> wf(r)
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> agree(json, r, 0, 0, hi(json, path)-1) && agree(qkey(key), r, 0, hi(json, path), len(qkey(key))) && r[hi(json, path)+len(qkey(key))] == 58
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> agree("null", r, 0, hi(json, path)+len(qkey(key))+1, len("null")) && agree(json, r, hi(json, path)-1, hi(json, path)+len(qkey(key))+1+len("null"), len(json)-(hi(json, path)-1)) && len(r) == len(json)+len(qkey(key))+1+len("null")+1 && r[hi(json, path)-1] == 44
  assert err == nil && isobj(json, path) && RK(json, path, key) < 0 && !blank(json, path) ==> wf(r)
  ensures wellnil: err == nil ==> wf(r)

func Add(json, value, path) (r, err)
  pure
  use nxslice
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)
  ensures first: holds(json, path, 91, 93) && blank(json, path) ==> err == nil && r == into(json, path, value)
  ensures next: holds(json, path, 91, 93) && !blank(json, path) ==> err == nil && r == into(json, path, "," ++ value)
  ensures missing: len(json) >= 2 && len(path) > 0 && cerr(json, path) != nil ==> err == cerr(json, path)
  ensures kind: found(json, path) && len(path) > 0 && !holds(json, path, 91, 93) ==> code(err) == 6
  ensures rootkind: len(path) == 0 && !holds(json, path, 91, 93) ==> err != nil
  ensures short: len(json) < 2 ==> err != nil
  inv nxs(json, i) == nxs(json, 0)
  inv pns(json, len(json)) <= i+1
  inv empty ==> nxs(json, start+1) == nxs(json, i)
  inv !empty ==> nxs(json, start+1) < i
  inv empty || i <= end-1

  behavior wf
  assumes wf(json)
  use Rpos noquote rootend
  ensures where: isarr(json, path) ==> spanO(json, path)
  ensures first: isarr(json, path) && blank(json, path) ==> err == nil && r == into(json, path, value)
  ensures next: isarr(json, path) && !blank(json, path) ==> err == nil && r == into(json, path, "," ++ value)
  ensures none: !isarr(json, path) ==> err != nil

  behavior well
  follows
  assumes wf(json) && wf(value)
  apply core(json, false, path)
  use blank noquote Rpos addel closer blankst
  assert isarr(json, path) ==> vpos(st(json, RR(json, path)))
  assert isarr(json, path) ==> lo(json, path) == RR(json, path)
  assert isarr(json, path) ==> 0 <= json[RR(json, path)] && st(json, RR(json, path)+1) == 1
  assert isarr(json, path) ==> (blank(json, path) ==> st(json, hi(json, path)-1) == 1)
  assert isarr(json, path) ==> (st(json, hi(json, path)-1) == 1) == blank(json, path)
  ensures well: err == nil ==> wf(r)

func Insert(json, index, value, path) (r, err)
  pure
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)
  ensures placed: holds(json, path, 91, 93) && cerr(json, path ++ unit(itoa(index))) == nil ==> err == nil && r == json[:vlo(json, path ++ unit(itoa(index)))] ++ value ++ "," ++ json[vlo(json, path ++ unit(itoa(index))):]
  ensures range: holds(json, path, 91, 93) && cerr(json, path ++ unit(itoa(index))) != nil ==> err == cerr(json, path ++ unit(itoa(index)))
  ensures missing: len(json) >= 2 && len(path) > 0 && cerr(json, path) != nil ==> err == cerr(json, path)
  ensures kind: found(json, path) && len(path) > 0 && !holds(json, path, 91, 93) ==> code(err) == 6
  ensures rootkind: len(path) == 0 && !holds(json, path, 91, 93) ==> err != nil
  ensures short: len(json) < 2 ==> err != nil
  inv nxs(json, i) == nxs(json, 0)
  inv pns(json, len(json)) <= i+1

  behavior wf
  assumes wf(json)
  use Rpre Rpos noquote rootend
  assert R(json, path ++ unit(itoa(index)), len(path)) == RR(json, path)
  assert len((path ++ unit(itoa(index)))[len(path)]) >= 0
  ensures where: isarr(json, path) ==> spanO(json, path)
  ensures placed: isarr(json, path) && RK(json, path, itoa(index)) >= 0 ==> err == nil && r == json[:RK(json, path, itoa(index))] ++ value ++ "," ++ json[RK(json, path, itoa(index)):]
  ensures range: isarr(json, path) && RK(json, path, itoa(index)) < 0 ==> err != nil
  ensures none: !isarr(json, path) ==> err != nil

  behavior well
  follows
  assumes wf(json) && wf(value)
  use Rpos Rpre inswf
  assert len(path ++ unit(itoa(index))) == len(path)+1 && len((path ++ unit(itoa(index)))[len(path)]) >= 0
  assert R(json, path ++ unit(itoa(index)), len(path)) == RR(json, path)
  assert err == nil ==> RK(json, path, itoa(index)) >= 0 && isarr(json, path)
  assert err == nil ==> dp(json, RK(json, path, itoa(index))) == len(path)+1 && op(json, RK(json, path, itoa(index)), len(path)+1) == RR(json, path)
  ensures well: err == nil ==> wf(r)

// a negative index addresses nothing
lemma cxpos(s: seq, i: int, d: int)
  requires 0 <= i && i <= len(s) && 1 <= d && d <= dp(s, i)
  ensures cx(s, i, d) >= 0
  case i > 0 ==> 0 <= s[i-1]
  induction i from 0
  trigger {cx(s, i, d)}
lemma negidx(s: seq, p: seqs, k: int)
  requires wf(s) && 0 <= k && k < len(p) && R(s, p, k) >= 0 && s[R(s, p, k)] == 91 && (atoiok(p[k]) ==> atoi(p[k]) < 0)
  ensures R(s, p, k+1) < 0
  use Rpos fsthit cxpos
  case R(s, p, k) < len(s) && len(p[k]) >= 0
  case fst(s, R(s, p, k), k+1, p[k], len(s)) < 0 || cx(s, fst(s, R(s, p, k), k+1, p[k], len(s)), k+1) >= 0
  trigger {wf(s), R(s, p, k), p[k]}

// a value ends inside the container it began in
lemma opC(s: seq, r: int, j: int)
  requires 0 <= r && r < j && j <= len(s) && opn(s, r) && dp(s, j) >= dp(s, r)+1 && op(s, j, dp(s, r)+1) == r
  ensures op(s, j, dp(s, r)) == op(s, r, dp(s, r))
  use closed
  case 0 <= s[r] && 0 <= s[j-1]
  induction j from r+1
  trigger {op(s, j, dp(s, r)+1), op(s, r, dp(s, r))}
lemma opV(s: seq, r: int, j: int)
  requires 0 <= r && r < j && j <= len(s) && vpos(st(s, r)) && (st(s, j) == 7 || st(s, j) == 8 || st(s, j) == 9) && vs(s, j) == r
  ensures dp(s, j) == dp(s, r) && op(s, j, dp(s, r)) == op(s, r, dp(s, r))
  case 0 <= s[r] && 0 <= s[j-1]
  induction j from r+1
  trigger {vs(s, j), op(s, r, dp(s, r))}
lemma sameop(s: seq, r: int, e: int)
  requires wf(s) && 0 <= r && r < len(s) && vpos(st(s, r)) && dp(s, r) >= 1 && span(s, r, e)
  ensures dp(s, e) == dp(s, r) && op(s, e, dp(s, r)) == op(s, r, dp(s, r)) && endv(st(s, e)) && (st(s, e) == 9 ==> e < len(s) && !vtok(s[e]))
  use opC opV
  case 0 <= s[e-1] && 0 <= s[r]
  case isopen(s[r]) ==> e-1 != r
  case isopen(s[r]) ==> op(s, e-1, dp(s, r)) == op(s, r, dp(s, r))
  case s[r] == 34 ==> vs(s, e-1) == r
  case s[r] == 34 ==> op(s, e-1, dp(s, r)) == op(s, r, dp(s, r))
  trigger {wf(s), op(s, e, dp(s, r)), st(s, r)}

// what Delete removes: from the key's (or the value's) first byte dlo to dhi, with the separating comma
def dlo(json, path) = ite(cks(json, path) < 0, vlo(json, path), cks(json, path)-1)
def dhi(json, path) = vhi(json, path)
def dprev(json, path) = ite(pns(json, dlo(json, path)) > 0, pns(json, dlo(json, path))-1, 0)
def dnext(json, path) = ite(nxs(json, dhi(json, path)) < len(json), nxs(json, dhi(json, path)), 0)
def dplain(json, path) = len(path) > 0 && cerr(json, path) == nil && json[dlo(json, path)-1] != 34 && (json[cs(json, path)-1] == 34 || ce(json, path) == len(json) || json[ce(json, path)] != 34)
def only(json, path) = isopen(json[dprev(json, path)]) && json[dnext(json, path)] == json[dprev(json, path)] + 2

// on well-formed documents: the first byte of the addressed value, or of its key; the tokens before and after
def DL(json, path) = ite(json[R(json, path, len(path)-1)] == 123, ks(json, fst(json, R(json, path, len(path)-1), len(path), path[len(path)-1], len(json)))-1, RR(json, path))
def DF(json, path) = fst(json, R(json, path, len(path)-1), len(path), path[len(path)-1], len(json))
def DP(json, path) = pns(json, DL(json, path))-1
def DN(json, path) = nxs(json, RE(json, path))

func Delete(json, path) (r, err)
  pure
  ensures nopath: len(path) == 0 ==> code(err) == 0
  ensures missing: len(path) > 0 && cerr(json, path) != nil ==> err == cerr(json, path)
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)
  ensures alone: dplain(json, path) && only(json, path) ==> err == nil && r == json[:dlo(json, path)] ++ json[dhi(json, path):]
  ensures after: dplain(json, path) && !only(json, path) && json[dnext(json, path)] == 44 ==> err == nil && r == json[:dlo(json, path)] ++ json[dnext(json, path)+1:]
  ensures last: dplain(json, path) && !only(json, path) && json[dnext(json, path)] != 44 && json[dprev(json, path)] == 44 ==> err == nil && r == json[:dprev(json, path)] ++ json[dhi(json, path):]
  inv pns(json, start) <= i+1
  inv nxs(json, i) == nxs(json, e)
  inv endEdge == 0
  inv startEdge == 0

  behavior wf
  assumes wf(json)
  derived
  apply core(json, false, path)
  use Rpos noquote key before after sameop fsthit
  entry len(path) > 0 && RR(json, path) >= 0 ==> R(json, path, len(path)-1) >= 0 && len(path[len(path)-1]) >= 0
  entry len(path) > 0 && RR(json, path) >= 0 ==> cerr(json, path) == nil
  entry len(path) > 0 && RR(json, path) >= 0 ==> cs(json, path) == RR(json, path) + quoted(json, RR(json, path))
  entry len(path) > 0 && RR(json, path) >= 0 ==> 1 <= RR(json, path)
  entry len(path) > 0 && RR(json, path) >= 0 ==> vpos(st(json, RR(json, path))) && RR(json, path) < len(json)
  entry len(path) > 0 && RR(json, path) >= 0 ==> 0 <= st(json, RR(json, path)) && st(json, RR(json, path)) <= 3 && 0 <= json[RR(json, path)-1]
  entry len(path) > 0 && RR(json, path) >= 0 ==> json[RR(json, path)-1] != 34
  entry len(path) > 0 && RR(json, path) >= 0 ==> (json[cs(json, path)-1] == 34) == (json[RR(json, path)] == 34)
  entry len(path) > 0 && RR(json, path) >= 0 ==> span(json, RR(json, path), RE(json, path))
  entry len(path) > 0 && RR(json, path) >= 0 ==> dp(json, RR(json, path)) == len(path) && op(json, RR(json, path), len(path)) == R(json, path, len(path)-1)
  entry len(path) > 0 && RR(json, path) >= 0 ==> dp(json, RE(json, path)) == len(path)
  entry len(path) > 0 && RR(json, path) >= 0 ==> op(json, RE(json, path), len(path)) == R(json, path, len(path)-1)
  entry len(path) > 0 && RR(json, path) >= 0 ==> DL(json, path) >= 0 && 0 <= st(json, DL(json, path)) && st(json, DL(json, path)) <= 3 && dp(json, DL(json, path)) == len(path) && op(json, DL(json, path), len(path)) == R(json, path, len(path)-1)
  entry len(path) > 0 && RR(json, path) >= 0 ==> dlo(json, path) == DL(json, path) && dhi(json, path) == RE(json, path)
  entry len(path) > 0 && RR(json, path) >= 0 ==> dplain(json, path)
  entry len(path) > 0 && RR(json, path) >= 0 ==> pns(json, DL(json, path)) >= 1 && (json[DP(json, path)] == 44 || json[DP(json, path)] == json[R(json, path, len(path)-1)])
  entry len(path) > 0 && RR(json, path) >= 0 ==> endv(st(json, RE(json, path))) && (st(json, RE(json, path)) == 9 ==> !vtok(json[RE(json, path)]))
  entry len(path) > 0 && RR(json, path) >= 0 ==> DN(json, path) < len(json) && (json[DN(json, path)] == 44 || json[DN(json, path)] == json[R(json, path, len(path)-1)]+2)
  entry len(path) > 0 && RR(json, path) >= 0 ==> isopen(json[R(json, path, len(path)-1)])
  entry len(path) > 0 && RR(json, path) >= 0 ==> dprev(json, path) == DP(json, path) && dnext(json, path) == DN(json, path)
  ensures found: (err == nil) == (len(path) > 0 && RR(json, path) >= 0)
  ensures span: err == nil ==> span(json, RR(json, path), RE(json, path))
  ensures place: err == nil ==> (json[DP(json, path)] == 44 || json[DP(json, path)] == json[R(json, path, len(path)-1)]) && (json[DN(json, path)] == 44 || json[DN(json, path)] == json[R(json, path, len(path)-1)]+2)
  ensures alone: err == nil && json[DP(json, path)] != 44 && json[DN(json, path)] != 44 ==> r == json[:DL(json, path)] ++ json[RE(json, path):]
  ensures after: err == nil && json[DN(json, path)] == 44 ==> r == json[:DL(json, path)] ++ json[DN(json, path)+1:]
  ensures last: err == nil && json[DP(json, path)] == 44 && json[DN(json, path)] != 44 ==> r == json[:DP(json, path)] ++ json[RE(json, path):]

  behavior well
  follows
  assumes wf(json)
  use Rpos noerr tops opstay keyop blankop backop fsthit key sameop delalone delafter dellast before after
  assert err == nil ==> dp(json, RR(json, path)) == len(path) && vpos(st(json, RR(json, path)))
  assert err == nil ==> (forall j: int {op(json, RE(json, path), j)} :: 1 <= j && j <= len(path) ==> op(json, RE(json, path), j) == op(json, RR(json, path), j))
  assert err == nil && json[PU(json, path)] == 123 ==> DF(json, path) >= 0 && DF(json, path) < len(json) && st(json, DF(json, path)) == 4 && json[DF(json, path)] == 58 && RR(json, path) == nxs(json, DF(json, path)+1)
  assert err == nil && json[PU(json, path)] == 123 ==> st(json, DF(json, path)+1) == 0 && DL(json, path) == ks(json, DF(json, path))-1
  assert err == nil && json[PU(json, path)] == 123 ==> (forall j: int {op(json, RR(json, path), j)} :: op(json, RR(json, path), j) == op(json, DF(json, path)+1, j))
  assert err == nil && json[PU(json, path)] == 123 ==> (forall j: int {op(json, DF(json, path)+1, j)} :: op(json, DF(json, path)+1, j) == op(json, DF(json, path), j))
  assert err == nil && json[PU(json, path)] == 123 ==> (forall j: int {op(json, DF(json, path), j)} :: op(json, DF(json, path), j) == op(json, DL(json, path), j))
  assert err == nil && json[PU(json, path)] != 123 ==> DL(json, path) == RR(json, path)
  assert err == nil ==> (forall j: int {op(json, DL(json, path), j)} :: op(json, RR(json, path), j) == op(json, DL(json, path), j))
  assert err == nil ==> endv(st(json, RE(json, path))) && dp(json, RE(json, path)) == len(path) && dp(json, DL(json, path)) == len(path) && 0 <= st(json, DL(json, path)) && st(json, DL(json, path)) <= 3 && DL(json, path) <= RR(json, path) && RE(json, path) < len(json)
  assert err == nil && json[PU(json, path)] == 123 ==> 0 <= DL(json, path)
  assert err == nil ==> 0 <= DL(json, path) && DL(json, path) <= len(json) && RE(json, path) <= len(json) && 0 <= RE(json, path)
  assert err == nil ==> op(json, RE(json, path), len(path)) == op(json, RR(json, path), len(path)) && (st(json, RE(json, path)) == 9 ==> !vtok(json[RE(json, path)]))
  assert err == nil ==> DN(json, path) < len(json)
  assert err == nil && json[DP(json, path)] != 44 && json[DN(json, path)] != 44 ==> len(r) == DL(json, path)+len(json)-RE(json, path)
  assert err == nil && json[DP(json, path)] != 44 && json[DN(json, path)] != 44 ==> agree(json, r, 0, 0, DL(json, path))
  assert err == nil && json[DP(json, path)] != 44 && json[DN(json, path)] != 44 ==> agree(json, r, RE(json, path), DL(json, path), len(json)-RE(json, path))
  assert err == nil && json[DN(json, path)] == 44 ==> len(r) == DL(json, path)+len(json)-(DN(json, path)+1)
  assert err == nil && json[DN(json, path)] == 44 ==> agree(json, r, 0, 0, DL(json, path))
  assert err == nil && json[DN(json, path)] == 44 ==> agree(json, r, DN(json, path)+1, DL(json, path), len(json)-(DN(json, path)+1))
  assert err == nil && json[DP(json, path)] == 44 && json[DN(json, path)] != 44 ==> agree(json, r, 0, 0, DP(json, path)) && agree(json, r, RE(json, path), DP(json, path), len(json)-RE(json, path)) && len(r) == DP(json, path)+len(json)-RE(json, path)
  assert err == nil ==> pns(json, DL(json, path)) >= 1 && pns(json, DL(json, path)) <= DL(json, path) && st(json, pns(json, DL(json, path))) == st(json, DL(json, path)) && dp(json, pns(json, DL(json, path))) == len(path) && 0 <= json[DP(json, path)] && st(json, DP(json, path)) != 12
  assert err == nil && json[DP(json, path)] != 44 && json[DN(json, path)] != 44 ==> st(json, DL(json, path)) == 1 || st(json, DL(json, path)) == 2
  assert err == nil && json[DP(json, path)] == 44 && json[DN(json, path)] != 44 ==> endv(st(json, DP(json, path))) && dp(json, DP(json, path)) == len(path)
  assert err == nil && json[DP(json, path)] == 44 && json[DN(json, path)] != 44 ==> (forall j: int {op(json, DP(json, path), j)} :: op(json, DP(json, path), j) == op(json, DL(json, path), j))
  assert err == nil && json[DP(json, path)] == 44 && json[DN(json, path)] != 44 ==> (forall j: int {op(json, RE(json, path), j)} :: 1 <= j && j <= len(path) ==> op(json, RE(json, path), j) == op(json, DP(json, path), j))
  ensures alone: err == nil && json[DP(json, path)] != 44 && json[DN(json, path)] != 44 ==> wf(r)
  ensures after: err == nil && json[DN(json, path)] == 44 ==> wf(r)
  ensures last: err == nil && json[DP(json, path)] == 44 && json[DN(json, path)] != 44 ==> wf(r)

// qend(s, i): the first quote at or after i that no backslash escapes
logic qend(s: seq, i: int): int
axiom qend1: forall s: seq, i: int {qend(s, i), s[i]} :: 0 <= i && i < len(s) ==> (s[i] == 92 ==> qend(s, i) == qend(s, i+2)) && (s[i] == 34 ==> qend(s, i) == i) && (s[i] != 92 && s[i] != 34 ==> qend(s, i) == qend(s, i+1))
axiom qend0: forall s: seq, i: int {qend(s, i)} :: qend(s, i) >= i

// keyed: when the sibling newKey is missing and the path itself resolves, the search has seen a key (path does not
// end in an array). It follows for well-formed documents; on other bytes it is bounded-checked, not proved (2-safety of core).
def sib(newKey, path) = path[:len(path)-1] ++ unit(newKey)
def sibling(q, newKey, path) = len(path) > 0 && len(q) == len(path) && q[len(path)-1] == newKey && (forall j: int {q[j]} :: 0 <= j && j < len(path)-1 ==> q[j] == path[j])
def keyed(json, newKey, path) = forall q: seqs {cerr(json, q)} :: sibling(q, newKey, path) && code(cerr(json, q)) == 8 && cerr(json, path) == nil ==> cks(json, path) >= 0
// on well-formed documents: the value of newKey; the last key of the path
def RS(json, newKey, path) = R(json, sib(newKey, path), len(path))
def RP(json, path) = R(json, path, len(path)-1)
def FK(json, path) = fst(json, RP(json, path), len(path), path[len(path)-1], len(json))
def KK(json, path) = ks(json, FK(json, path))
def asked(json, newKey, path) = wf(json) && len(newKey) > 0 && len(path) > 0

func SetKey(json, newKey, path) (r, err)
  pure
  requires wf(json) || keyed(json, newKey, path)
  use Rpos Rpre fsthit keyend
  apply core(json, false, path)
  apply core(json, false, sib(newKey, path))
  entry forall q: seqs {cerr(json, q)} :: sibling(q, newKey, path) ==> q == sib(newKey, path)
  entry asked(json, newKey, path) ==> R(json, sib(newKey, path), len(path)-1) == RP(json, path) && len(sib(newKey, path)) == len(path)
  entry asked(json, newKey, path) ==> len(sib(newKey, path)[len(path)-1]) >= 0 && len(path[len(path)-1]) >= 0
  entry asked(json, newKey, path) && RR(json, path) >= 0 ==> RP(json, path) >= 0 && isopen(json[RP(json, path)]) && len(json) >= 2
  entry asked(json, newKey, path) && RR(json, path) >= 0 && json[RP(json, path)] == 123 ==> FK(json, path) >= 0 && cks(json, path) == KK(json, path) && st(json, FK(json, path)) == 4 && FK(json, path) < RR(json, path)
  entry asked(json, newKey, path) && RR(json, path) >= 0 && RS(json, newKey, path) < 0 ==> (code(cerr(json, sib(newKey, path))) == 8) == (json[RP(json, path)] == 123)
  entry wf(json) ==> keyed(json, newKey, path)
  ensures nokey: len(newKey) == 0 ==> code(err) == 19
  ensures nopath: len(newKey) > 0 && len(path) == 0 ==> code(err) == 0
  ensures unchanged: err != nil ==> r == json
  ensures owned: err == nil ==> fresh(r)
  ensures missing: forall q: seqs {cerr(json, q)} :: len(newKey) > 0 && sibling(q, newKey, path) && cerr(json, path) != nil && code(cerr(json, q)) == 8 ==> err == cerr(json, path)
  ensures taken: forall q: seqs {cerr(json, q)} :: len(newKey) > 0 && sibling(q, newKey, path) && cerr(json, q) == nil ==> code(err) == 11
  ensures other: forall q: seqs {cerr(json, q)} :: len(newKey) > 0 && sibling(q, newKey, path) && cerr(json, q) != nil && code(cerr(json, q)) != 8 ==> err == cerr(json, q)
  ensures renamed: forall q: seqs {cerr(json, q)} :: len(newKey) > 0 && sibling(q, newKey, path) && cerr(json, path) == nil && code(cerr(json, q)) == 8 && qend(json, cks(json, path)) < cs(json, path) ==> err == nil && r == json[:cks(json, path)] ++ newKey ++ json[qend(json, cks(json, path)):]
  inv qend(json, i) == qend(json, keyStart)

  behavior wf
  assumes wf(json)
  derived
  use Rpos Rpre fsthit keyend
  apply core(json, false, path)
  apply core(json, false, sib(newKey, path))
  entry forall q: seqs {cerr(json, q)} :: sibling(q, newKey, path) ==> q == sib(newKey, path)
  entry len(path) > 0 ==> sibling(sib(newKey, path), newKey, path)
  entry asked(json, newKey, path) ==> R(json, sib(newKey, path), len(path)-1) == RP(json, path) && len(sib(newKey, path)) == len(path)
  entry asked(json, newKey, path) ==> len(sib(newKey, path)[len(path)-1]) >= 0 && len(path[len(path)-1]) >= 0
  entry asked(json, newKey, path) && RR(json, path) >= 0 ==> RP(json, path) >= 0 && isopen(json[RP(json, path)]) && len(json) >= 2
  entry asked(json, newKey, path) && RR(json, path) >= 0 && json[RP(json, path)] == 123 ==> FK(json, path) >= 0 && cks(json, path) == KK(json, path) && st(json, FK(json, path)) == 4 && FK(json, path) < RR(json, path)
  entry asked(json, newKey, path) && RR(json, path) >= 0 && RS(json, newKey, path) < 0 ==> (code(cerr(json, sib(newKey, path))) == 8) == (json[RP(json, path)] == 123)
  entry asked(json, newKey, path) && RR(json, path) >= 0 && json[RP(json, path)] == 123 ==> qend(json, KK(json, path)) == ke(json, FK(json, path)) && ke(json, FK(json, path)) < RR(json, path)
  ensures missing: len(newKey) == 0 || len(path) == 0 || RR(json, path) < 0 ==> err != nil
  ensures element: asked(json, newKey, path) && RR(json, path) >= 0 && json[RP(json, path)] != 123 ==> err != nil
  ensures taken: asked(json, newKey, path) && RS(json, newKey, path) >= 0 ==> code(err) == 11
  ensures renamed: asked(json, newKey, path) && RR(json, path) >= 0 && json[RP(json, path)] == 123 && RS(json, newKey, path) < 0 ==> err == nil && r == json[:KK(json, path)] ++ newKey ++ json[ke(json, FK(json, path)):]

  behavior well
  follows
  assumes wf(json) && iskey(qkey(newKey))
  use Rpos fsthit key keyend keyat keywf
  assert err == nil ==> asked(json, newKey, path) && RR(json, path) >= 0 && json[RP(json, path)] == 123 && RP(json, path) >= 0 && RS(json, newKey, path) < 0 && len(path[len(path)-1]) >= 0
  assert err == nil ==> FK(json, path) >= 0 && st(json, FK(json, path)) == 4 && FK(json, path) < len(json)
  assert err == nil ==> st(json, ke(json, FK(json, path))) == 10 && (st(json, KK(json, path)-1) == 2 || st(json, KK(json, path)-1) == 3) && json[ke(json, FK(json, path))] == 34 && json[KK(json, path)-1] == 34 && KK(json, path) >= 1 && KK(json, path) <= ke(json, FK(json, path)) && ke(json, FK(json, path)) < len(json)
  assert err == nil ==> r == json[:KK(json, path)-1] ++ qkey(newKey) ++ json[ke(json, FK(json, path))+1:]
  assert err == nil ==> agree(json, r, 0, 0, KK(json, path)-1) && agree(qkey(newKey), r, 0, KK(json, path)-1, len(qkey(newKey))) && agree(json, r, ke(json, FK(json, path))+1, KK(json, path)-1+len(qkey(newKey)), len(json)-(ke(json, FK(json, path))+1)) && len(r) == KK(json, path)-1+len(qkey(newKey))+len(json)-(ke(json, FK(json, path))+1)
  ensures well: err == nil ==> wf(r)
