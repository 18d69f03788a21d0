// ---- the k-th listed member or element is what its key or index addresses --------------------------------------
// posof(s, u, d, i): where the values start whose comma or closing bracket is below i
def incont(s, u, d) = isopen(s[u]) && vpos(st(s, u)) && dp(s, u)+1 == d && 1 <= d
logic posof(s: seq, u: int, d: int, i: int): seqi
axiom pos0: forall s: seq, u: int, d: int, i: int {posof(s, u, d, i)} :: i <= u+1 ==> len(posof(s, u, d, i)) == 0
axiom pos1: forall s: seq, u: int, d: int, i: int {posof(s, u, d, i), s[i]} :: 0 <= u && u < i && i < len(s) ==>
   (comma(s, u, d, i) || close(s, u, d, i) ==> posof(s, u, d, i+1) == posof(s, u, d, i) ++ unit_int(nxs(s, vb(s, u, d, i)))) && (!comma(s, u, d, i) && !close(s, u, d, i) ==> posof(s, u, d, i+1) == posof(s, u, d, i))
lemma poslen(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s)
  ensures len(posof(s, u, d, i)) == len(valsof(s, u, d, i))
  case i > u+1 ==> 0 <= s[i-1]
  induction i from u+1
  trigger {posof(s, u, d, i)}
lemma posmono(s: seq, u: int, d: int, i: int, j: int)
  requires 0 <= u && u < i && i <= j && j <= len(s)
  ensures len(posof(s, u, d, i)) <= len(posof(s, u, d, j)) && (forall q: int {posof(s, u, d, i)[q]} {posof(s, u, d, j)[q]} :: 0 <= q && q < len(posof(s, u, d, i)) ==> posof(s, u, d, j)[q] == posof(s, u, d, i)[q])
  case j > i ==> 0 <= s[j-1]
  case j > i ==> len(posof(s, u, d, j-1)) <= len(posof(s, u, d, j)) && (forall q: int {posof(s, u, d, j)[q]} :: 0 <= q && q < len(posof(s, u, d, j-1)) ==> posof(s, u, d, j)[q] == posof(s, u, d, j-1)[q])
  induction j from i
  trigger {posof(s, u, d, i), posof(s, u, d, j)}
lemma posin(s: seq, u: int, d: int, i: int, q: int)
  requires 0 <= u && u < i && i <= len(s) && incont(s, u, d) && 0 <= q && q < len(posof(s, u, d, i))
  ensures u < posof(s, u, d, i)[q] && posof(s, u, d, i)[q] < i
  use vbn vbs
  case i > u+1 ==> 0 <= s[i-1]
  case i > u+1 && q >= len(posof(s, u, d, i-1)) ==> q == len(posof(s, u, d, i-1)) && posof(s, u, d, i)[q] == nxs(s, vb(s, u, d, i-1)) && here(s, u, d, i-1) && endv(st(s, i-1))
  case i > u+1 ==> vb(s, u, d, i-1) <= nxs(s, vb(s, u, d, i-1))
  induction i from u+1
  trigger {posof(s, u, d, i)[q]}

// in an object: as many keys as values between members, one more behind the colon; the last key is the one whose colon the value stands behind
def keyc(s, c) = s[ks(s, c):ke(s, c)]
lemma memberat(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && incont(s, u, d) && s[u] == 123
  ensures here(s, u, d, i) && (st(s, i) == 2 || st(s, i) == 3 || st(s, i) == 4 || inkey(st(s, i))) ==> len(keysof(s, u, d, i)) == len(posof(s, u, d, i))
  ensures here(s, u, d, i) && !(st(s, i) == 2 || st(s, i) == 3 || st(s, i) == 4 || inkey(st(s, i))) && st(s, i) != 12 || dp(s, i) > d && op(s, i, d) == u ==> len(keysof(s, u, d, i)) == len(posof(s, u, d, i))+1 && u < vb(s, u, d, i)-1 && vb(s, u, d, i) <= i && colon(s, u, d, vb(s, u, d, i)-1) && len(keysof(s, u, d, vb(s, u, d, i)-1)) == len(posof(s, u, d, i)) && keysof(s, u, d, i)[len(posof(s, u, d, i))] == keyc(s, vb(s, u, d, i)-1)
  use ops
  case i > u+1 ==> 0 <= s[i-1]
  case i > u+1 && colon(s, u, d, i-1) ==> vb(s, u, d, i) == i && len(keysof(s, u, d, i)) == len(keysof(s, u, d, i-1))+1 && keysof(s, u, d, i)[len(keysof(s, u, d, i-1))] == keyc(s, i-1)
  induction i from u+1
  trigger {keysof(s, u, d, i), posof(s, u, d, i)}

// no key of an object stands twice
def once(s, u, d) = (forall a: int, b: int {keysof(s, u, d, len(s))[a], keysof(s, u, d, len(s))[b]} :: 0 <= a && a < b && b < len(keysof(s, u, d, len(s))) ==> keysof(s, u, d, len(s))[a] != keysof(s, u, d, len(s))[b])
lemma fstkey(s: seq, u: int, d: int, c: int, key: seq)
  requires 0 <= u && u < c && c < len(s) && incont(s, u, d) && s[u] == 123 && colon(s, u, d, c) && once(s, u, d) && key == keyc(s, c)
  ensures fst(s, u, d, key, len(s)) == c
  use fsthit keysmono fststays keylen
  case keysof(s, u, d, c+1)[len(keysof(s, u, d, c))] == key && keysof(s, u, d, len(s))[len(keysof(s, u, d, c))] == key && len(keysof(s, u, d, c)) < len(keysof(s, u, d, len(s)))
  case keq(s, ks(s, c), ke(s, c), key)
  case fst(s, u, d, key, c) >= 0 ==> 0 <= s[fst(s, u, d, key, c)] && colon(s, u, d, fst(s, u, d, key, c)) && keyc(s, fst(s, u, d, key, c)) == key
  case fst(s, u, d, key, c) >= 0 ==> keysof(s, u, d, fst(s, u, d, key, c)+1)[len(keysof(s, u, d, fst(s, u, d, key, c)))] == key && len(keysof(s, u, d, fst(s, u, d, key, c))) < len(keysof(s, u, d, fst(s, u, d, key, c)+1))
  case fst(s, u, d, key, c) >= 0 ==> len(keysof(s, u, d, fst(s, u, d, key, c)+1)) <= len(keysof(s, u, d, c)) && keysof(s, u, d, c)[len(keysof(s, u, d, fst(s, u, d, key, c)))] == key && keysof(s, u, d, len(s))[len(keysof(s, u, d, fst(s, u, d, key, c)))] == key
  case fst(s, u, d, key, c) < 0
  case fst(s, u, d, key, c+1) == c
  trigger {keysof(s, u, d, c), fst(s, u, d, key, len(s))}
// in an array: the commas counted are the values listed; the last value stands behind the bracket or the comma before it
lemma elemat(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && incont(s, u, d) && s[u] == 91
  ensures dp(s, i) >= d && op(s, i, d) == u ==> cx(s, i, d) == len(posof(s, u, d, i))
  ensures dp(s, i) >= d && op(s, i, d) == u ==> len(posof(s, u, d, i)) == 0 && vb(s, u, d, i) == u+1 || len(posof(s, u, d, i)) > 0 && u < vb(s, u, d, i)-1 && vb(s, u, d, i) <= i && comma(s, u, d, vb(s, u, d, i)-1) && len(posof(s, u, d, vb(s, u, d, i)-1))+1 == len(posof(s, u, d, i))
  use ops tops
  case i > u+1 ==> 0 <= s[i-1]
  case i > u+1 ==> !colon(s, u, d, i-1)
  case i > u+1 && comma(s, u, d, i-1) ==> vb(s, u, d, i) == i && len(posof(s, u, d, i)) == len(posof(s, u, d, i-1))+1
  induction i from u+1
  trigger {cx(s, i, d), posof(s, u, d, i)}
lemma fstidx(s: seq, u: int, d: int, c: int, n: int)
  requires 0 <= u && u < c && c < len(s) && incont(s, u, d) && s[u] == 91 && comma(s, u, d, c) && len(posof(s, u, d, c))+1 == n
  ensures fst(s, u, d, itoa(n), len(s)) == c
  use fsthit posmono fststays elemat
  case cx(s, c, d) == n-1 && 0 <= s[c] && n > 0
  case atoiok(itoa(n)) && atoi(itoa(n)) == n
  case fst(s, u, d, itoa(n), c) >= 0 ==> 0 <= s[fst(s, u, d, itoa(n), c)] && comma(s, u, d, fst(s, u, d, itoa(n), c)) && cx(s, fst(s, u, d, itoa(n), c), d) == n-1
  case fst(s, u, d, itoa(n), c) >= 0 ==> len(posof(s, u, d, fst(s, u, d, itoa(n), c))) == n-1 && len(posof(s, u, d, fst(s, u, d, itoa(n), c)+1)) == n
  case fst(s, u, d, itoa(n), c) >= 0 ==> len(posof(s, u, d, fst(s, u, d, itoa(n), c)+1)) <= len(posof(s, u, d, c))
  case fst(s, u, d, itoa(n), c) < 0
  case fst(s, u, d, itoa(n), c+1) == c
  trigger {posof(s, u, d, c), fst(s, u, d, itoa(n), len(s))}

// the value listed as number n starts where the path with its key or index leads
lemma member(s: seq, p: seqs, k: int, i: int, n: int)
  requires wf(s) && 0 <= k && k < len(p) && R(s, p, k) >= 0 && s[R(s, p, k)] == 123 && once(s, R(s, p, k), k+1) && R(s, p, k) < i && i <= len(s) && 0 <= n && n < len(posof(s, R(s, p, k), k+1, i)) && n < len(keysof(s, R(s, p, k), k+1, len(s))) && p[k] == keysof(s, R(s, p, k), k+1, len(s))[n]
  ensures R(s, p, k+1) == posof(s, R(s, p, k), k+1, i)[n]
  use Rpos memberat fstkey posmono keysmono
  case incont(s, R(s, p, k), k+1)
  case i > R(s, p, k)+1 ==> 0 <= s[i-1]
  case i > R(s, p, k)+1 && n >= len(posof(s, R(s, p, k), k+1, i-1)) ==> n == len(posof(s, R(s, p, k), k+1, i-1)) && here(s, R(s, p, k), k+1, i-1) && endv(st(s, i-1)) && posof(s, R(s, p, k), k+1, i)[n] == nxs(s, vb(s, R(s, p, k), k+1, i-1))
  case i > R(s, p, k)+1 && n >= len(posof(s, R(s, p, k), k+1, i-1)) ==> colon(s, R(s, p, k), k+1, vb(s, R(s, p, k), k+1, i-1)-1) && keysof(s, R(s, p, k), k+1, i-1)[n] == keyc(s, vb(s, R(s, p, k), k+1, i-1)-1)
  case i > R(s, p, k)+1 && n >= len(posof(s, R(s, p, k), k+1, i-1)) ==> len(keysof(s, R(s, p, k), k+1, i-1)) <= len(keysof(s, R(s, p, k), k+1, len(s))) && p[k] == keyc(s, vb(s, R(s, p, k), k+1, i-1)-1)
  case i > R(s, p, k)+1 && n >= len(posof(s, R(s, p, k), k+1, i-1)) ==> fst(s, R(s, p, k), k+1, p[k], len(s)) == vb(s, R(s, p, k), k+1, i-1)-1
  induction i from R(s, p, k)+1
  trigger {R(s, p, k+1), posof(s, R(s, p, k), k+1, i)[n]}
lemma element(s: seq, p: seqs, k: int, i: int, n: int)
  requires wf(s) && 0 <= k && k < len(p) && R(s, p, k) >= 0 && s[R(s, p, k)] == 91 && R(s, p, k) < i && i <= len(s) && 0 <= n && n < len(posof(s, R(s, p, k), k+1, i)) && p[k] == itoa(n)
  ensures R(s, p, k+1) == posof(s, R(s, p, k), k+1, i)[n]
  use Rpos elemat fstidx posmono vbn closed blank
  case incont(s, R(s, p, k), k+1) && atoiok(p[k]) && atoi(p[k]) == n
  case i > R(s, p, k)+1 ==> 0 <= s[i-1]
  case i > R(s, p, k)+1 && n >= len(posof(s, R(s, p, k), k+1, i-1)) ==> n == len(posof(s, R(s, p, k), k+1, i-1)) && here(s, R(s, p, k), k+1, i-1) && endv(st(s, i-1)) && posof(s, R(s, p, k), k+1, i)[n] == nxs(s, vb(s, R(s, p, k), k+1, i-1))
  case i > R(s, p, k)+1 && n > 0 && n >= len(posof(s, R(s, p, k), k+1, i-1)) ==> comma(s, R(s, p, k), k+1, vb(s, R(s, p, k), k+1, i-1)-1) && fst(s, R(s, p, k), k+1, p[k], len(s)) == vb(s, R(s, p, k), k+1, i-1)-1
  case i > R(s, p, k)+1 && n == 0 && n >= len(posof(s, R(s, p, k), k+1, i-1)) ==> vb(s, R(s, p, k), k+1, i-1) == R(s, p, k)+1 && zeroth(s, R(s, p, k), p[k])
  case i > R(s, p, k)+1 && n == 0 && n >= len(posof(s, R(s, p, k), k+1, i-1)) ==> st(s, R(s, p, k)+1) == 1 && dp(s, R(s, p, k)+1) == k+1 && st(s, nxs(s, R(s, p, k)+1)) == 1 && dp(s, nxs(s, R(s, p, k)+1)) == k+1 && nxs(s, R(s, p, k)+1) < i-1
  case i > R(s, p, k)+1 && n == 0 && n >= len(posof(s, R(s, p, k), k+1, i-1)) && s[nxs(s, R(s, p, k)+1)] == 93 ==> dp(s, nxs(s, R(s, p, k)+1)+1) == k
  case i > R(s, p, k)+1 && n == 0 && n >= len(posof(s, R(s, p, k), k+1, i-1)) ==> s[nxs(s, R(s, p, k)+1)] != 93
  induction i from R(s, p, k)+1
  trigger {R(s, p, k+1), posof(s, R(s, p, k), k+1, i)[n]}
lemma child(s: seq, p: seqs, key: seq, u: int, d: int, n: int)
  requires wf(s) && u == R(s, p, len(p)) && d == len(p)+1 && u >= 0 && isopen(s[u]) && 0 <= n && n < len(posof(s, u, d, len(s)))
  requires s[u] == 123 ==> once(s, u, d) && n < len(keysof(s, u, d, len(s))) && key == keysof(s, u, d, len(s))[n]
  requires s[u] == 91 ==> key == itoa(n)
  ensures R(s, p ++ unit(key), d) == posof(s, u, d, len(s))[n] && R(s, p ++ unit(key), d) > u
  use Rpre Rpos member element posin
  case len(p ++ unit(key)) == d && (p ++ unit(key))[len(p)] == key && R(s, p ++ unit(key), len(p)) == u
  case u < len(s)
  case R(s, p ++ unit(key), len(p)+1) == posof(s, R(s, p ++ unit(key), len(p)), len(p)+1, len(s))[n]
  case incont(s, u, d)
  case posof(s, u, d, len(s))[n] > u
  trigger {R(s, p ++ unit(key), d), posof(s, u, d, len(s))[n]}
lemma childkey(s: seq, p: seqs, key: seq, u: int, d: int, n: int)
  requires wf(s) && u == R(s, p, len(p)) && d == len(p)+1 && u >= 0 && s[u] == 123 && 0 <= n && n < len(posof(s, u, d, len(s))) && once(s, u, d) && n < len(keysof(s, u, d, len(s))) && key == keysof(s, u, d, len(s))[n]
  ensures R(s, p ++ unit(key), d) == posof(s, u, d, len(s))[n] && R(s, p ++ unit(key), d) > u
  use child
  trigger {R(s, p ++ unit(key), d), keysof(s, u, d, len(s))[n]}
lemma childidx(s: seq, p: seqs, u: int, d: int, n: int)
  requires wf(s) && u == R(s, p, len(p)) && d == len(p)+1 && u >= 0 && s[u] == 91 && 0 <= n && n < len(posof(s, u, d, len(s)))
  ensures R(s, p ++ unit(itoa(n)), d) == posof(s, u, d, len(s))[n] && R(s, p ++ unit(itoa(n)), d) > u
  use child
  trigger {R(s, p ++ unit(itoa(n)), d), posof(s, u, d, len(s))}
