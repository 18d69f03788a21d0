// ---- what surrounds an addressed value in a well-formed document --------------------------------------------

// two paths that agree on their first k elements address the same there
lemma Rpre(s: seq, p: seqs, q: seqs, k: int)
  requires 0 <= k && k <= len(p) && k <= len(q) && (forall j: int {p[j]} {q[j]} :: 0 <= j && j < k ==> p[j] == q[j])
  ensures R(s, p, k) == R(s, q, k)
  case k > 0 ==> R(s, p, k-1) == R(s, q, k-1) && len(p[k-1]) == len(q[k-1])
  induction k from 0
  trigger {R(s, p, k), R(s, q, k)}

lemma blankop(s: seq, i: int, j: int, d: int)
  requires 0 <= i && i <= j && j <= len(s) && j <= nxs(s, i) && 0 <= st(s, i) && st(s, i) <= 5
  ensures op(s, j, d) == op(s, i, d)
  use blank
  case j > i ==> 0 <= s[j-1] && ws(s[j-1]) && 0 <= st(s, j-1) && st(s, j-1) <= 5
  induction j from i
  trigger {op(s, i, d), op(s, j, d), nxs(s, i)}

lemma fsthit(s: seq, u: int, d: int, key: seq, i: int)
  requires 0 <= u && u < i && i <= len(s) && fst(s, u, d, key, i) >= 0
  ensures hit(s, u, d, key, fst(s, u, d, key, i))
  case i > u+1 ==> 0 <= s[i-1] && (fst(s, u, d, key, i-1) >= 0 ==> fst(s, u, d, key, i) == fst(s, u, d, key, i-1))
  case fst(s, u, d, key, u+1) < 0
  induction i from u+1
  trigger {fst(s, u, d, key, i)}

// an addressed value: a value position at the depth of the path, inside the container that the path without its last element addresses
lemma Rpos(s: seq, p: seqs, k: int)
  requires wf(s) && 0 <= k && k <= len(p) && R(s, p, k) >= 0
  ensures R(s, p, k) < len(s) && vpos(st(s, R(s, p, k))) && dp(s, R(s, p, k)) == k && !ws(s[R(s, p, k)]) && s[R(s, p, k)] != 93
  ensures k > 0 ==> R(s, p, k-1) >= 0 && isopen(s[R(s, p, k-1)]) && op(s, R(s, p, k), k) == R(s, p, k-1) && R(s, p, k-1) < R(s, p, k)
  use fsthit blankop
  case k > 0 ==> len(p[k-1]) >= 0 && R(s, p, k-1) >= 0 && isopen(s[R(s, p, k-1)])
  case k > 0 ==> st(s, R(s, p, k-1)+1) == 1 || st(s, R(s, p, k-1)+1) == 2
  case k > 0 && zeroth(s, R(s, p, k-1), p[k-1]) ==> R(s, p, k) == nxs(s, R(s, p, k-1)+1) && st(s, R(s, p, k)) == 1 && dp(s, R(s, p, k)) == k && s[R(s, p, k)] != 93
  case k > 0 && !zeroth(s, R(s, p, k-1), p[k-1]) ==> fst(s, R(s, p, k-1), k, p[k-1], len(s)) >= 0 && R(s, p, k) == nxs(s, fst(s, R(s, p, k-1), k, p[k-1], len(s))+1)
  case k > 0 && !zeroth(s, R(s, p, k-1), p[k-1]) ==> st(s, fst(s, R(s, p, k-1), k, p[k-1], len(s))+1) == 0 && dp(s, fst(s, R(s, p, k-1), k, p[k-1], len(s))+1) == k
  case k > 0 && !zeroth(s, R(s, p, k-1), p[k-1]) ==> st(s, R(s, p, k)) == 0 && dp(s, R(s, p, k)) == k
  case R(s, p, k) < len(s) && vpos(st(s, R(s, p, k))) && dp(s, R(s, p, k)) == k && !ws(s[R(s, p, k)])
  induction k from 0
  trigger {wf(s), R(s, p, k)}

// before a value or key: its separator or opening bracket (p is one past it); no quote stands right before it
lemma noquote(s: seq, i: int)
  requires wf(s) && 1 <= i && i <= len(s) && 0 <= st(s, i) && st(s, i) <= 3
  ensures s[i-1] != 34
  case 0 <= s[i-1] && st(s, i-1) != 12
  trigger {wf(s), st(s, i), s[i-1]}

lemma backblank(s: seq, i: int, j: int)
  requires wf(s) && 0 <= i && i <= len(s) && pns(s, i) <= j && j <= i && 0 <= st(s, i) && st(s, i) <= 3
  ensures st(s, j) == st(s, i) && dp(s, j) == dp(s, i) && op(s, j, dp(s, i)) == op(s, i, dp(s, i))
  case j < i ==> 0 <= s[j] && ws(s[j]) && st(s, j+1) == st(s, i) && st(s, j) != 12
  induction down j from i
  trigger {wf(s), st(s, j), pns(s, i)}

lemma before(s: seq, i: int)
  requires wf(s) && 0 <= i && i <= len(s) && dp(s, i) >= 1 && 0 <= st(s, i) && st(s, i) <= 3
  ensures 1 <= pns(s, i) && pns(s, i) <= i && dp(s, pns(s, i)) == dp(s, i) && st(s, pns(s, i)) == st(s, i)
  ensures st(s, i) == 1 ==> s[pns(s, i)-1] == 91
  ensures st(s, i) == 2 ==> s[pns(s, i)-1] == 123
  ensures st(s, i) == 3 || st(s, i) == 0 && top(s, i) == 91 ==> s[pns(s, i)-1] == 44
  use backblank
  case st(s, pns(s, i)) == st(s, i) && dp(s, pns(s, i)) == dp(s, i) && top(s, pns(s, i)) == top(s, i)
  case pns(s, i) > 0 ==> 0 <= s[pns(s, i)-1] && st(s, pns(s, i)-1) != 12
  trigger {wf(s), st(s, i), pns(s, i)}

// after a value: the next comma or the bracket that closes its container
lemma endblank(s: seq, i: int, j: int)
  requires 0 <= i && i <= j && j <= len(s) && j <= nxs(s, i) && endv(st(s, i))
  ensures endv(st(s, j)) && dp(s, j) == dp(s, i) && op(s, j, dp(s, i)) == op(s, i, dp(s, i)) && (j > i ==> st(s, j) == 5)
  case j > i ==> 0 <= s[j-1] && ws(s[j-1]) && endv(st(s, j-1))
  induction j from i
  trigger {st(s, i), st(s, j), nxs(s, i)}

lemma after(s: seq, e: int)
  requires wf(s) && 0 <= e && e <= len(s) && dp(s, e) >= 1 && endv(st(s, e)) && (st(s, e) == 9 ==> e < len(s) && !vtok(s[e]))
  ensures e <= nxs(s, e) && nxs(s, e) < len(s) && (s[nxs(s, e)] == 44 || s[nxs(s, e)] == top(s, e) + 2) && endv(st(s, nxs(s, e))) && dp(s, nxs(s, e)) == dp(s, e) && isopen(top(s, e))
  use endblank
  case endv(st(s, nxs(s, e))) && dp(s, nxs(s, e)) == dp(s, e) && top(s, nxs(s, e)) == top(s, e)
  case nxs(s, e) < len(s)
  case 0 <= s[nxs(s, e)] && st(s, nxs(s, e)+1) != 12
  trigger {wf(s), st(s, e), nxs(s, e)}

// the key seen last: its opening quote, its end
lemma key(s: seq, i: int)
  requires 0 <= i && i <= len(s) && (inkey(st(s, i)) || st(s, i) == 4)
  ensures 1 <= ks(s, i) && ks(s, i) <= i && s[ks(s, i)-1] == 34 && (st(s, ks(s, i)-1) == 2 || st(s, ks(s, i)-1) == 3) && dp(s, ks(s, i)-1) == dp(s, i) && op(s, ks(s, i)-1, dp(s, i)) == op(s, i, dp(s, i))
  case i > 0 ==> 0 <= s[i-1]
  induction i from 0
  trigger {st(s, i), ks(s, i)}
  auto

lemma keyend(s: seq, i: int)
  requires 0 <= i && i <= len(s)
  ensures st(s, i) == 10 ==> qend(s, ks(s, i)) == qend(s, i)
  ensures st(s, i) == 11 ==> qend(s, ks(s, i)) == qend(s, i+1)
  ensures st(s, i) == 4 ==> qend(s, ks(s, i)) == ke(s, i) && ks(s, i) <= ke(s, i) && ke(s, i) < i
  case i > 0 ==> 0 <= s[i-1]
  case i > 0 && st(s, i) == 10 && st(s, i-1) != 11 ==> qend(s, i-1) >= i-1
  induction i from 0
  trigger {st(s, i), qend(s, ks(s, i))}

lemma keylen(s: seq, i: int)
  requires 0 <= i && i <= len(s) && st(s, i) == 4
  ensures ks(s, i) <= ke(s, i) && ke(s, i) < i
  use keyend
  case qend(s, ks(s, i)) >= ks(s, i)
  trigger {st(s, i), ke(s, i)}

// the whole document, when it is an array or object
lemma root(s: seq, i: int)
  requires wf(s) && nxs(s, 0) < i && i <= len(s) && isopen(s[nxs(s, 0)])
  ensures dp(s, i) >= 1 && op(s, i, 1) == nxs(s, 0) || dp(s, i) == 0 && st(s, i) == 5
  case st(s, 0) == 0 && dp(s, 0) == 0 && st(s, nxs(s, 0)) == 0 && dp(s, nxs(s, 0)) == 0
  case i > nxs(s, 0)+1 ==> 0 <= s[i-1] && st(s, i-1) != 12
  induction i from nxs(s, 0)+1
  trigger {wf(s), st(s, i)}

lemma tail(s: seq, j: int)
  requires wf(s) && pns(s, len(s)) <= j && j <= len(s)
  ensures endv(st(s, j)) && dp(s, j) == 0
  case j < len(s) ==> 0 <= s[j] && ws(s[j]) && endv(st(s, j+1)) && st(s, j) != 12
  induction down j from len(s)
  trigger {wf(s), st(s, j), pns(s, len(s))}

lemma rootend(s: seq)
  requires wf(s) && isopen(s[nxs(s, 0)])
  ensures len(s) >= 2 && nxs(s, 0) < len(s) && spanR(s, nxs(s, 0), pns(s, len(s)))
  use root tail
  case st(s, 0) == 0
  case nxs(s, 0) < len(s)
  case st(s, 0) == 0 && dp(s, 0) == 0 && st(s, nxs(s, 0)) == 0 && dp(s, nxs(s, 0)) == 0
  case pns(s, len(s)) > 0
  case 0 <= s[pns(s, len(s))-1] && !ws(s[pns(s, len(s))-1]) && endv(st(s, pns(s, len(s)))) && dp(s, pns(s, len(s))) == 0
  case nxs(s, 0) < pns(s, len(s))
  case st(s, nxs(s, 0)+1) == 1 || st(s, nxs(s, 0)+1) == 2
  case nxs(s, 0)+1 < pns(s, len(s))
  case st(s, pns(s, len(s))-1) != 12 && st(s, pns(s, len(s))) == 5
  trigger {wf(s), pns(s, len(s))}
