// ---- after Set the new value is what its path addresses; all other paths address what they did -------------------
lemma keqsame(s: seq, t: seq, p: int, q: int, n: int, a: int, b: int, x: int, y: int, key: seq)
  requires agree(s, t, p, q, n) && p <= a && a <= b && b <= p+n && x == a+(q-p) && y == b+(q-p)
  ensures keq(s, a, b, key) == keq(t, x, y, key)
  case keq(s, a, b, key) && !keq(t, x, y, key) ==> 0 <= kdiff(t, x, y, key) && kdiff(t, x, y, key) < len(key) && t[x+kdiff(t, x, y, key)] != key[kdiff(t, x, y, key)]
  case keq(s, a, b, key) && !keq(t, x, y, key) ==> s[a+kdiff(t, x, y, key)] == key[kdiff(t, x, y, key)]
  case !keq(s, a, b, key) && keq(t, x, y, key) ==> 0 <= kdiff(s, a, b, key) && kdiff(s, a, b, key) < len(key) && s[a+kdiff(s, a, b, key)] != key[kdiff(s, a, b, key)]
  case !keq(s, a, b, key) && keq(t, x, y, key) ==> t[x+kdiff(s, a, b, key)] == key[kdiff(s, a, b, key)]
  trigger {agree(s, t, p, q, n), keq(s, a, b, key), keq(t, x, y, key)}
lemma fstpre(s: seq, t: seq, n: int, u: int, d: int, key: seq, i: int)
  requires agree(s, t, 0, 0, n) && 0 <= u && u < n && 1 <= d && u < i && i <= n
  ensures fst(s, u, d, key, i) == fst(t, u, d, key, i)
  use pre prekey keqsame
  case i > u+1 ==> 0 <= s[i-1] && 0 <= t[i-1] && s[i-1] == t[i-1] && s[u] == t[u]
  case i > u+1 ==> st(s, i-1) == st(t, i-1) && dp(s, i-1) == dp(t, i-1) && (dp(s, i-1) == d ==> op(s, i-1, d) == op(t, i-1, d) && cx(s, i-1, d) == cx(t, i-1, d))
  case i > u+1 && st(s, i-1) == 4 ==> ks(s, i-1) == ks(t, i-1) && ke(s, i-1) == ke(t, i-1)
  case i > u+1 && st(s, i-1) == 4 ==> keq(s, ks(s, i-1), ke(s, i-1), key) == keq(t, ks(t, i-1), ke(t, i-1), key)
  case i > u+1 ==> hit(s, u, d, key, i-1) == hit(t, u, d, key, i-1)
  case i > u+1 ==> fst(s, u, d, key, i-1) == fst(t, u, d, key, i-1)
  induction i from u+1
  trigger {agree(s, t, 0, 0, n), fst(s, u, d, key, i), fst(t, u, d, key, i)}
lemma nxkeep(s: seq, t: seq, n: int, i: int)
  requires agree(s, t, 0, 0, n) && 0 <= i && nxs(s, i) <= n && i <= n && (nxs(s, i) == n ==> n < len(t) && !ws(t[n]))
  ensures nxs(t, i) == nxs(s, i)
  case nxs(t, i) < nxs(s, i) ==> 0 <= t[nxs(t, i)] && 0 <= s[nxs(t, i)] && s[nxs(t, i)] == t[nxs(t, i)]
  case nxs(s, i) < nxs(t, i) ==> 0 <= s[nxs(s, i)] && 0 <= t[nxs(s, i)]
  trigger {agree(s, t, 0, 0, n), nxs(s, i), nxs(t, i)}
lemma fstat(s: seq, u: int, d: int, key: seq, c: int, n: int)
  requires 0 <= u && c >= 0 && c == fst(s, u, d, key, n) && n <= len(s) && u+1 <= n
  ensures fst(s, u, d, key, c) < 0 && fst(s, u, d, key, c+1) == c && u < c && c < n
  use fststays fsthit
  case 0 <= s[c]
  case hit(s, u, d, key, c)
  trigger {fst(s, u, d, key, n), fst(s, u, d, key, c)}
lemma Rkeep(s: seq, t: seq, n: int, p: seqs, k: int)
  requires wf(s) && agree(s, t, 0, 0, n) && 0 <= k && k <= len(p) && 0 <= R(s, p, k) && R(s, p, k) <= n && n < len(t) && (R(s, p, k) == n ==> !ws(t[n]) && t[n] != 93)
  ensures R(t, p, k) == R(s, p, k)
  use Rpos fstpre nxkeep fstat fststays
  case k > 0 ==> len(p[k-1]) >= 0 && R(s, p, k-1) >= 0 && R(s, p, k-1) < R(s, p, k) && isopen(s[R(s, p, k-1)]) && R(s, p, k) < len(s)
  case k > 0 ==> R(t, p, k-1) == R(s, p, k-1) && t[R(s, p, k-1)] == s[R(s, p, k-1)]
  case k > 0 && zeroth(s, R(s, p, k-1), p[k-1]) ==> R(s, p, k) == nxs(s, R(s, p, k-1)+1)
  case k > 0 && zeroth(s, R(s, p, k-1), p[k-1]) ==> nxs(t, R(s, p, k-1)+1) == R(s, p, k) && t[R(s, p, k)] != 93
  case k > 0 && !zeroth(s, R(s, p, k-1), p[k-1]) ==> FR(s, p, k) >= 0 && R(s, p, k) == nxs(s, FR(s, p, k)+1) && FR(s, p, k) < R(s, p, k)
  case k > 0 && !zeroth(s, R(s, p, k-1), p[k-1]) ==> fst(s, R(s, p, k-1), k, p[k-1], FR(s, p, k)) < 0
  case k > 0 && !zeroth(s, R(s, p, k-1), p[k-1]) ==> fst(s, R(s, p, k-1), k, p[k-1], FR(s, p, k)+1) == FR(s, p, k)
  case k > 0 && !zeroth(s, R(s, p, k-1), p[k-1]) ==> fst(t, R(s, p, k-1), k, p[k-1], FR(s, p, k)+1) == FR(s, p, k)
  case k > 0 && !zeroth(s, R(s, p, k-1), p[k-1]) ==> fst(t, R(s, p, k-1), k, p[k-1], len(t)) == FR(s, p, k)
  case k > 0 && !zeroth(s, R(s, p, k-1), p[k-1]) ==> nxs(t, FR(s, p, k)+1) == R(s, p, k)
  case k == 0 ==> R(s, p, 0) == nxs(s, 0) && R(t, p, 0) == nxs(t, 0)
  induction k from 0
  trigger {agree(s, t, 0, 0, n), R(s, p, k)}
def FR(s, p, k) = fst(s, R(s, p, k-1), k, p[k-1], len(s))

// a value without white space around it: where it ends
def trimmed(v) = len(v) >= 1 && !ws(v[0]) && !ws(v[len(v)-1])
lemma vstring(v: seq, i: int)
  requires wf(v) && trimmed(v) && v[0] == 34 && 1 <= i && i <= len(v)
  ensures dp(v, i) == 0 && (i < len(v) ==> st(v, i) == 7 || st(v, i) == 8) && (i == len(v) ==> st(v, i) == 5 && st(v, i-1) == 7 && v[i-1] == 34)
  use stuck
  case 0 <= v[i-1] && 0 <= v[len(v)-1] && st(v, 0) == 0
  case i > 1 ==> (st(v, i-1) == 7 || st(v, i-1) == 8) && dp(v, i-1) == 0
  case st(v, i) == 5 && i < len(v) ==> (st(v, len(v)-1) == 5 || st(v, len(v)-1) == 12) && dp(v, len(v)-1) == 0
  case st(v, i) == 5 && i < len(v) ==> st(v, len(v)) == 12
  case i == 1 ==> st(v, i) == 7 && dp(v, i) == 0
  induction i from 1
  trigger {wf(v), st(v, i)}
lemma vtoken(v: seq, i: int)
  requires wf(v) && trimmed(v) && tok(v[0]) && 1 <= i && i <= len(v)
  ensures dp(v, i) == 0 && st(v, i) == 9 && tok(v[i-1])
  use stuck noerr
  case 0 <= v[i-1] && 0 <= v[len(v)-1] && st(v, 0) == 0
  case i > 1 ==> st(v, i-1) == 9 && dp(v, i-1) == 0
  case st(v, i) == 5 && i < len(v) ==> (st(v, len(v)-1) == 5 || st(v, len(v)-1) == 12) && dp(v, len(v)-1) == 0
  case st(v, i) == 5 && i < len(v) ==> st(v, len(v)) == 12
  case st(v, i) != 12
  case i == 1 ==> st(v, i) == 9 && dp(v, i) == 0
  induction i from 1
  trigger {wf(v), st(v, i)}
lemma vskeep(v: seq, t: seq, a: int, i: int, x: int)
  requires wf(v) && trimmed(v) && (v[0] == 34 || tok(v[0])) && agree(v, t, 0, a, len(v)) && vpos(st(t, a)) && 1 <= i && i <= len(v) && x == a+i
  ensures vs(t, x) == a
  use midst vstring vtoken
  case 0 <= v[i-1] && 0 <= t[x-1] && v[i-1] == t[x-1]
  case i > 1 && v[0] == 34 ==> (st(v, i-1) == 7 || st(v, i-1) == 8)
  case i > 1 && v[0] != 34 ==> st(v, i-1) == 9
  case i > 1 ==> st(t, x-1) == st(v, i-1) && vs(t, x-1) == a
  induction strong i from 1
  trigger {agree(v, t, 0, a, len(v)), st(v, i), vs(t, x)}
lemma vkind(v: seq)
  requires wf(v) && trimmed(v)
  ensures isopen(v[0]) || v[0] == 34 || tok(v[0])
  use noerr
  case 0 <= v[0] && st(v, 0) == 0 && st(v, 1) != 12
  trigger {wf(v), v[0]}
lemma setspan(t: seq, v: seq, r: int, f: int)
  requires wf(t) && wf(v) && trimmed(v) && agree(v, t, 0, r, len(v)) && f == r+len(v) && f < len(t) && vpos(st(t, r)) && !vtok(t[f])
  ensures span(t, r, f)
  use vkind vskeep vstring vtoken rootend midst mid
  case 0 <= v[0] && v[0] == t[r] && t[f-1] == v[len(v)-1] && st(v, 0) == 0
  case endv(st(v, len(v))) && dp(v, len(v)) == 0
  case dp(t, f) == dp(t, r) && st(t, f) == st(v, len(v))
  case v[0] == 34 ==> spanS(t, r, f)
  case tok(v[0]) ==> spanT(t, r, f)
  case isopen(v[0]) ==> nxs(v, 0) == 0 && pns(v, len(v)) == len(v)
  case isopen(v[0]) ==> spanR(v, 0, len(v))
  case isopen(v[0]) ==> dp(t, f-1) == dp(t, r)+1
  case isopen(v[0]) ==> op(t, f-1, dp(t, r)+1) == r+op(v, len(v)-1, 1)
  case isopen(v[0]) ==> spanC(t, r, f)
  trigger {wf(t), agree(v, t, 0, r, len(v)), st(t, f)}
lemma onespan(s: seq, u: int, r: int, e: int, f: int)
  requires wf(s) && 0 <= u && u < r && dp(s, r) >= 1 && op(s, r, dp(s, r)) == u && vpos(st(s, r)) && span(s, r, e) && span(s, r, f) && e < f
  ensures false
  use inC inS inT
  case 0 <= s[e] && r < e
  trigger {op(s, r, dp(s, r)), st(s, e), st(s, f)}
