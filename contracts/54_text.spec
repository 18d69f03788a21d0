// ---- the text listed for a value is the text that looking it up gives ------------------------------------------
// inside a value (after its first byte, before its end) its container has no comma, colon or closing bracket
def sepat(s, u, d, i) = colon(s, u, d, i) || comma(s, u, d, i) || close(s, u, d, i)
lemma vsfresh(s: seq, j: int, i: int)
  requires 0 <= j && j <= i && i <= len(s)
  ensures !(st(s, j) == 7 || st(s, j) == 8) && (st(s, i) == 7 || st(s, i) == 8) ==> vs(s, i) >= j
  ensures st(s, j) != 9 && st(s, i) == 9 ==> vs(s, i) >= j
  case i > j ==> 0 <= s[i-1]
  induction i from j
  trigger {st(s, j), vs(s, i)}
lemma inC(s: seq, u: int, d: int, r: int, e: int, j: int)
  requires wf(s) && 0 <= u && u < r && 1 <= d && dp(s, r) == d && op(s, r, d) == u && vpos(st(s, r)) && spanC(s, r, e) && r < j && j < e
  ensures dp(s, j) > d && !sepat(s, u, d, j)
  use closed
  case dp(s, j) < d+1 ==> op(s, e-1, d+1) >= j
  trigger {st(s, r), st(s, e), s[j]}
lemma inS(s: seq, u: int, d: int, r: int, e: int, j: int)
  requires wf(s) && 0 <= u && u < r && 1 <= d && dp(s, r) == d && op(s, r, d) == u && vpos(st(s, r)) && spanS(s, r, e) && r < j && j < e
  ensures (st(s, j) == 7 || st(s, j) == 8) && !sepat(s, u, d, j)
  use vsfresh
  case 0 <= s[e-1] && vs(s, e-1) == r
  trigger {st(s, r), st(s, e), s[j]}
lemma inT(s: seq, u: int, d: int, r: int, e: int, j: int)
  requires wf(s) && 0 <= u && u < r && 1 <= d && dp(s, r) == d && op(s, r, d) == u && vpos(st(s, r)) && spanT(s, r, e) && r < j && j < e
  ensures st(s, j) == 9 && !sepat(s, u, d, j) && !ws(s[j])
  use vsfresh
  case st(s, j) == 9 && st(s, j+1) == 9
  trigger {st(s, r), st(s, e), s[j]}
lemma inV(s: seq, u: int, d: int, r: int, e: int, j: int)
  requires wf(s) && 0 <= u && u < r && 1 <= d && dp(s, r) == d && op(s, r, d) == u && vpos(st(s, r)) && span(s, r, e) && !ws(s[r]) && s[r] != 93 && r <= j && j < e
  ensures !sepat(s, u, d, j)
  use inC inS inT
  case j == r ==> !sepat(s, u, d, j)
  case r < j && isopen(s[r]) ==> !sepat(s, u, d, j)
  case r < j && s[r] == 34 ==> !sepat(s, u, d, j)
  case r < j && !isopen(s[r]) && s[r] != 34 ==> !sepat(s, u, d, j)
  trigger {st(s, r), st(s, e), s[j]}
lemma vbsame(s: seq, u: int, d: int, r: int, e: int, j: int)
  requires wf(s) && 0 <= u && u < r && 1 <= d && dp(s, r) == d && op(s, r, d) == u && vpos(st(s, r)) && span(s, r, e) && !ws(s[r]) && s[r] != 93 && r <= j && j <= e
  ensures vb(s, u, d, j) == vb(s, u, d, r) && posof(s, u, d, j) == posof(s, u, d, r)
  use inV
  case j > r ==> 0 <= s[j-1] && !sepat(s, u, d, j-1)
  induction j from r
  trigger {posof(s, u, d, r), st(s, e), vb(s, u, d, j)}
lemma vbstart(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && incont(s, u, d) && here(s, u, d, i) && vpos(st(s, i))
  ensures nxs(s, vb(s, u, d, i)) == nxs(s, i)
  use ops tops
  case i > u+1 ==> 0 <= s[i-1]
  case i > u+1 && ws(s[i-1]) ==> st(s, i-1) == st(s, i) && here(s, u, d, i-1) && nxs(s, i-1) == nxs(s, i)
  case i > u+1 && !ws(s[i-1]) ==> colon(s, u, d, i-1) || comma(s, u, d, i-1)
  induction i from u+1
  trigger {vb(s, u, d, i), st(s, i)}
lemma gapsame(s: seq, u: int, d: int, e: int, j: int)
  requires 0 <= u && u < e && e <= j && j <= nxs(s, e) && j <= len(s)
  ensures vb(s, u, d, j) == vb(s, u, d, e) && posof(s, u, d, j) == posof(s, u, d, e) && (j > e ==> ws(s[j-1]))
  case j > e ==> 0 <= s[j-1] && ws(s[j-1]) && !sepat(s, u, d, j-1)
  induction j from e
  trigger {nxs(s, e), vb(s, u, d, j)}
lemma valsatpos(s: seq, u: int, d: int, i: int)
  requires 0 <= u && u < i && i < len(s) && (comma(s, u, d, i) || close(s, u, d, i))
  ensures len(posof(s, u, d, i)) < len(posof(s, u, d, len(s))) && posof(s, u, d, len(s))[len(posof(s, u, d, i))] == nxs(s, vb(s, u, d, i))
  use posmono
  case len(posof(s, u, d, i+1)) == len(posof(s, u, d, i))+1 && posof(s, u, d, i+1)[len(posof(s, u, d, i))] == nxs(s, vb(s, u, d, i))
  trigger {posof(s, u, d, i), s[i]}
lemma opIn(s: seq, u: int, d: int, r: int, e: int, j: int)
  requires wf(s) && 0 <= u && u < r && 1 <= d && dp(s, r) == d && op(s, r, d) == u && vpos(st(s, r)) && span(s, r, e) && !ws(s[r]) && s[r] != 93 && r <= j && j < e
  ensures dp(s, j) >= d && op(s, j, d) == u && (j > r && !isopen(s[r]) ==> dp(s, j) == d)
  use inC inS inT
  case j > r ==> 0 <= s[j-1]
  case j > r && isopen(s[r]) ==> dp(s, j) > d
  case j > r && s[r] == 34 ==> (st(s, j) == 7 || st(s, j) == 8)
  case j > r && !isopen(s[r]) && s[r] != 34 ==> st(s, j) == 9
  induction j from r
  trigger {st(s, r), st(s, e), op(s, j, d)}
lemma endV(s: seq, u: int, d: int, r: int, e: int)
  requires wf(s) && 0 <= u && u < r && incont(s, u, d) && dp(s, r) == d && op(s, r, d) == u && vpos(st(s, r)) && span(s, r, e) && !ws(s[r]) && s[r] != 93
  ensures e <= len(s) && r < e && here(s, u, d, e) && endv(st(s, e)) && (st(s, e) == 9 ==> e < len(s) && !vtok(s[e])) && !ws(s[e-1]) && (s[r] == 34 ==> s[e-1] == 34)
  use inT inS opIn
  case 0 <= s[e-1] && r < e && dp(s, e) == d
  case op(s, e-1, d) == u && dp(s, e-1) >= d
  case tok(s[r]) ==> !ws(s[e-1])
  case op(s, e, d) == u
  trigger {posof(s, u, d, r), st(s, e)}
lemma pnsgap(s: seq, e: int, j: int)
  requires 0 < e && e <= j && j <= nxs(s, e) && j <= len(s) && !ws(s[e-1])
  ensures pns(s, j) == e
  case j > e ==> 0 <= s[j-1] && ws(s[j-1])
  case 0 <= s[e-1]
  induction j from e
  trigger {nxs(s, e), pns(s, j)}
lemma textat(s: seq, u: int, d: int, r: int, e: int)
  requires wf(s) && 0 <= u && u < r && incont(s, u, d) && dp(s, r) == d && op(s, r, d) == u && vpos(st(s, r)) && span(s, r, e) && !ws(s[r]) && s[r] != 93
  ensures len(posof(s, u, d, r)) < len(posof(s, u, d, len(s))) && posof(s, u, d, len(s))[len(posof(s, u, d, r))] == r
  ensures len(valsof(s, u, d, len(s))) == len(posof(s, u, d, len(s))) && valsof(s, u, d, len(s))[len(posof(s, u, d, r))] == s[r+quoted(s, r):e-quoted(s, r)]
  use endV after endblank vbsame gapsame vbstart pnsgap vtrim valsat valsatpos poslen
  case len(posof(s, u, d, r)) >= 0 && r < e && e <= len(s) && here(s, u, d, e) && endv(st(s, e)) && !ws(s[e-1])
  case e <= nxs(s, e) && nxs(s, e) < len(s) && endv(st(s, nxs(s, e))) && here(s, u, d, nxs(s, e))
  case s[nxs(s, e)] == 44 || s[nxs(s, e)] == s[u]+2
  case comma(s, u, d, nxs(s, e)) || close(s, u, d, nxs(s, e))
  case vb(s, u, d, e) == vb(s, u, d, r) && posof(s, u, d, e) == posof(s, u, d, r)
  case vb(s, u, d, nxs(s, e)) == vb(s, u, d, r) && posof(s, u, d, nxs(s, e)) == posof(s, u, d, r) && nxs(s, r) == r
  case nxs(s, vb(s, u, d, nxs(s, e))) == r
  case pns(s, nxs(s, e)) == e
  case s[r] == 34 ==> trim(s[vb(s, u, d, nxs(s, e)):nxs(s, e)]) == s[r+1:e-1]
  case s[r] != 34 ==> trim(s[vb(s, u, d, nxs(s, e)):nxs(s, e)]) == s[r:e]
  case len(valsof(s, u, d, nxs(s, e))) == len(posof(s, u, d, r))
  trigger {posof(s, u, d, r), st(s, e)}
lemma posord(s: seq, u: int, d: int, i: int, a: int, b: int)
  requires 0 <= u && u < i && i <= len(s) && incont(s, u, d) && 0 <= a && a < b && b < len(posof(s, u, d, i))
  ensures posof(s, u, d, i)[a] < posof(s, u, d, i)[b]
  use posin posmono memberat elemat vbs
  case i > u+1 ==> 0 <= s[i-1]
  case i > u+1 && b >= len(posof(s, u, d, i-1)) ==> b == len(posof(s, u, d, i-1)) && posof(s, u, d, i)[b] == nxs(s, vb(s, u, d, i-1)) && here(s, u, d, i-1) && endv(st(s, i-1)) && posof(s, u, d, i)[a] == posof(s, u, d, i-1)[a]
  case i > u+1 && b >= len(posof(s, u, d, i-1)) && s[u] == 91 ==> len(posof(s, u, d, vb(s, u, d, i-1))) == b && vb(s, u, d, i-1) <= i-1
  case i > u+1 && b >= len(posof(s, u, d, i-1)) && s[u] == 123 ==> len(keysof(s, u, d, i-1)) == b+1 && colon(s, u, d, vb(s, u, d, i-1)-1) && len(keysof(s, u, d, vb(s, u, d, i-1)-1)) == b
  case i > u+1 && b >= len(posof(s, u, d, i-1)) && s[u] == 123 ==> len(posof(s, u, d, vb(s, u, d, i-1)-1)) == b && vb(s, u, d, i-1) <= i-1
  case i > u+1 && b >= len(posof(s, u, d, i-1)) ==> posof(s, u, d, i-1)[a] < vb(s, u, d, i-1) && vb(s, u, d, i-1) <= nxs(s, vb(s, u, d, i-1))
  induction i from u+1
  trigger {posof(s, u, d, i)[a], posof(s, u, d, i)[b]}
// the n-th listed text of an object (array) is the text of the value that a path ending with its key (its index) addresses
lemma listedKey(s: seq, p: seqs, u: int, d: int, n: int, e: int)
  requires wf(s) && d == len(p) && d >= 1 && u == R(s, p, d-1) && u >= 0 && s[u] == 123 && once(s, u, d) && 0 <= n && n < len(valsof(s, u, d, len(s))) && n < len(keysof(s, u, d, len(s))) && p[d-1] == keysof(s, u, d, len(s))[n]
  requires R(s, p, d) >= 0 && span(s, R(s, p, d), e)
  ensures valsof(s, u, d, len(s))[n] == s[R(s, p, d)+quoted(s, R(s, p, d)):e-quoted(s, R(s, p, d))]
  use Rpos member textat posord poslen posin
  case u < len(s) && incont(s, u, d) && len(posof(s, u, d, len(s))) == len(valsof(s, u, d, len(s)))
  case R(s, p, d-1+1) == posof(s, u, d, len(s))[n] && R(s, p, d) > u
  case vpos(st(s, R(s, p, d))) && dp(s, R(s, p, d)) == d && !ws(s[R(s, p, d)]) && s[R(s, p, d)] != 93 && op(s, R(s, p, d), d) == u
  case posof(s, u, d, len(s))[len(posof(s, u, d, R(s, p, d)))] == R(s, p, d) && len(posof(s, u, d, R(s, p, d))) < len(posof(s, u, d, len(s)))
  case n == len(posof(s, u, d, R(s, p, d)))
  trigger {R(s, p, d), keysof(s, u, d, len(s))[n], s[e]}
lemma listedIdx(s: seq, p: seqs, u: int, d: int, n: int, e: int)
  requires wf(s) && d == len(p) && d >= 1 && u == R(s, p, d-1) && u >= 0 && s[u] == 91 && 0 <= n && n < len(valsof(s, u, d, len(s))) && p[d-1] == itoa(n)
  requires R(s, p, d) >= 0 && span(s, R(s, p, d), e)
  ensures valsof(s, u, d, len(s))[n] == s[R(s, p, d)+quoted(s, R(s, p, d)):e-quoted(s, R(s, p, d))]
  use Rpos element textat posord poslen posin
  case u < len(s) && incont(s, u, d) && len(posof(s, u, d, len(s))) == len(valsof(s, u, d, len(s)))
  case R(s, p, d-1+1) == posof(s, u, d, len(s))[n] && R(s, p, d) > u
  case vpos(st(s, R(s, p, d))) && dp(s, R(s, p, d)) == d && !ws(s[R(s, p, d)]) && s[R(s, p, d)] != 93 && op(s, R(s, p, d), d) == u
  case posof(s, u, d, len(s))[len(posof(s, u, d, R(s, p, d)))] == R(s, p, d) && len(posof(s, u, d, R(s, p, d))) < len(posof(s, u, d, len(s)))
  case n == len(posof(s, u, d, R(s, p, d)))
  trigger {R(s, p, d), valsof(s, u, d, len(s))[n], itoa(n), s[e]}
