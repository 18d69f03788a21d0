// ---- a container's text is a document of its own: the automaton runs on it as inside the document ----------
def inner(s, r, e, i) = 0 <= r && r < i && i <= e && e <= len(s) && vpos(st(s, r)) && isopen(s[r]) && (forall j: int {dp(s, j)} :: r < j && j < i ==> dp(s, j) > dp(s, r))
lemma sub(s: seq, r: int, e: int, i: int, k: int)
  requires inner(s, r, e, i)
  ensures st(s[r:e], i-r) == st(s, i) && dp(s[r:e], i-r) == dp(s, i) - dp(s, r)
  ensures dp(s, r) < k && k <= dp(s, i) ==> op(s[r:e], i-r, k-dp(s, r)) == op(s, i, k) - r
  use tops ops
  case len(s[r:e]) == e-r && s[r:e][i-1-r] == s[i-1]
  case i == r+1 ==> st(s[r:e], 0) == 0 && dp(s[r:e], 0) == 0
  case i > r+1 ==> st(s[r:e], i-1-r) == st(s, i-1) && dp(s[r:e], i-1-r) == dp(s, i-1) - dp(s, r) && top(s[r:e], i-1-r) == top(s, i-1)
  case st(s[r:e], i-r) == st(s, i)
  case dp(s[r:e], i-r) == dp(s, i) - dp(s, r)
  case i > r+1 && dp(s, r) < k && k <= dp(s, i-1) ==> op(s[r:e], i-1-r, k-dp(s, r)) == op(s, i-1, k) - r
  induction strong i from r+1
  trigger {st(s, i), op(s, i, k), s[r:e]}
lemma innerC(s: seq, r: int, e: int)
  requires 0 <= r && vpos(st(s, r)) && isopen(s[r]) && (spanC(s, r, e) || spanR(s, r, e))
  ensures inner(s, r, e, e) && wf(s[r:e]) && s[r:e][0] == s[r] && s[r:e][e-r-1] == s[e-1] && len(s[r:e]) == e-r
  use sub closed
  case dp(s, e-1) == dp(s, r)+1 && op(s, e-1, dp(s, r)+1) == r && dp(s, e) == dp(s, r)
  case st(s[r:e], e-r) == 5 && dp(s[r:e], e-r) == 0
  trigger {s[r:e], st(s, r), dp(s, e)}
lemma subvals(s: seq, r: int, e: int, d: int, i: int)
  requires inner(s, r, e, i) && d == dp(s, r)+1
  ensures vb(s[r:e], 0, 1, i-r) == vb(s, r, d, i)-r && valsof(s[r:e], 0, 1, i-r) == valsof(s, r, d, i)
  use sub vbs
  case len(s[r:e]) == e-r && s[r:e][i-1-r] == s[i-1]
  case i > r+1 ==> st(s[r:e], i-1-r) == st(s, i-1) && dp(s[r:e], i-1-r) == dp(s, i-1) - dp(s, r)
  case i > r+1 ==> op(s[r:e], i-1-r, 1) == op(s, i-1, d) - r && top(s[r:e], i-1-r) == top(s, i-1)
  case i > r+1 ==> valsof(s[r:e], 0, 1, i-1-r) == valsof(s, r, d, i-1) && vb(s[r:e], 0, 1, i-1-r) == vb(s, r, d, i-1)-r
  case vb(s[r:e], 0, 1, i-r) == vb(s, r, d, i)-r
  case i > r+1 ==> s[r:e][vb(s[r:e], 0, 1, i-1-r):i-1-r] == s[vb(s, r, d, i-1):i-1]
  case i > r+1 ==> trim(s[r:e][vb(s[r:e], 0, 1, i-1-r):i-1-r]) == trim(s[vb(s, r, d, i-1):i-1])
  induction i from r+1
  trigger {valsof(s, r, d, i), s[r:e]}
