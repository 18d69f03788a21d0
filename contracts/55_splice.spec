// ---- an edit leaves a well-formed document: what the automaton does on a text that was spliced -------------------
// agree(s, t, a, b, n): s[a:a+n] and t[b:b+n] are the same bytes
logic agree(s: seq, t: seq, a: int, b: int, n: int): bool
logic adiff(s: seq, t: seq, a: int, b: int, n: int): int
axiom agree1: forall s: seq, t: seq, a: int, b: int, n: int, j: int {agree(s, t, a, b, n), s[j]} :: agree(s, t, a, b, n) && a <= j && j < a+n ==> s[j] == t[j+(b-a)]
axiom agree2: forall s: seq, t: seq, a: int, b: int, n: int, j: int {agree(s, t, a, b, n), t[j]} :: agree(s, t, a, b, n) && b <= j && j < b+n ==> s[j+(a-b)] == t[j]
axiom agree3: forall s: seq, t: seq, a: int, b: int, n: int {agree(s, t, a, b, n)} :: agree(s, t, a, b, n) ==> 0 <= a && 0 <= b && a+n <= len(s) && b+n <= len(t)
axiom agree4: forall s: seq, t: seq, a: int, b: int, n: int {agree(s, t, a, b, n)} :: !agree(s, t, a, b, n) && 0 <= a && 0 <= b && a+n <= len(s) && b+n <= len(t) ==>
   0 <= adiff(s, t, a, b, n) && adiff(s, t, a, b, n) < n && s[a+adiff(s, t, a, b, n)] != t[b+adiff(s, t, a, b, n)]

// the same bytes so far: the same state
lemma pre(s: seq, t: seq, n: int, i: int, d: int)
  requires agree(s, t, 0, 0, n) && 0 <= i && i <= n
  ensures st(s, i) == st(t, i) && dp(s, i) == dp(t, i)
  ensures 1 <= d && d <= dp(s, i) ==> op(s, i, d) == op(t, i, d) && cx(s, i, d) == cx(t, i, d)
  use ops tops
  case i > 0 ==> 0 <= s[i-1] && 0 <= t[i-1] && s[i-1] == t[i-1]
  case i > 0 ==> st(s, i-1) == st(t, i-1) && dp(s, i-1) == dp(t, i-1) && (dp(s, i-1) >= 1 ==> top(s, i-1) == top(t, i-1))
  case st(s, i) == st(t, i)
  case dp(s, i) == dp(t, i)
  case i > 0 && 1 <= d && d <= dp(s, i-1) ==> op(s, i-1, d) == op(t, i-1, d) && cx(s, i-1, d) == cx(t, i-1, d)
  induction strong i from 0
  trigger {agree(s, t, 0, 0, n), st(s, i), op(s, i, d)} {agree(s, t, 0, 0, n), st(t, i), op(t, i, d)}

lemma prekey(s: seq, t: seq, n: int, i: int)
  requires agree(s, t, 0, 0, n) && 0 < i && i <= n
  ensures st(s, i) == 4 ==> ks(s, i) == ks(t, i) && ke(s, i) == ke(t, i) && 0 <= ks(s, i) && ke(s, i) < i
  ensures inkey(st(s, i)) ==> ks(s, i) == ks(t, i) && 0 <= ks(s, i) && ks(s, i) <= i
  use pre key keylen
  case 0 <= s[i-1] && 0 <= t[i-1] && s[i-1] == t[i-1] && st(s, i-1) == st(t, i-1) && st(s, i) == st(t, i)
  case i > 1 && st(s, i-1) == 4 ==> ks(s, i-1) == ks(t, i-1) && ke(s, i-1) == ke(t, i-1)
  case i > 1 && inkey(st(s, i-1)) ==> ks(s, i-1) == ks(t, i-1)
  case st(s, i) == 4 ==> ks(s, i) == ks(t, i)
  case st(s, i) == 4 ==> ke(s, i) == ke(t, i)
  case inkey(st(s, i)) ==> ks(s, i) == ks(t, i)
  induction i from 1
  trigger {agree(s, t, 0, 0, n), ks(s, i)} {agree(s, t, 0, 0, n), ks(t, i)}

// a well-formed text at a value position: the automaton runs on it as on its own
lemma mid(v: seq, t: seq, a: int, i: int, x: int, d: int)
  requires wf(v) && agree(v, t, 0, a, len(v)) && vpos(st(t, a)) && 0 <= i && i <= len(v) && x == a+i
  ensures dp(t, x) == dp(t, a)+dp(v, i) && (st(v, i) == 0 ==> vpos(st(t, x)) || dp(v, i) > 0) && (st(v, i) == 0 && dp(v, i) == 0 ==> st(t, x) == st(t, a))
  ensures st(v, i) != 0 || dp(v, i) > 0 ==> st(t, x) == st(v, i)
  ensures 1 <= d && d <= dp(v, i) ==> op(t, x, dp(t, a)+d) == a+op(v, i, d)
  ensures d <= 0 ==> op(t, x, dp(t, a)+d) == op(t, a, dp(t, a)+d)
  use ops tops noerr
  case st(v, i) != 12 && (i > 0 ==> 0 <= v[i-1] && 0 <= t[x-1] && v[i-1] == t[x-1] && st(v, i-1) != 12)
  case i > 0 ==> dp(t, x-1) == dp(t, a)+dp(v, i-1) && (dp(v, i-1) >= 1 ==> top(t, x-1) == top(v, i-1))
  case i > 0 ==> (st(v, i-1) == 0 && dp(v, i-1) == 0 ==> st(t, x-1) == st(t, a)) && (st(v, i-1) != 0 || dp(v, i-1) > 0 ==> st(t, x-1) == st(v, i-1))
  case dp(t, x) == dp(t, a)+dp(v, i)
  case st(v, i) != 0 || dp(v, i) > 0 ==> st(t, x) == st(v, i)
  case st(v, i) == 0 && dp(v, i) == 0 ==> st(t, x) == st(t, a)
  case i > 0 && 1 <= d && d <= dp(v, i-1) ==> op(t, x-1, dp(t, a)+d) == a+op(v, i-1, d)
  case i > 0 && d <= 0 ==> op(t, x-1, dp(t, a)+d) == op(t, a, dp(t, a)+d)
  induction strong i from 0
  trigger {agree(v, t, 0, a, len(v)), st(v, i), st(t, x), op(v, i, d)}
lemma midst(v: seq, t: seq, a: int, i: int, x: int)
  requires wf(v) && agree(v, t, 0, a, len(v)) && vpos(st(t, a)) && 0 <= i && i <= len(v) && x == a+i
  ensures dp(t, x) == dp(t, a)+dp(v, i) && (st(v, i) == 0 && dp(v, i) == 0 ==> st(t, x) == st(t, a)) && (st(v, i) != 0 || dp(v, i) > 0 ==> st(t, x) == st(v, i)) && dp(v, i) >= 0
  use mid ops tops
  case op(v, i, 0-1) == 0-1 || op(v, i, 0-1) != 0-1
  case dp(v, i) >= 1 ==> op(v, i, 1) < i
  trigger {agree(v, t, 0, a, len(v)), st(v, i), st(t, x)}
lemma midop(v: seq, t: seq, a: int, i: int, x: int, d: int)
  requires wf(v) && agree(v, t, 0, a, len(v)) && vpos(st(t, a)) && 0 <= i && i <= len(v) && x == a+i && d <= dp(t, a)
  ensures op(t, x, d) == op(t, a, d)
  use midst noerr
  case st(v, i) == 0 && dp(v, i) == 0 ==> st(t, x) == st(t, a)
  case dp(t, x) >= dp(t, a)
  case i > 0 ==> (st(v, i-1) == 0 && dp(v, i-1) == 0 ==> st(t, x-1) == st(t, a))
  case i > 0 ==> 0 <= t[x-1] && 0 <= v[i-1]
  case i > 0 ==> dp(t, x-1) >= dp(t, a)
  case i > 0 ==> op(t, x-1, d) == op(t, a, d)
  induction strong i from 0
  trigger {agree(v, t, 0, a, len(v)), st(v, i), op(t, x, d)}

// the same state and the same bytes behind: the same end
def shift(o, e, f) = ite(o < e, o, o+(f-e))
lemma post(s: seq, t: seq, e: int, f: int, n: int, x: int, y: int, d: int)
  requires agree(s, t, e, f, n) && n == len(s)-e && len(t)-f == n && e <= x && x <= len(s) && y == x+(f-e) && st(s, e) == st(t, f) && dp(s, e) == dp(t, f)
  requires forall j: int {op(s, e, j)} {op(t, f, j)} :: 1 <= j && j <= dp(s, e) ==> op(t, f, j) == op(s, e, j) && op(s, e, j) < e && s[op(s, e, j)] == t[op(t, f, j)]
  requires 0 <= f
  ensures st(s, x) == st(t, y) && dp(s, x) == dp(t, y)
  ensures 1 <= d && d <= dp(s, x) ==> op(t, y, d) == shift(op(s, x, d), e, f) && s[op(s, x, d)] == t[op(t, y, d)]
  use ops tops
  case x == e ==> y == f
  case x > e ==> 0 <= s[x-1] && 0 <= t[y-1] && s[x-1] == t[y-1]
  case x > e ==> st(s, x-1) == st(t, y-1) && dp(s, x-1) == dp(t, y-1) && (dp(s, x-1) >= 1 ==> top(s, x-1) == top(t, y-1))
  case st(s, x) == st(t, y)
  case dp(s, x) == dp(t, y)
  case x > e && 1 <= d && d <= dp(s, x-1) ==> op(t, y-1, d) == shift(op(s, x-1, d), e, f) && s[op(s, x-1, d)] == t[op(t, y-1, d)]
  induction strong x from e
  trigger {agree(s, t, e, f, n), st(s, x), st(t, y), op(s, x, d)}

lemma postend(s: seq, t: seq, e: int, f: int, n: int)
  requires wf(s) && agree(s, t, e, f, n) && n == len(s)-e && len(t)-f == n && 0 <= e && e <= len(s) && 0 <= f && st(s, e) == st(t, f) && dp(s, e) == dp(t, f)
  requires forall j: int {op(s, e, j)} {op(t, f, j)} :: 1 <= j && j <= dp(s, e) ==> op(t, f, j) == op(s, e, j) && op(s, e, j) < e && s[op(s, e, j)] == t[op(t, f, j)]
  ensures wf(t)
  use post ops
  case dp(s, len(s)) == 0 && endv(st(s, len(s)))
  case dp(s, len(s)) >= 1 ==> op(s, len(s), 1) < len(s)
  case len(t) == len(s)+(f-e)
  case st(t, len(t)) == st(s, len(s)) && dp(t, len(t)) == dp(s, len(s))
  trigger {agree(s, t, e, f, n), wf(t)}

// the open containers are the same before and after a value, and behind white space
lemma opstay(s: seq, r: int, e: int, j: int, d: int)
  requires wf(s) && 0 <= r && dp(s, r) >= 1 && vpos(st(s, r)) && span(s, r, e) && !ws(s[r]) && s[r] != 93 && r <= j && j <= e && 1 <= d && d <= dp(s, r)
  ensures op(s, j, d) == op(s, r, d)
  use opIn ops
  case j > r ==> 0 <= s[j-1] && op(s, r, dp(s, r)) < r
  case j > r ==> dp(s, j-1) >= dp(s, r)
  induction j from r
  trigger {st(s, r), st(s, e), op(s, j, d)}
lemma endop(s: seq, i: int, j: int, d: int)
  requires 0 <= i && i <= j && j <= len(s) && j <= nxs(s, i) && endv(st(s, i))
  ensures op(s, j, d) == op(s, i, d)
  use endblank
  case j > i ==> 0 <= s[j-1] && ws(s[j-1]) && endv(st(s, j-1))
  induction j from i
  trigger {st(s, i), nxs(s, i), op(s, j, d)}
lemma nxshift(s: seq, t: seq, e: int, f: int, n: int, x: int, y: int)
  requires agree(s, t, e, f, n) && n == len(s)-e && len(t)-f == n && 0 <= e && e <= x && x <= len(s) && 0 <= f && y == x+(f-e)
  ensures nxs(t, y) == nxs(s, x)+(f-e)
  case nxs(t, y) < nxs(s, x)+(f-e) ==> 0 <= t[nxs(t, y)] && 0 <= s[nxs(t, y)+(e-f)] && s[nxs(t, y)+(e-f)] == t[nxs(t, y)]
  case nxs(s, x)+(f-e) < nxs(t, y) ==> 0 <= s[nxs(s, x)] && 0 <= t[nxs(s, x)+(f-e)] && s[nxs(s, x)] == t[nxs(s, x)+(f-e)]
  trigger {agree(s, t, e, f, n), nxs(s, x), nxs(t, y)}

// behind a value in both texts: the next separator puts both in the same state
lemma endsync(s: seq, t: seq, e: int, f: int, n: int)
  requires wf(s) && agree(s, t, e, f, n) && n == len(s)-e && len(t)-f == n && 0 <= e && e <= len(s) && 0 <= f
  requires endv(st(s, e)) && endv(st(t, f)) && dp(s, e) == dp(t, f) && dp(s, e) >= 1 && (st(s, e) == 9 ==> e < len(s) && !vtok(s[e])) 
  requires forall j: int {op(s, e, j)} {op(t, f, j)} :: 1 <= j && j <= dp(s, e) ==> op(t, f, j) == op(s, e, j) && op(s, e, j) < e && s[op(s, e, j)] == t[op(t, f, j)]
  ensures wf(t)
  use after endblank endop nxshift postend
  case e <= nxs(s, e) && nxs(s, e) < len(s) && (s[nxs(s, e)] == 44 || s[nxs(s, e)] == top(s, e)+2) && endv(st(s, nxs(s, e))) && dp(s, nxs(s, e)) == dp(s, e) && isopen(top(s, e))
  case nxs(t, f) == nxs(s, e)+(f-e)
  case 0 <= s[nxs(s, e)] && 0 <= t[nxs(t, f)] && s[nxs(s, e)] == t[nxs(t, f)]
  case endv(st(t, nxs(t, f))) && dp(t, nxs(t, f)) == dp(s, e)
  case top(t, nxs(t, f)) == top(s, nxs(s, e)) && top(s, nxs(s, e)) == top(s, e)
  case st(t, nxs(t, f)+1) == st(s, nxs(s, e)+1) && dp(t, nxs(t, f)+1) == dp(s, nxs(s, e)+1) && dp(s, nxs(s, e)+1) <= dp(s, e)
  case agree(s, t, nxs(s, e)+1, nxs(t, f)+1, len(s)-nxs(s, e)-1)
  case wf(t) || !wf(t)
  trigger {agree(s, t, e, f, n), st(s, e), st(t, f)}

// another well-formed value in the place of one
lemma setwf(s: seq, t: seq, v: seq, r: int, e: int, f: int, n: int)
  requires wf(s) && wf(v) && 0 <= r && dp(s, r) >= 1 && vpos(st(s, r)) && span(s, r, e) && !ws(s[r]) && s[r] != 93
  requires agree(s, t, 0, 0, r) && agree(v, t, 0, r, len(v)) && f == r+len(v) && agree(s, t, e, f, n) && n == len(s)-e && len(t) == f+n
  ensures wf(t)
  use pre midst midop sameop opstay ops endsync
  case r < e && e <= len(s) && len(t) == r+len(v)+len(s)-e && len(v) >= 0
  case op(s, r, dp(s, r)) < r
  case st(t, r) == st(s, r) && dp(t, r) == dp(s, r)
  case dp(v, len(v)) == 0 && endv(st(v, len(v)))
  case endv(st(t, r+len(v))) && dp(t, r+len(v)) == dp(s, r)
  case dp(s, e) == dp(s, r) && endv(st(s, e)) && (st(s, e) == 9 ==> e < len(s) && !vtok(s[e]))
  case forall j: int {op(s, e, j)} {op(t, r+len(v), j)} :: 1 <= j && j <= dp(s, r) ==> op(t, r+len(v), j) == op(t, r, j)
  case forall j: int {op(s, e, j)} {op(t, r+len(v), j)} :: 1 <= j && j <= dp(s, r) ==> op(s, e, j) == op(s, r, j)
  case forall j: int {op(s, e, j)} {op(t, r+len(v), j)} :: 1 <= j && j <= dp(s, r) ==> op(t, r+len(v), j) == op(s, e, j) && op(s, e, j) < r && s[op(s, e, j)] == t[op(s, e, j)]
  trigger {wf(t), st(s, e), agree(v, t, 0, r, len(v)), agree(s, t, e, f, n)}

// the same state, and containers of the same kinds around it: the same end
lemma posts(s: seq, t: seq, e: int, f: int, n: int, x: int, y: int, d: int)
  requires agree(s, t, e, f, n) && n == len(s)-e && len(t)-f == n && 0 <= e && 0 <= f && e <= x && x <= len(s) && y == x+(f-e) && st(s, e) == st(t, f) && dp(s, e) == dp(t, f)
  requires forall j: int {op(s, e, j)} {op(t, f, j)} :: 1 <= j && j <= dp(s, e) ==> s[op(s, e, j)] == t[op(t, f, j)]
  ensures st(s, x) == st(t, y) && dp(s, x) == dp(t, y)
  ensures 1 <= d && d <= dp(s, x) ==> s[op(s, x, d)] == t[op(t, y, d)]
  use ops tops
  case x == e ==> y == f
  case x > e ==> 0 <= s[x-1] && 0 <= t[y-1] && s[x-1] == t[y-1]
  case x > e ==> st(s, x-1) == st(t, y-1) && dp(s, x-1) == dp(t, y-1) && (dp(s, x-1) >= 1 ==> top(s, x-1) == top(t, y-1))
  case st(s, x) == st(t, y)
  case dp(s, x) == dp(t, y)
  case x > e && 1 <= d && d <= dp(s, x-1) ==> s[op(s, x-1, d)] == t[op(t, y-1, d)]
  induction strong x from e
  trigger {agree(s, t, e, f, n), st(s, x), st(t, y), op(s, x, d)}
lemma postsend(s: seq, t: seq, e: int, f: int, n: int)
  requires wf(s) && agree(s, t, e, f, n) && n == len(s)-e && len(t)-f == n && 0 <= e && e <= len(s) && 0 <= f && st(s, e) == st(t, f) && dp(s, e) == dp(t, f)
  requires forall j: int {op(s, e, j)} {op(t, f, j)} :: 1 <= j && j <= dp(s, e) ==> s[op(s, e, j)] == t[op(t, f, j)]
  ensures wf(t)
  use posts ops
  case dp(s, len(s)) == 0 && endv(st(s, len(s)))
  case dp(s, len(s)) >= 1 ==> op(s, len(s), 1) < len(s)
  case len(t) == len(s)+(f-e)
  case st(t, len(t)) == st(s, len(s)) && dp(t, len(t)) == dp(s, len(s))
  trigger {agree(s, t, e, f, n), wf(t)}
// the same closing bracket
lemma tailclose(s: seq, t: seq, e: int, f: int, n: int)
  requires wf(s) && agree(s, t, e, f, n) && n == len(s)-e && len(t)-f == n && 0 <= e && e < len(s) && 0 <= f && shut(s, e) && shut(t, f) && dp(s, e) == dp(t, f)
  requires forall j: int {op(s, e, j)} {op(t, f, j)} :: 1 <= j && j <= dp(s, e) ==> s[op(s, e, j)] == t[op(t, f, j)]
  ensures wf(t)
  use postsend
  case 0 <= s[e] && 0 <= t[f] && s[e] == t[f]
  case st(s, e+1) == 5 && st(t, f+1) == 5 && dp(s, e+1) == dp(s, e)-1 && dp(t, f+1) == dp(s, e+1)
  case forall j: int {op(s, e+1, j)} {op(t, f+1, j)} :: 1 <= j && j <= dp(s, e+1) ==> op(s, e+1, j) == op(s, e, j) && op(t, f+1, j) == op(t, f, j)
  case agree(s, t, e+1, f+1, n-1)
  trigger {agree(s, t, e, f, n), wf(t)}

// w: a key with its quotes
def iskey(w) = wf(w) && len(w) >= 2 && w[0] == 34 && w[len(w)-1] == 34
lemma wfnull(v: seq)
  requires v == "null"
  ensures wf(v)
  case v[0] == 110 && v[1] == 117 && v[2] == 108 && v[3] == 108 && len(v) == 4
  case st(v, 0) == 0 && dp(v, 0) == 0 && tok(v[0])
  case st(v, 1) == 9 && dp(v, 1) == 0
  case st(v, 2) == 9 && dp(v, 2) == 0
  case st(v, 3) == 9 && dp(v, 3) == 0
  trigger {wf(v)}
lemma stuck(w: seq, i: int, j: int)
  requires 0 <= i && i <= j && j <= len(w) && dp(w, i) == 0 && (st(w, i) == 5 || st(w, i) == 12)
  ensures dp(w, j) == 0 && (st(w, j) == 5 || st(w, j) == 12)
  case j > i ==> 0 <= w[j-1]
  induction j from i
  trigger {st(w, i), st(w, j)}
lemma keyst(w: seq, i: int)
  requires iskey(w) && 1 <= i && i < len(w)
  ensures (st(w, i) == 7 || st(w, i) == 8) && dp(w, i) == 0
  use stuck
  case 0 <= w[i-1] && 0 <= w[len(w)-1]
  case i > 1 ==> (st(w, i-1) == 7 || st(w, i-1) == 8) && dp(w, i-1) == 0
  case st(w, i) == 5 ==> (st(w, len(w)-1) == 5 || st(w, len(w)-1) == 12) && dp(w, len(w)-1) == 0
  case st(w, i) == 5 ==> st(w, len(w)) == 12
  induction i from 1
  trigger {wf(w), st(w, i)}
lemma midkey(w: seq, t: seq, a: int, i: int, x: int, d: int)
  requires iskey(w) && agree(w, t, 0, a, len(w)) && (st(t, a) == 2 || st(t, a) == 3) && 1 <= i && i <= len(w) && x == a+i
  ensures dp(t, x) == dp(t, a) && op(t, x, d) == op(t, a, d) && (i < len(w) ==> st(t, x) == st(w, i)+3) && (i == len(w) ==> st(t, x) == 4)
  use keyst
  case 0 <= w[i-1] && 0 <= t[x-1] && w[i-1] == t[x-1]
  case i > 1 ==> (st(w, i-1) == 7 || st(w, i-1) == 8) && dp(t, x-1) == dp(t, a) && op(t, x-1, d) == op(t, a, d) && st(t, x-1) == st(w, i-1)+3
  case i < len(w) ==> (st(w, i) == 7 || st(w, i) == 8)
  case i == len(w) ==> st(w, i-1) == 7
  induction strong i from 1
  trigger {agree(w, t, 0, a, len(w)), st(w, i), op(t, x, d)}
lemma pairat(w: seq, v: seq, t: seq, a: int, b: int, f: int, d: int)
  requires iskey(w) && wf(v) && agree(w, t, 0, a, len(w)) && b == a+len(w)+1 && t[b-1] == 58 && agree(v, t, 0, b, len(v)) && f == b+len(v) && (st(t, a) == 2 || st(t, a) == 3) && d <= dp(t, a)
  ensures endv(st(t, f)) && dp(t, f) == dp(t, a) && op(t, f, d) == op(t, a, d)
  use midkey midst midop
  case endv(st(v, len(v))) && dp(v, len(v)) == 0 && endv(st(w, len(w)))
  case op(t, b-1, d) == op(t, a, d) && st(t, b-1) == 4 && dp(t, b-1) == dp(t, a)
  case 0 <= t[b-1]
  case st(t, b) == 0 && dp(t, b) == dp(t, a) && op(t, b, d) == op(t, a, d)
  case endv(st(t, f)) && dp(t, f) == dp(t, a)
  case op(t, f, d) == op(t, b, d)
  trigger {agree(w, t, 0, a, len(w)), agree(v, t, 0, b, len(v)), op(t, f, d)}

// what closes an object or array: s[h-1], in the state of an empty or a filled container
lemma closer(s: seq, u: int, h: int)
  requires wf(s) && 0 <= u && vpos(st(s, u)) && isopen(s[u]) && (spanC(s, u, h) || spanR(s, u, h))
  ensures u < h-1 && h <= len(s) && dp(s, h-1) == dp(s, u)+1 && op(s, h-1, dp(s, h-1)) == u && shut(s, h-1) && s[h-1] == s[u]+2
  ensures s[u] == 123 ==> st(s, h-1) == 2 || endv(st(s, h-1))
  ensures s[u] == 91 ==> st(s, h-1) == 1 || endv(st(s, h-1))
  case 0 <= s[h-1] && 0 <= s[u] && dp(s, u) >= 0
  case u != h-1
  trigger {st(s, u), st(s, h)}
lemma blankst(s: seq, u: int, i: int)
  requires 0 <= u && u < i && i <= len(s) && vpos(st(s, u)) && isopen(s[u]) && (st(s, i) == 1 || st(s, i) == 2) && dp(s, i) == dp(s, u)+1 && op(s, i, dp(s, i)) == u
  ensures nxs(s, u+1) >= i
  use closed ops
  case 0 <= s[u] && 0 <= s[i-1]
  case i > u+1 ==> ws(s[i-1]) && nxs(s, u+1) >= i-1
  induction i from u+1
  trigger {st(s, u), st(s, i), nxs(s, u+1)}
lemma addkv(s: seq, t: seq, w: seq, v: seq, u: int, h: int, g: int, a: int, b: int, f: int, n: int)
  requires wf(s) && iskey(w) && wf(v) && 0 <= u && vpos(st(s, u)) && s[u] == 123 && (spanC(s, u, h) || spanR(s, u, h)) && g == h-1
  requires agree(s, t, 0, 0, g) && agree(w, t, 0, a, len(w)) && b == a+len(w)+1 && t[b-1] == 58 && agree(v, t, 0, b, len(v)) && f == b+len(v) && agree(s, t, g, f, n) && n == len(s)-g && len(t) == f+n
  requires (st(s, g) == 2 ==> a == g) && (st(s, g) != 2 ==> a == g+1 && t[g] == 44)
  ensures wf(t)
  use closer pre ops pairat tailclose
  case u < g && h <= len(s) && dp(s, g) == dp(s, u)+1 && op(s, g, dp(s, g)) == u && shut(s, g) && s[g] == 125
  case st(t, g) == st(s, g) && dp(t, g) == dp(s, g) && op(t, g, dp(s, g)) == u && s[u] == t[u]
  case forall j: int {op(s, g, j)} {op(t, g, j)} :: 1 <= j && j <= dp(s, g) ==> op(t, g, j) == op(s, g, j) && op(s, g, j) < g
  case (st(t, a) == 2 || st(t, a) == 3) && dp(t, a) == dp(s, g) && (forall j: int {op(t, a, j)} :: op(t, a, j) == op(t, g, j))
  case (forall j: int {op(t, f, j)} :: j <= dp(s, g) ==> op(t, f, j) == op(t, a, j))
  case op(t, f, dp(s, g)) == u
  case endv(st(t, f)) && dp(t, f) == dp(s, g)
  case shut(t, f)
  case wf(t) || !wf(t)
  trigger {wf(t), wf(w), st(s, u), agree(w, t, 0, a, len(w)), agree(v, t, 0, b, len(v)), agree(s, t, g, f, n), st(s, h)}
lemma addel(s: seq, t: seq, v: seq, u: int, h: int)
  requires wf(s) && wf(v) && 0 <= u && vpos(st(s, u)) && s[u] == 91 && (spanC(s, u, h) || spanR(s, u, h))
  requires st(s, h-1) == 1 ==> t == s[:h-1] ++ v ++ s[h-1:]
  requires st(s, h-1) != 1 ==> t == s[:h-1] ++ "," ++ v ++ s[h-1:]
  ensures wf(t)
  use closer pre ops midst midop tailclose
  case u < h-1 && h <= len(s) && dp(s, h-1) == dp(s, u)+1 && op(s, h-1, dp(s, h-1)) == u && shut(s, h-1) && s[h-1] == 93
  case endv(st(v, len(v))) && dp(v, len(v)) == 0
  case agree(s, t, 0, 0, h-1)
  case st(t, h-1) == st(s, h-1) && dp(t, h-1) == dp(s, h-1) && op(t, h-1, dp(s, h-1)) == u && s[u] == t[u]
  case forall j: int {op(s, h-1, j)} {op(t, h-1, j)} :: 1 <= j && j <= dp(s, h-1) ==> op(t, h-1, j) == op(s, h-1, j) && op(s, h-1, j) < h-1
  case st(s, h-1) == 1 ==> agree(v, t, 0, h-1, len(v)) && agree(s, t, h-1, h-1+len(v), len(s)-(h-1)) && len(t) == len(s)+len(v)
  case st(s, h-1) != 1 ==> agree(v, t, 0, h, len(v)) && agree(s, t, h-1, h+len(v), len(s)-(h-1)) && t[h-1] == 44 && len(t) == len(s)+1+len(v)
  case st(s, h-1) != 1 ==> st(t, h) == 0 && dp(t, h) == dp(s, h-1) && (forall j: int {op(t, h, j)} :: op(t, h, j) == op(t, h-1, j))
  case st(s, h-1) == 1 ==> (forall j: int {op(t, h-1+len(v), j)} :: j <= dp(s, h-1) ==> op(t, h-1+len(v), j) == op(t, h-1, j)) && endv(st(t, h-1+len(v))) && dp(t, h-1+len(v)) == dp(s, h-1)
  case st(s, h-1) != 1 ==> (forall j: int {op(t, h+len(v), j)} :: j <= dp(s, h-1) ==> op(t, h+len(v), j) == op(t, h-1, j)) && endv(st(t, h+len(v))) && dp(t, h+len(v)) == dp(s, h-1)
  case st(s, h-1) == 1 ==> shut(t, h-1+len(v))
  case st(s, h-1) != 1 ==> shut(t, h+len(v))
  case st(s, h-1) == 1 ==> wf(t)
  case st(s, h-1) != 1 ==> wf(t)
  trigger {wf(t), wf(v), st(s, u), st(s, h)}

// an element before one
lemma inswf(s: seq, t: seq, v: seq, r: int)
  requires wf(s) && wf(v) && 0 <= r && r < len(s) && vpos(st(s, r)) && dp(s, r) >= 1 && top(s, r) == 91 && !ws(s[r]) && s[r] != 93 && t == s[:r] ++ v ++ "," ++ s[r:]
  ensures wf(t)
  use pre ops midst midop postsend noerr
  case len(t) == len(s)+len(v)+1 && endv(st(v, len(v))) && dp(v, len(v)) == 0
  case agree(s, t, 0, 0, r) && agree(v, t, 0, r, len(v)) && t[r+len(v)] == 44 && agree(s, t, r, r+len(v)+1, len(s)-r)
  case st(t, r) == st(s, r) && dp(t, r) == dp(s, r)
  case forall j: int {op(s, r, j)} {op(t, r, j)} :: 1 <= j && j <= dp(s, r) ==> op(t, r, j) == op(s, r, j) && op(s, r, j) < r
  case endv(st(t, r+len(v))) && dp(t, r+len(v)) == dp(s, r)
  case forall j: int {op(t, r+len(v), j)} :: j <= dp(s, r) ==> op(t, r+len(v), j) == op(t, r, j)
  case top(t, r+len(v)) == 91
  case st(t, r+len(v)+1) == 0 && dp(t, r+len(v)+1) == dp(s, r) && (forall j: int {op(t, r+len(v)+1, j)} :: op(t, r+len(v)+1, j) == op(t, r+len(v), j))
  case 0 <= s[r] && 0 <= t[r+len(v)+1] && s[r] == t[r+len(v)+1] && st(s, r+1) != 12
  case st(t, r+len(v)+2) == st(s, r+1) && dp(t, r+len(v)+2) == dp(s, r+1)
  case opn(s, r) == opn(t, r+len(v)+1) && !shut(s, r)
  case opn(s, r) ==> op(s, r+1, dp(s, r)+1) == r && op(t, r+len(v)+2, dp(s, r)+1) == r+len(v)+1
  case forall j: int {op(s, r+1, j)} {op(t, r+len(v)+2, j)} :: 1 <= j && j <= dp(s, r) ==> op(s, r+1, j) == op(s, r, j) && op(t, r+len(v)+2, j) == op(t, r+len(v)+1, j) && op(s, r, j) < r
  case forall j: int {op(s, r+1, j)} {op(t, r+len(v)+2, j)} :: 1 <= j && j <= dp(s, r+1) ==> s[op(s, r+1, j)] == t[op(t, r+len(v)+2, j)]
  case agree(s, t, r+1, r+len(v)+2, len(s)-r-1)
  case wf(t) || !wf(t)
  trigger {wf(t), wf(v), st(s, r)}

// another key
lemma keyat(s: seq, i: int)
  requires 0 <= i && i <= len(s) && st(s, i) == 4
  ensures ks(s, i) <= ke(s, i) && ke(s, i) < i && st(s, ke(s, i)) == 10 && s[ke(s, i)] == 34 && ks(s, ke(s, i)) == ks(s, i)
  use key keylen
  case i > 0 ==> 0 <= s[i-1]
  case i > 0 && st(s, i-1) == 4 ==> ks(s, i-1) == ks(s, i) && ke(s, i-1) == ke(s, i)
  case i > 0 && st(s, i-1) != 4 ==> st(s, i-1) == 10 && s[i-1] == 34
  induction i from 0
  trigger {st(s, i), ke(s, i)}
lemma keyop(s: seq, i: int, d: int)
  requires 0 <= i && i <= len(s) && (inkey(st(s, i)) || st(s, i) == 4)
  ensures op(s, ks(s, i)-1, d) == op(s, i, d)
  use key
  case i > 0 ==> 0 <= s[i-1]
  case i > 0 && (inkey(st(s, i-1)) || st(s, i-1) == 4) ==> ks(s, i) == ks(s, i-1)
  case i > 0 && !(inkey(st(s, i-1)) || st(s, i-1) == 4) ==> ks(s, i) == i
  induction i from 0
  trigger {st(s, i), op(s, i, d)}
lemma keywf(s: seq, t: seq, w: seq, k: int, e: int, e1: int, f: int, n: int)
  requires wf(s) && iskey(w) && 0 <= k && k < e && e < len(s) && (st(s, k) == 2 || st(s, k) == 3) && s[k] == 34 && s[e] == 34 && st(s, e) == 10 && ks(s, e) == k+1 && e1 == e+1
  requires agree(s, t, 0, 0, k) && agree(w, t, 0, k, len(w)) && f == k+len(w) && agree(s, t, e1, f, n) && n == len(s)-e1 && len(t) == f+n
  ensures wf(t)
  use pre ops midkey postsend key keyop
  case st(t, k) == st(s, k) && dp(t, k) == dp(s, k)
  case st(s, e+1) == 4 && dp(s, e+1) == dp(s, e) && dp(s, e) == dp(s, k)
  case forall j: int {op(s, k, j)} {op(t, k, j)} :: 1 <= j && j <= dp(s, k) ==> op(t, k, j) == op(s, k, j) && op(s, k, j) < k
  case st(w, len(w)) == 5 || st(w, len(w)) != 5
  case st(t, k+len(w)) == 4 && dp(t, k+len(w)) == dp(s, k)
  case forall j: int {op(t, k+len(w), j)} :: op(t, k+len(w), j) == op(t, k, j)
  case forall j: int {op(s, e, j)} {op(s, e+1, j)} :: op(s, e, j) == op(s, k, j) && op(s, e+1, j) == op(s, e, j)
  case forall j: int {op(s, e+1, j)} {op(t, k+len(w), j)} :: 1 <= j && j <= dp(s, k) ==> s[op(s, e+1, j)] == t[op(t, k+len(w), j)]
  trigger {wf(t), agree(w, t, 0, k, len(w)), agree(s, t, e1, f, n), st(s, e)}

// without a member or element
lemma backop(s: seq, i: int, j: int, d: int)
  requires wf(s) && 0 <= i && i <= len(s) && pns(s, i) <= j && j <= i && 0 <= st(s, i) && st(s, i) <= 3
  ensures op(s, j, d) == op(s, i, d)
  use backblank
  case j < i ==> 0 <= s[j] && ws(s[j]) && st(s, j+1) == st(s, i) && st(s, j) == st(s, i)
  case j < i ==> op(s, j+1, d) == op(s, i, d)
  induction down j from i
  trigger {wf(s), op(s, j, d), pns(s, i)}
lemma delalone(s: seq, t: seq, a: int, e: int, n: int)
  requires wf(s) && 0 <= a && a <= e && e < len(s) && (st(s, a) == 1 || st(s, a) == 2) && dp(s, a) >= 1 && (forall j: int {op(s, e, j)} :: 1 <= j && j <= dp(s, a) ==> op(s, e, j) == op(s, a, j))
  requires endv(st(s, e)) && dp(s, e) == dp(s, a) && (st(s, e) == 9 ==> !vtok(s[e])) && s[nxs(s, e)] != 44 && agree(s, t, 0, 0, a) && agree(s, t, e, a, n) && n == len(s)-e && len(t) == a+n
  ensures wf(t)
  use pre ops after endop nxshift tailclose blank blankop
  case e <= nxs(s, e) && nxs(s, e) < len(s) && s[nxs(s, e)] == top(s, e)+2 && endv(st(s, nxs(s, e))) && dp(s, nxs(s, e)) == dp(s, e) && isopen(top(s, e))
  case st(t, a) == st(s, a) && dp(t, a) == dp(s, a)
  case forall j: int {op(s, a, j)} {op(t, a, j)} :: 1 <= j && j <= dp(s, a) ==> op(t, a, j) == op(s, a, j) && op(s, a, j) < a
  case nxs(t, a) == nxs(s, e)+(a-e)
  case st(t, nxs(t, a)) == st(s, a) && dp(t, nxs(t, a)) == dp(s, a)
  case 0 <= s[nxs(s, e)] && 0 <= t[nxs(t, a)] && s[nxs(s, e)] == t[nxs(t, a)]
  case forall j: int {op(t, nxs(t, a), j)} :: 1 <= j && j <= dp(s, a) ==> op(t, nxs(t, a), j) == op(t, a, j)
  case forall j: int {op(s, nxs(s, e), j)} :: 1 <= j && j <= dp(s, a) ==> op(s, nxs(s, e), j) == op(s, e, j)
  case shut(s, nxs(s, e)) && shut(t, nxs(t, a))
  case agree(s, t, nxs(s, e), nxs(t, a), len(s)-nxs(s, e))
  case wf(t) || !wf(t)
  trigger {wf(t), agree(s, t, 0, 0, a), agree(s, t, e, a, n)}
lemma delafter(s: seq, t: seq, a: int, e: int, c: int, c1: int, n: int)
  requires wf(s) && 0 <= a && a <= e && e <= c && c < len(s) && 0 <= st(s, a) && st(s, a) <= 3 && dp(s, a) >= 1 && (forall j: int {op(s, e, j)} :: 1 <= j && j <= dp(s, a) ==> op(s, e, j) == op(s, a, j))
  requires endv(st(s, e)) && dp(s, e) == dp(s, a) && (st(s, e) == 9 ==> !vtok(s[e])) && c == nxs(s, e) && s[c] == 44 && c1 == c+1 && agree(s, t, 0, 0, a) && agree(s, t, c1, a, n) && n == len(s)-c1 && len(t) == a+n && (st(s, a) == 0 ==> top(s, a) == 91)
  ensures wf(t)
  use pre ops tops after endop nxshift postsend blank blankop more noerr
  case endv(st(s, c)) && dp(s, c) == dp(s, a) && (forall j: int {op(s, c, j)} :: 1 <= j && j <= dp(s, a) ==> op(s, c, j) == op(s, a, j))
  case st(t, a) == st(s, a) && dp(t, a) == dp(s, a)
  case forall j: int {op(s, a, j)} {op(t, a, j)} :: 1 <= j && j <= dp(s, a) ==> op(t, a, j) == op(s, a, j) && op(s, a, j) < a
  case (st(s, c+1) == 0 || st(s, c+1) == 3) && dp(s, c+1) == dp(s, a) && (st(s, c+1) == 3) == (top(s, a) == 123) && (forall j: int {op(s, c+1, j)} :: op(s, c+1, j) == op(s, c, j))
  case st(s, a) == 2 || st(s, a) == 3 ==> top(s, a) == 123
  case st(s, a) == 0 || st(s, a) == 1 ==> top(s, a) == 91
  case c+1 <= nxs(s, c+1) && nxs(s, c+1) < len(s) && st(s, nxs(s, c+1)) == st(s, c+1) && dp(s, nxs(s, c+1)) == dp(s, a) && st(s, nxs(s, c+1)+1) != 12
  case nxs(t, a) == nxs(s, c+1)+(a-c-1)
  case st(t, nxs(t, a)) == st(s, a) && dp(t, nxs(t, a)) == dp(s, a)
  case 0 <= s[nxs(s, c+1)] && 0 <= t[nxs(t, a)] && s[nxs(s, c+1)] == t[nxs(t, a)]
  case forall j: int {op(t, nxs(t, a), j)} :: 1 <= j && j <= dp(s, a) ==> op(t, nxs(t, a), j) == op(t, a, j)
  case forall j: int {op(s, nxs(s, c+1), j)} :: 1 <= j && j <= dp(s, a) ==> op(s, nxs(s, c+1), j) == op(s, c+1, j)
  case st(t, nxs(t, a)+1) == st(s, nxs(s, c+1)+1)
  case opn(s, nxs(s, c+1)) == opn(t, nxs(t, a)) && !shut(s, nxs(s, c+1)) && !shut(t, nxs(t, a))
  case dp(t, nxs(t, a)+1) == dp(s, nxs(s, c+1)+1)
  case opn(s, nxs(s, c+1)) ==> op(s, nxs(s, c+1)+1, dp(s, a)+1) == nxs(s, c+1) && op(t, nxs(t, a)+1, dp(s, a)+1) == nxs(t, a)
  case forall j: int {op(s, nxs(s, c+1)+1, j)} :: 1 <= j && j <= dp(s, a) ==> op(s, nxs(s, c+1)+1, j) == op(s, nxs(s, c+1), j)
  case forall j: int {op(t, nxs(t, a)+1, j)} :: 1 <= j && j <= dp(s, a) ==> op(t, nxs(t, a)+1, j) == op(t, nxs(t, a), j)
  case forall j: int {op(s, nxs(s, c+1), j)} :: 1 <= j && j <= dp(s, a) ==> op(s, nxs(s, c+1), j) == op(s, a, j)
  case forall j: int {op(s, nxs(s, c+1)+1, j)} {op(t, nxs(t, a)+1, j)} :: 1 <= j && j <= dp(s, a) ==> op(s, nxs(s, c+1)+1, j) == op(s, a, j) && op(t, nxs(t, a)+1, j) == op(t, a, j)
  case forall j: int {op(s, nxs(s, c+1)+1, j)} {op(t, nxs(t, a)+1, j)} :: 1 <= j && j <= dp(s, nxs(s, c+1)+1) ==> s[op(s, nxs(s, c+1)+1, j)] == t[op(t, nxs(t, a)+1, j)]
  case agree(s, t, nxs(s, c+1)+1, nxs(t, a)+1, len(s)-nxs(s, c+1)-1)
  case wf(t) || !wf(t)
  trigger {wf(t), agree(s, t, 0, 0, a), agree(s, t, c1, a, n), st(s, e), s[c]}
lemma dellast(s: seq, t: seq, a: int, e: int, n: int)
  requires wf(s) && 0 <= a && a <= e && e < len(s) && endv(st(s, a)) && dp(s, a) >= 1 && (forall j: int {op(s, e, j)} :: 1 <= j && j <= dp(s, a) ==> op(s, e, j) == op(s, a, j))
  requires endv(st(s, e)) && dp(s, e) == dp(s, a) && (st(s, e) == 9 ==> !vtok(s[e])) && agree(s, t, 0, 0, a) && agree(s, t, e, a, n) && n == len(s)-e && len(t) == a+n
  ensures wf(t)
  use pre ops endsync
  case st(t, a) == st(s, a) && dp(t, a) == dp(s, a)
  case forall j: int {op(s, a, j)} {op(t, a, j)} :: 1 <= j && j <= dp(s, a) ==> op(t, a, j) == op(s, a, j) && op(s, a, j) < a
  case forall j: int {op(s, e, j)} {op(t, a, j)} :: 1 <= j && j <= dp(s, a) ==> op(t, a, j) == op(s, e, j) && op(s, e, j) < e && s[op(s, e, j)] == t[op(t, a, j)]
  trigger {wf(t), agree(s, t, 0, 0, a), agree(s, t, e, a, n)}
