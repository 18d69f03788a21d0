// ---- inter_core.go ---------------------------------------------------------------------------

// nxs(s, i): the first position >= i that holds no white space (len(s) if there is none)
logic nxs(s: seq, i: int): int
axiom nxs0: forall s: seq, i: int {nxs(s, i)} :: i <= nxs(s, i) && (i <= len(s) ==> nxs(s, i) <= len(s)) && (i >= len(s) ==> nxs(s, i) == i)
axiom nxs1: forall s: seq, i: int {nxs(s, i), s[i]} :: 0 <= i && i < len(s) ==> (ws(s[i]) ==> nxs(s, i) == nxs(s, i+1)) && (!ws(s[i]) ==> nxs(s, i) == i)

axiom nxs2: forall s: seq, i: int, j: int {nxs(s, i), s[j]} :: 0 <= i && i <= j && j < nxs(s, i) ==> ws(s[j])
axiom nxs3: forall s: seq, i: int {nxs(s, i)} :: 0 <= i && nxs(s, i) < len(s) ==> !ws(s[nxs(s, i)])

lemma nxslice(s: seq, a: int, b: int, i: int)
  requires 0 <= a && a <= b && b <= len(s) && 0 <= i && i <= b-a
  ensures nxs(s[a:b], i) == ite(nxs(s, a+i) < b, nxs(s, a+i)-a, b-a)
  case len(s[a:b]) == b-a && (i < b-a ==> s[a:b][i] == s[a+i])
  case i < b-a ==> nxs(s[a:b], i+1) == ite(nxs(s, a+i+1) < b, nxs(s, a+i+1)-a, b-a)
  induction down i from b-a
  trigger {nxs(s[a:b], i)}

def isopen(c) = c == 91 || c == 123
def sep(c) = c == 91 || c == 44 || c == 58 || ws(c)
def opens(s, i) = nxs(s, i) >= len(s) || isopen(s[nxs(s, i)])

func core(json, justStart, path) (keyStart, start, end, err)
  requires len(path) > 0
  pure
  ensures range: err == nil ==> 1 <= start && start < len(json)
  ensures key: err == nil ==> keyStart == 0-1 || (2 <= keyStart && keyStart < start && json[keyStart-1] == 34)
  ensures first: err == nil ==> json[0] != 44
  ensures end: err == nil && !justStart ==> start <= end && end <= len(json)
  ensures open: err == nil && !justStart && json[start-1] != 34 && isopen(json[start]) ==> start+1 < end
  ensures quoted: err == nil && !justStart && json[start-1] == 34 ==> 2 <= start && end < len(json) && json[end] == 34
  inv found ==> k < len(path) - 1
  inv 0 <= k && k < len(path)
  inv offset > 0 ==> json[0] != 44
  inv 0 < offset && offset <= len(json) ==> sep(json[offset-1])
  inv k < len(path) ==> json[offset] == braceType || nxs(json, offset) >= len(json)
  inv k < len(path) ==> isopen(braceType)
  inv isopen(braceType)
  inv sep(json[i-1])
  inv found ==> i >= 1 && sep(json[i-1])
  inv found ==> opens(json, i)
  inv found ==> start >= 0 && nxs(json, i) == nxs(json, offset)
  inv keyStart == 0-1 || (2 <= keyStart && json[keyStart-1] == 34)
  inv start == 0 || (2 <= start && json[start-1] == 34)
  inv i == 0 ==> json[0] == 123 || nxs(json, 0) >= len(json)
  inv nxs(json, j) == nxs(json, offset)
  inv nxs(json, j) == nxs(json, i+1)
  inv json[i] == 58 && offset == i+1
  inv nxs(json, i) == nxs(json, offset)
  inv found ==> !inQuote
  inv 1 <= i && i <= len(json) ==> sep(json[i-1])
  inv offset <= len(json)

  behavior wf
  assumes wf(json)
  ensures found: (err == nil) == (R(json, path, len(path)) >= 0)
  ensures start: err == nil ==> start == R(json, path, len(path)) + ite(justStart, 0, quoted(json, R(json, path, len(path))))
  ensures container: err == nil && !justStart && isopen(json[start]) && json[start-1] != 34 ==> spanC(json, start, end)
  ensures string: err == nil && !justStart && json[start-1] == 34 ==> spanS(json, start-1, end+1)
  ensures token: err == nil && !justStart && !isopen(json[start]) && json[start-1] != 34 ==> spanT(json, start, end)
  ensures depth: err == nil ==> dp(json, R(json, path, len(path))) == len(path)
  ensures key: err == nil && json[R(json, path, len(path)-1)] == 123 ==> keyStart == ks(json, fst(json, R(json, path, len(path)-1), len(path), path[len(path)-1], len(json)))
  ensures nokey: err == nil && json[R(json, path, len(path)-1)] != 123 ==> keyStart == 0-1
  ensures code: forall q: int {R(json, path, q)} :: len(json) >= 2 && 0 <= q && q < len(path) && R(json, path, q) >= 0 && R(json, path, q+1) < 0 ==> code(err) == ecode(json, path, q)
  inv isJSONChar[34] && isJSONChar[91] && isJSONChar[93] && isJSONChar[123] && isJSONChar[125]
  inv isJSONChar[44]
  inv isJSONChar[58]
  inv rangeindex >= 0 ==> isJSONChar[34]
  inv rangeindex >= 1 ==> isJSONChar[44]
  inv rangeindex >= 2 ==> isJSONChar[58]
  inv rangeindex >= 3 ==> isJSONChar[91]
  inv rangeindex >= 4 ==> isJSONChar[93]
  inv rangeindex >= 5 ==> isJSONChar[123]
  inv rangeindex >= 6 ==> isJSONChar[125]
  inv absent(k) && absent(braceType) && nxs(json, offset) == nxs(json, 0) && st(json, offset) == 0 && dp(json, offset) == 0
  inv absent(found) && R(json, path, k) == nxs(json, offset) && offset < len(json) && R(json, path, k) >= 0 && dp(json, offset) == k && vpos(st(json, offset))
  inv absent(found) && (k < len(path) ==> offset == R(json, path, k))
  inv absent(found) && json[R(json, path, k)] != 93
  inv k < len(path) ==> currentPath == path[k]
  inv k < len(path) ==> keyStart == 0-1
  inv 1 <= k && k == len(path) && json[R(json, path, k-1)] == 123 ==> keyStart == ks(json, fst(json, R(json, path, k-1), k, path[k-1], len(json)))
  inv 1 <= k && json[R(json, path, k-1)] != 123 ==> keyStart == 0-1
  inv bsl(json, i) >= i-1-n
  inv bsl(json, j) >= j-1-n
  inv absent(innerLevel) && inQuote == instr(st(json, i))
  inv end == end && level == dp(json, i)
  inv end >= 0 && !found ==> R(json, path, k) >= 0 && R(json, path, k) < len(json) && json[R(json, path, k)] == 123 && fst(json, R(json, path, k), k+1, path[k], i) < 0
  inv end >= 0 && !found ==> vpos(st(json, R(json, path, k))) && dp(json, R(json, path, k)) == k
  inv end >= 0 && !found ==> i == R(json, path, k) || (op(json, i, k+1) == R(json, path, k) && dp(json, i) == k+1)
  inv end >= 0 && !found && i != R(json, path, k) ==> 2 <= st(json, i) && st(json, i) <= 11 && (st(json, i) <= 4 || inkey(st(json, i)))
  inv end >= 0 && inkey(st(json, i)) ==> start == ks(json, i) && start > 0
  inv end >= 0 && st(json, i) == 4 ==> start == ks(json, i) && end == ke(json, i) && start > 0
  inv found ==> st(json, i) == 0 && dp(json, i) == k+1 && nxs(json, i) == R(json, path, k+1) && isopen(json[nxs(json, i)])
  inv forall q: int {currentPath[q]} :: 0 <= q && q < j ==> currentPath[q] == json[start+q]
  inv absent(innerLevel) && st(json, j) == 0 && dp(json, j) == k+1
  inv innerLevel == dp(json, j)
  inv innerLevel >= 0 && fst(json, R(json, path, k), k+1, path[k], i+1) < 0
  inv innerLevel == innerLevel && inQuote == instr(st(json, j))
  inv innerLevel >= k+1 && op(json, j, k+1) == R(json, path, k)
  inv innerLevel >= 0 && fst(json, R(json, path, k), k+1, path[k], j) < 0
  inv innerLevel == k+1 ==> j == i || st(json, j) == 0 || st(json, j) == 5 || st(json, j) == 7 || st(json, j) == 8 || st(json, j) == 9
  inv indexCount >= 0 && level == dp(json, i) - k
  inv indexCount >= 0 && !found ==> R(json, path, k) >= 0 && R(json, path, k) < len(json) && json[R(json, path, k)] == 91 && fst(json, R(json, path, k), k+1, path[k], i) < 0
  inv indexCount >= 0 && !found ==> i == R(json, path, k) && indexCount == 0 || (op(json, i, k+1) == R(json, path, k) && dp(json, i) >= k+1 && cx(json, i, k+1) == indexCount)
  inv absent(inQuote) && absent(found) && nxs(json, i) == nxs(json, offset)
  inv absent(inQuote) && absent(found) && st(json, i) == 1 && dp(json, i) == k+1
  inv i <= len(json)
  inv k <= len(path)
  inv absent(found) && (k >= len(path) ==> level == dp(json, i) - len(path))
  inv absent(found) && present(level) && (k >= len(path) && i > offset ==> op(json, i, len(path)+1) == offset && dp(json, i) > len(path))
  inv absent(found) && absent(level) && (k >= len(path) ==> st(json, i) == 7 && vs(json, i) == offset && dp(json, i) == len(path))
  inv absent(found) && absent(level) && (k >= len(path) && i > offset ==> tok(json[offset]) && st(json, i) == 9 && vs(json, i) == offset && dp(json, i) == len(path))
