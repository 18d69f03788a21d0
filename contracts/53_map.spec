// ---- GetMap, GetAllMap, walk ---------------------------------------------------------------------------------
// the contents of a map[string]string: mempty, mput are built in
logic mhas(m: mapc, k: seq): bool
logic mget(m: mapc, k: seq): seq
axiom mhas0: forall k: seq {mhas(mempty(), k)} :: !mhas(mempty(), k)
axiom mhas1: forall m: mapc, k: seq, v: seq, j: seq {mhas(mput(m, k, v), j)} :: mhas(mput(m, k, v), j) == (j == k || mhas(m, j))
axiom mget1: forall m: mapc, k: seq, v: seq, j: seq {mget(mput(m, k, v), j)} :: (j == k ==> mget(mput(m, k, v), j) == v) && (j != k ==> mget(mput(m, k, v), j) == mget(m, j))

// the first n keys with the texts that looking them up gives
logic gotmap(s: seq, z: bool, keys: seqs, path: seqs, n: int): mapc
axiom gotm0: forall s: seq, z: bool, keys: seqs, path: seqs, n: int {gotmap(s, z, keys, path, n)} :: n <= 0 ==> gotmap(s, z, keys, path, n) == mempty()
axiom gotm1: forall s: seq, z: bool, keys: seqs, path: seqs, n: int {gotmap(s, z, keys, path, n)} :: 0 < n && n <= len(keys) ==>
   gotmap(s, z, keys, path, n) == mput(gotmap(s, z, keys, path, n-1), keys[n-1], gv(nilif(s, z), keys, path, n-1))

func GetAllMap(json, keys, path) (r, err)
  use gotstop
  inv rangeindex+1 <= len(keys)
  inv got(json, isnil(json), keys, path, rangeindex+1) == rangeindex+1
  inv mapc(results) == gotmap(json, isnil(json), keys, path, rangeindex+1)
  ensures failed: err != nil ==> isnil(r)
  ensures ok: (err == nil) == (got(json, isnil(json), keys, path, len(keys)) == len(keys))
  ensures all: err == nil ==> mapc(r) == gotmap(json, isnil(json), keys, path, len(keys))
  ensures first: err != nil ==> err == ge(json, keys, path, got(json, isnil(json), keys, path, len(keys)))

// the first n members of an object, the first n elements of an array under their indexes
logic mapkv(k: seqs, v: seqs, n: int): mapc
axiom mapkv0: forall k: seqs, v: seqs, n: int {mapkv(k, v, n)} :: n <= 0 ==> mapkv(k, v, n) == mempty()
axiom mapkv1: forall k: seqs, v: seqs, n: int {mapkv(k, v, n)} :: 0 < n ==> mapkv(k, v, n) == mput(mapkv(k, v, n-1), k[n-1], v[n-1])
logic mapat(v: seqs, n: int): mapc
axiom mapat0: forall v: seqs, n: int {mapat(v, n)} :: n <= 0 ==> mapat(v, n) == mempty()
axiom mapat1: forall v: seqs, n: int {mapat(v, n)} :: 0 < n ==> mapat(v, n) == mput(mapat(v, n-1), itoa(n-1), v[n-1])

func GetMap(json, path) (r, err)
  ensures failed: err != nil ==> isnil(r)
  behavior wf
  assumes wf(json)
  use Rpos rootend noquote
  apply core(json, false, path)
  entry isobj(json, path) || isarr(json, path) ==> dp(json, RR(json, path)) == len(path) && vpos(st(json, RR(json, path)))
  entry len(path) > 0 && (isobj(json, path) || isarr(json, path)) ==> cerr(json, path) == nil && cs(json, path) == RR(json, path)
  entry isobj(json, path) || isarr(json, path) ==> spanO(json, path)
  entry isobj(json, path) || isarr(json, path) ==> lo(json, path) == RR(json, path) && lo(json, path)+1 < hi(json, path) && hi(json, path) <= len(json) && json[hi(json, path)-1] == json[lo(json, path)]+2
  inv isobj(json, path) ==> mapc(mainMap) == mapkv(AK(json, path), AV(json, path), iter)
  inv isarr(json, path) ==> mapc(mainMap) == mapat(AV(json, path), iter)
  inv count == iter
  ensures bare: len(path) == 0 && (json == "{}" || json == "[]") ==> err == nil && isnil(r)
  ensures obj: isobj(json, path) && json != "{}" ==> err == nil && mapc(r) == mapkv(AK(json, path), AV(json, path), len(AK(json, path)))
  ensures arr: isarr(json, path) && json != "[]" ==> err == nil && mapc(r) == mapat(AV(json, path), len(AV(json, path)))
  ensures none: !isobj(json, path) && !isarr(json, path) ==> err != nil

// lseq(s, r): where the strings, numbers, booleans and nulls of the value at r start, in document order;
// cseq(s, u, d, n): those of the first n values of the container at u
logic lseq(s: seq, r: int): seqi
logic cseq(s: seq, u: int, d: int, n: int): seqi
axiom lseq0: forall s: seq, r: int {lseq(s, r)} :: !isopen(s[r]) ==> lseq(s, r) == unit_int(r)
axiom lseq1: forall s: seq, r: int {lseq(s, r)} :: isopen(s[r]) ==> lseq(s, r) == cseq(s, r, dp(s, r)+1, len(posof(s, r, dp(s, r)+1, len(s))))
axiom cseq0: forall s: seq, u: int, d: int, n: int {cseq(s, u, d, n)} :: n <= 0 ==> len(cseq(s, u, d, n)) == 0
axiom cseq1: forall s: seq, u: int, d: int, n: int {cseq(s, u, d, n)} :: 0 < n && n <= len(posof(s, u, d, len(s))) ==>
   cseq(s, u, d, n) == cseq(s, u, d, n-1) ++ lseq(s, posof(s, u, d, len(s))[n-1])
lemma cseqmono(s: seq, u: int, d: int, n: int, m: int)
  requires 0 <= n && n <= m && m <= len(posof(s, u, d, len(s)))
  ensures len(cseq(s, u, d, n)) <= len(cseq(s, u, d, m)) && (forall q: int {cseq(s, u, d, n)[q]} {cseq(s, u, d, m)[q]} :: 0 <= q && q < len(cseq(s, u, d, n)) ==> cseq(s, u, d, m)[q] == cseq(s, u, d, n)[q])
  case m > n ==> len(cseq(s, u, d, m-1)) <= len(cseq(s, u, d, m)) && (forall q: int {cseq(s, u, d, m)[q]} :: 0 <= q && q < len(cseq(s, u, d, m-1)) ==> cseq(s, u, d, m)[q] == cseq(s, u, d, m-1)[q])
  induction m from n
  trigger {cseq(s, u, d, n), cseq(s, u, d, m)}
lemma cseqat(s: seq, u: int, d: int, n: int, k: int)
  requires 0 <= n && n < len(posof(s, u, d, len(s))) && 0 <= k && k < len(lseq(s, posof(s, u, d, len(s))[n]))
  ensures len(cseq(s, u, d, n))+k < len(cseq(s, u, d, len(posof(s, u, d, len(s))))) && cseq(s, u, d, len(posof(s, u, d, len(s))))[len(cseq(s, u, d, n))+k] == lseq(s, posof(s, u, d, len(s))[n])[k]
  use cseqmono
  case cseq(s, u, d, n+1) == cseq(s, u, d, n) ++ lseq(s, posof(s, u, d, len(s))[n])
  case cseq(s, u, d, n+1)[len(cseq(s, u, d, n))+k] == lseq(s, posof(s, u, d, len(s))[n])[k] && len(cseq(s, u, d, n))+k < len(cseq(s, u, d, n+1))
  trigger {cseq(s, u, d, n), lseq(s, posof(s, u, d, len(s))[n])[k]}

// no object has a key twice
logic uniq(s: seq): bool
axiom uniq1: forall s: seq, u: int, d: int {uniq(s), keysof(s, u, d, len(s))} :: uniq(s) && 0 <= u && u < len(s) && incont(s, u, d) && s[u] == 123 ==> once(s, u, d)
def walked(json, path) = wf(json) && uniq(json) && RR(json, path) >= 0 && (len(path) > 0 || isopen(json[nxs(json, 0)]))
def NP(json, path) = len(posof(json, RR(json, path), len(path)+1, len(json)))
def NPO(json, path) = posof(json, RR(json, path), len(path)+1, len(json))

func walk(json, path, callback) (err)
  goeson
  calls walked(json, path) ==> ncalls < len(lseq(json, RR(json, path)))
  calls walked(json, path) ==> RR(json, arg2) == lseq(json, RR(json, path))[ncalls]
  calls walked(json, path) ==> arg1 == fn(Get, 0, json, arg2)
  calls walked(json, path) && len(arg2) > 0 ==> arg0 == arg2[len(arg2)-1]
  calls walked(json, path) ==> len(arg2) > 0
  behavior wf
  assumes walked(json, path)
  use Rpos childkey childidx cseqat poslen noquote
  entry dp(json, RR(json, path)) == len(path) && vpos(st(json, RR(json, path)))
  entry isopen(json[RR(json, path)]) ==> incont(json, RR(json, path), len(path)+1) && NP(json, path) == len(AV(json, path))
  entry isopen(json[RR(json, path)]) ==> lseq(json, RR(json, path)) == cseq(json, RR(json, path), len(path)+1, NP(json, path))
  inv json[RR(json, path)] == 123 && iter < NP(json, path) && iter < len(AK(json, path)) ==> RR(json, path ++ unit(AK(json, path)[iter])) == NPO(json, path)[iter] && RR(json, path ++ unit(AK(json, path)[iter])) > RR(json, path)
  inv json[RR(json, path)] == 91 && iter < NP(json, path) ==> RR(json, path ++ unit(itoa(iter))) == NPO(json, path)[iter] && RR(json, path ++ unit(itoa(iter))) > RR(json, path)
  inv ncalls == len(cseq(json, RR(json, path), len(path)+1, iter))
  inv iter <= NP(json, path)
  inv i == iter
  ensures done: err == nil ==> ncalls == len(lseq(json, RR(json, path)))
  ensures noerr: !stopped && json != "{}" ==> err == nil
  decreases len(json) - RR(json, path)
