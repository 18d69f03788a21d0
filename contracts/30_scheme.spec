// ---- make.go: Scheme ---------------------------------------------------------------------
// has(v, n, k): k is among the first n elements; filt(v, n, k): the first n elements without k

logic has(v: seqs, n: int, k: seq): bool
axiom has0: forall v: seqs, k: seq {has(v, 0, k)} :: !has(v, 0, k)
axiom has1: forall v: seqs, n: int, k: seq {has(v, n, k), v[n]} :: 0 <= n && n < len(v) ==> has(v, n+1, k) == (has(v, n, k) || v[n] == k)
logic filt(v: seqs, n: int, k: seq): seqs
axiom filt0: forall v: seqs, k: seq {filt(v, 0, k)} :: len(filt(v, 0, k)) == 0
axiom filt1: forall v: seqs, n: int, k: seq {filt(v, n, k), v[n]} :: 0 <= n && n < len(v) ==> (v[n] == k ==> filt(v, n+1, k) == filt(v, n, k)) && (v[n] != k ==> filt(v, n+1, k) == filt(v, n, k) ++ unit(v[n]))

lemma hasmono(v: seqs, m: int, n: int, k: seq)
  requires 0 <= m && m <= n && n <= len(v) && has(v, m, k)
  ensures has(v, n, k)
  case n > m ==> has(v, n, k) == (has(v, n-1, k) || v[n-1] == k)
  induction n from m
  trigger {has(v, n, k), has(v, m, k)}

func MakeScheme(keys) (s)
  ensures isnew(s) && s.keys == keys && s.originalKeys == keys

func Scheme.Add(s, key) (r)
  requires s != nil
  modifies s.keys
  ensures reported: r == !has(old(s.keys), len(old(s.keys)), key)
  ensures added: r ==> s.keys == old(s.keys) ++ unit(key)
  ensures unchanged: !r ==> s.keys == old(s.keys)
  inv rangeindex < len(old(s.keys))
  inv rangeindex <= len(old(s.keys))
  inv s.keys == old(s.keys)
  inv !has(old(s.keys), rangeindex+1, key)
  use hasmono

func Scheme.Remove(s, key) (r)
  requires s != nil
  modifies s.keys
  ensures reported: r == has(old(s.keys), len(old(s.keys)), key)
  ensures removed: s.keys == filt(old(s.keys), len(old(s.keys)), key)
  inv rangeindex < len(old(s.keys))
  inv rangeindex <= len(old(s.keys))
  inv s.keys == old(s.keys)
  inv result ==> has(old(s.keys), rangeindex+1, key)
  inv !result ==> !has(old(s.keys), rangeindex+1, key)
  inv newKeys == filt(old(s.keys), rangeindex+1, key)

func Scheme.Save(s) ()
  requires s != nil
  modifies s.originalKeys
  ensures s.originalKeys == s.keys
func Scheme.Restore(s) ()
  requires s != nil
  modifies s.keys
  ensures s.keys == s.originalKeys
func Scheme.GetOriginalKeys(s) (r)
  requires s != nil
  ensures r == s.originalKeys
func Scheme.GetCurrentKeys(s) (r)
  requires s != nil
  ensures r == s.keys
func Scheme.MakeJson(s, values) (r)
  requires s != nil
  ensures len(s.keys) != len(values) ==> isnil(r)
  ensures len(s.keys) == len(values) ==> r == "{" ++ joinKA(s.keys, values, len(values)) ++ "}"
func Scheme.MakeJsonString(s, values) (r)
  requires s != nil
  ensures len(s.keys) != len(values) ==> isnil(r)
  ensures len(s.keys) == len(values) ==> r == "{" ++ joinKV(s.keys, values, len(values)) ++ "}"
