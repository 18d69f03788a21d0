// ---- utils.go: formatType ---------------------------------------------------------

// run(s,i): end of the run of decimal digits that starts at i (definition: the unique such position)
logic run(s: seq, i: int): int
axiom run0: forall s: seq, i: int {run(s, i)} :: 0 <= i && i <= len(s) ==> i <= run(s, i) && run(s, i) <= len(s) && (run(s, i) < len(s) ==> !digit(s[run(s, i)]))
axiom run1: forall s: seq, i: int, k: int {run(s, i), s[k]} :: 0 <= i && i <= k && k < run(s, i) ==> digit(s[k])

// the number grammar of JSON, part by part: each def takes the text that is left
def nT0(s) = ite(len(s) > 0 && s[0] == 45, s[1:], s)
def nFrac(t) = len(t) > 0 && t[0] == 46
def nT2(t) = ite(nFrac(t), t[1+run(t[1:], 0):], t)
def nExp(t) = len(t) > 0 && (t[0] == 101 || t[0] == 69)
def nSign(t) = ite(len(t) > 0 && (t[0] == 43 || t[0] == 45), t[1:], t)
def isint(t) = run(t, 0) > 0 && (run(t, 0) == 1 || t[0] != 48)
def okrest(t) = ite(nExp(t), run(nSign(t[1:]), 0) > 0 && run(nSign(t[1:]), 0) == len(nSign(t[1:])), len(t) == 0)
def okfrac(t) = (nFrac(t) ==> run(t[1:], 0) > 0) && okrest(nT2(t))
def isnum(s) = isint(nT0(s)) && okfrac(nT0(s)[run(nT0(s), 0):])

func isBool(val) (r)
  ensures r == (val == "true" || val == "false")

func countDigits(val) (r)
  ensures 0 <= r && r <= len(val)
  ensures r < len(val) ==> !digit(val[r])
  ensures forall k: int {val[k]} :: 0 <= k && k < r ==> digit(val[k])
  ensures r == run(val, 0)
  inv forall k: int {val[k]} :: 0 <= k && k < count ==> digit(val[k])

func isNumber(val) (r)
  ensures r == isnum(val)

def bare(s) = s == "true" || s == "false" || s == "null" || isnum(s) || len(s) > 1 && s[0] == 34 && s[len(s)-1] == 34 || len(s) > 1 && s[0] == 91 && s[len(s)-1] == 93 || len(s) > 1 && s[0] == 123 && s[len(s)-1] == 125
def fmtt(s) = ite(bare(s), s, "\"" ++ s ++ "\"")

func formatType(val) (r)
  ensures r == fmtt(val)

// ---- make.go -------------------------------------------------------------------------
// join*(v, n): the texts of the first n items, with commas between them

logic joinS(v: seqs, n: int): seq
axiom joinS0: forall v: seqs {joinS(v, 0)} :: joinS(v, 0) == ""
axiom joinS1: forall v: seqs, n: int {joinS(v, n), v[n]} :: 0 <= n && n < len(v) ==> (n == 0 ==> joinS(v, n+1) == fmtt(v[n])) && (n > 0 ==> joinS(v, n+1) == joinS(v, n) ++ "," ++ fmtt(v[n]))
logic joinI(v: seqi, n: int): seq
axiom joinI0: forall v: seqi {joinI(v, 0)} :: joinI(v, 0) == ""
axiom joinI1: forall v: seqi, n: int {joinI(v, n), v[n]} :: 0 <= n && n < len(v) ==> (n == 0 ==> joinI(v, n+1) == itoa(v[n])) && (n > 0 ==> joinI(v, n+1) == joinI(v, n) ++ "," ++ itoa(v[n]))
logic joinB(v: seqb, n: int): seq
axiom joinB0: forall v: seqb {joinB(v, 0)} :: joinB(v, 0) == ""
axiom joinB1: forall v: seqb, n: int {joinB(v, n), v[n]} :: 0 <= n && n < len(v) ==> (n == 0 ==> joinB(v, n+1) == ite(v[n], "true", "false")) && (n > 0 ==> joinB(v, n+1) == joinB(v, n) ++ "," ++ ite(v[n], "true", "false"))
logic joinF(v: seqf, n: int): seq
axiom joinF0: forall v: seqf {joinF(v, 0)} :: joinF(v, 0) == ""
axiom joinF1: forall v: seqf, n: int {joinF(v, n), v[n]} :: 0 <= n && n < len(v) ==> (n == 0 ==> joinF(v, n+1) == fmtflt(v[n])) && (n > 0 ==> joinF(v, n+1) == joinF(v, n) ++ "," ++ fmtflt(v[n]))
logic joinA(v: seqa, n: int): seq
axiom joinA0: forall v: seqa {joinA(v, 0)} :: joinA(v, 0) == ""
axiom joinA1: forall v: seqa, n: int {joinA(v, n), v[n]} :: 0 <= n && n < len(v) ==> (n == 0 ==> joinA(v, n+1) == fmtt(sprintv(v[n]))) && (n > 0 ==> joinA(v, n+1) == joinA(v, n) ++ "," ++ fmtt(sprintv(v[n])))
logic joinY(v: seqs, n: int): seq
axiom joinY0: forall v: seqs {joinY(v, 0)} :: joinY(v, 0) == ""
axiom joinY1: forall v: seqs, n: int {joinY(v, n), v[n]} :: 0 <= n && n < len(v) ==> (n == 0 ==> joinY(v, n+1) == v[n]) && (n > 0 ==> joinY(v, n+1) == joinY(v, n) ++ "," ++ v[n])
logic joinKV(k: seqs, v: seqs, n: int): seq
axiom joinKV0: forall k: seqs, v: seqs {joinKV(k, v, 0)} :: joinKV(k, v, 0) == ""
axiom joinKV1: forall k: seqs, v: seqs, n: int {joinKV(k, v, n), k[n]} :: 0 <= n && n < len(k) ==> (n == 0 ==> joinKV(k, v, n+1) == "\"" ++ k[n] ++ "\":" ++ fmtt(v[n])) && (n > 0 ==> joinKV(k, v, n+1) == joinKV(k, v, n) ++ "," ++ "\"" ++ k[n] ++ "\":" ++ fmtt(v[n]))
logic joinKA(k: seqs, v: seqa, n: int): seq
axiom joinKA0: forall k: seqs, v: seqa {joinKA(k, v, 0)} :: joinKA(k, v, 0) == ""
axiom joinKA1: forall k: seqs, v: seqa, n: int {joinKA(k, v, n), k[n]} :: 0 <= n && n < len(k) ==> (n == 0 ==> joinKA(k, v, n+1) == "\"" ++ k[n] ++ "\":" ++ fmtt(sprintv(v[n]))) && (n > 0 ==> joinKA(k, v, n+1) == joinKA(k, v, n) ++ "," ++ "\"" ++ k[n] ++ "\":" ++ fmtt(sprintv(v[n])))


func MakeEmptyArray() (r)
  ensures r == "[]" && fresh(r)
func MakeEmptyJson() (r)
  ensures r == "{}" && fresh(r)
func MakeArrayString(values) (r)
  ensures items: r == "[" ++ joinS(values, len(values)) ++ "]"
  inv rangeindex < 0 ==> js == "["
  inv rangeindex >= 0 ==> js == "[" ++ joinS(values, rangeindex+1) ++ ","
func MakeArrayInt(values) (r)
  ensures items: r == "[" ++ joinI(values, len(values)) ++ "]"
  inv rangeindex < 0 ==> js == "["
  inv rangeindex >= 0 ==> js == "[" ++ joinI(values, rangeindex+1) ++ ","
func MakeArrayBool(values) (r)
  ensures items: r == "[" ++ joinB(values, len(values)) ++ "]"
  inv rangeindex < 0 ==> js == "["
  inv rangeindex >= 0 ==> js == "[" ++ joinB(values, rangeindex+1) ++ ","
func MakeArrayFloat(values) (r)
  ensures items: r == "[" ++ joinF(values, len(values)) ++ "]"
  inv rangeindex < 0 ==> js == "["
  inv rangeindex >= 0 ==> js == "[" ++ joinF(values, rangeindex+1) ++ ","
func MakeArrayBytes(values) (r)
  ensures items: r == "[" ++ joinY(values, len(values)) ++ "]"
  inv rangeindex < 0 ==> js == "["
  inv rangeindex >= 0 ==> js == "[" ++ joinY(values, rangeindex+1) ++ ","
func MakeArray(elements) (r)
  ensures items: r == "[" ++ joinA(elements, len(elements)) ++ "]"
  inv rangeindex < 0 ==> js == "["
  inv rangeindex >= 0 ==> js == "[" ++ joinA(elements, rangeindex+1) ++ ","
func MakeJsonString(keys, values) (r)
  ensures differ: len(keys) != len(values) ==> isnil(r)
  ensures items: len(keys) == len(values) ==> r == "{" ++ joinKV(keys, values, len(keys)) ++ "}"
  inv rangeindex < 0 ==> js == "{"
  inv rangeindex >= 0 ==> js == "{" ++ joinKV(keys, values, rangeindex+1) ++ ","
func MakeJson(keys, values) (r)
  ensures differ: len(keys) != len(values) ==> isnil(r)
  ensures items: len(keys) == len(values) ==> r == "{" ++ joinKA(keys, values, len(keys)) ++ "}"
  inv rangeindex < 0 ==> js == "{"
  inv rangeindex >= 0 ==> js == "{" ++ joinKA(keys, values, rangeindex+1) ++ ","
