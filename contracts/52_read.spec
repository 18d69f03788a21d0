// ---- reading functions, arbitrary bytes -------------------------------------------------------------
func isBlank(str) (r)
  pure
  ensures r == (nxs(str, 0) >= len(str))
  inv nxs(str, rangeindex+1) == nxs(str, 0)
func cleanValueString(str) (r)
  pure
  ensures nxs(str, 0) < len(str) ==> r == trim(str)
  ensures len(str) == 0 ==> r == str
  inv nxs(str, start) == nxs(str, 0)
  inv pns(str, len(str)) <= end+1
func cleanValue(str) (r)
  pure
  ensures nxs(str, 0) < len(str) ==> r == trim(str)
  ensures len(str) == 0 ==> r == str
  inv nxs(str, start) == nxs(str, 0) && start == i
  inv nxs(str, start) == nxs(str, 0)
  inv pns(str, len(str)) <= end+1 && end == i
  inv pns(str, len(str)) <= end+1
func getStartEnd(json, path) (start, end, err)
  pure
  ensures err == nil ==> 0 <= start && start < len(json) && 0 < end && end <= len(json)
  ensures path: len(path) > 0 && len(json) >= 2 ==> err == cerr(json, path)
  ensures place: err == nil ==> start == lo(json, path) && end == hi(json, path)
  ensures short: len(json) < 2 ==> err != nil
  ensures whole: len(path) == 0 && len(json) >= 2 && nxs(json, 0) < len(json) ==> err == nil
  inv nxs(json, start) == nxs(json, 0)
  inv pns(json, len(json)) <= end+1
  inv nxs(json, 0) < len(json) ==> start <= end
func typeControlCore(json, control, equal, path) (b, start, err)
  pure
  ensures err == nil ==> 0 <= start && start < len(json)
  ensures err == nil && len(control) == 0 ==> b == !equal
  ensures err == nil && len(control) == 1 ==> b == (equal == (json[start] == control[0]))
  ensures err == nil && len(control) == 2 ==> b == (equal == (json[start] == control[0] || json[start] == control[1]))
  inv nxs(json, start) == nxs(json, 0)
  inv forall q: int {control[q]} :: 0 <= q && q <= rangeindex ==> control[q] != json[start]

  behavior wf
  assumes wf(json)
  use Rpos
  ensures found: (err == nil) == (RR(json, path) >= 0)
  ensures start: err == nil ==> start == RR(json, path)

func IsObject(json, path) (r, err)
  pure
  behavior wf
  assumes wf(json)
  ensures found: (err == nil) == (RR(json, path) >= 0)
  ensures value: err == nil ==> r == isobj(json, path)
func IsArray(json, path) (r, err)
  pure
  behavior wf
  assumes wf(json)
  ensures found: (err == nil) == (RR(json, path) >= 0)
  ensures value: err == nil ==> r == isarr(json, path)
func IsValue(json, path) (r, err)
  pure
  behavior wf
  assumes wf(json)
  ensures found: (err == nil) == (RR(json, path) >= 0)
  ensures value: err == nil ==> r == (!isobj(json, path) && !isarr(json, path))

// the text of a number, true, false or null
lemma toktrim(s: seq, r: int, e: int)
  requires wf(s) && 0 <= r && r < len(s) && spanT(s, r, e)
  ensures trim(s[r:e]) == s[r:e] && nxs(s[r:e], 0) < len(s[r:e])
  case 0 <= s[e-1] && 0 <= s[r] && r < e && e < len(s) && st(s, e) == 9
  case vpos(st(s, e-1)) || st(s, e-1) == 9
  case tok(s[e-1])
  case 0 <= s[r:e][0] && !ws(s[r:e][0])
  case len(s[r:e]) == e-r && s[r:e][e-r-1] == s[e-1]
  case nxs(s[r:e], 0) == 0 && pns(s[r:e], e-r) == e-r
  trigger {wf(s), s[r:e]}
func GetType(json, path) (r, err)
  pure
  behavior wf
  assumes wf(json)
  use Rpos toktrim
  apply GetString(json, path)
  ensures found: (err == nil) == (RR(json, path) >= 0)
  ensures array: err == nil && json[RR(json, path)] == 91 ==> r == "array"
  ensures object: err == nil && json[RR(json, path)] == 123 ==> r == "object"
  ensures string: err == nil && json[RR(json, path)] == 34 ==> r == "string"
  ensures token: err == nil && !isopen(json[RR(json, path)]) && json[RR(json, path)] != 34 && len(path) > 0 ==> r == typeOf(json[RR(json, path):RE(json, path)])
  ensures wholetoken: err == nil && !isopen(json[RR(json, path)]) && json[RR(json, path)] != 34 && len(path) == 0 ==> r == typeOf(json[nxs(json, 0):pns(json, len(json))])
def typeOf(t) = ite(t == "true" || t == "false", "boolean", ite(t == "null", "null", ite(isnum(t), "number", "string")))

func IsEmpty(json, path) (r, err)
  pure
  use nxslice
  inv nxs(json, start) == nxs(json, 0)
  inv pns(json, len(json)) <= end+1
  inv nxs(json, i) == nxs(json, start+1)
  behavior wf
  assumes wf(json)
  use Rpos rootend noquote
  apply core(json, false, path)
  entry nxs(json, 0) < len(json)
  entry isobj(json, path) || isarr(json, path) ==> spanO(json, path)
  entry isobj(json, path) || isarr(json, path) ==> lo(json, path) == RR(json, path) && lo(json, path)+1 < hi(json, path) && hi(json, path) <= len(json) && json[hi(json, path)-1] == json[lo(json, path)]+2
  entry RR(json, path) < 0 ==> len(path) > 0 && cerr(json, path) != nil
  ensures found: isobj(json, path) || isarr(json, path) ==> err == nil
  ensures empty: (isobj(json, path) || isarr(json, path)) && blank(json, path) ==> r
  ensures filled: (isobj(json, path) || isarr(json, path)) && !blank(json, path) ==> !r
  ensures none: RR(json, path) < 0 ==> err != nil

// the number of members or elements: commas at its depth plus one, unless it is blank
func Length(json, path) (r, err)
  pure
  use nxslice
  inv nxs(json, i) == nxs(json, start+1)
  behavior wf
  assumes wf(json)
  use Rpos rootend noquote closed
  apply core(json, false, path)
  entry isobj(json, path) || isarr(json, path) ==> dp(json, RR(json, path)) == len(path) && vpos(st(json, RR(json, path)))
  entry len(path) > 0 && (isobj(json, path) || isarr(json, path)) ==> cerr(json, path) == nil && cs(json, path) == RR(json, path)
  entry isobj(json, path) || isarr(json, path) ==> spanO(json, path)
  entry isobj(json, path) || isarr(json, path) ==> lo(json, path) == RR(json, path) && lo(json, path)+1 < hi(json, path) && hi(json, path) <= len(json) && json[hi(json, path)-1] == json[lo(json, path)]+2
  entry RR(json, path) < 0 ==> len(path) > 0 && cerr(json, path) != nil
  ensures found: isobj(json, path) || isarr(json, path) ==> err == nil
  ensures empty: (isobj(json, path) || isarr(json, path)) && blank(json, path) ==> r == 0
  ensures filled: (isobj(json, path) || isarr(json, path)) && !blank(json, path) ==> r == cx(json, hi(json, path)-1, len(path)+1)+1
  inv isopen(json[RR(json, path)]) ==> i <= end
  inv isopen(json[RR(json, path)]) ==> length == 0 || nxs(json, start+1) < i && nxs(json, start+1) < end-1
  ensures none: RR(json, path) < 0 ==> err != nil
  inv isopen(json[RR(json, path)]) ==> start == RR(json, path) && end == hi(json, path)
  inv isopen(json[RR(json, path)]) ==> level == dp(json, i) - len(path)
  inv isopen(json[RR(json, path)]) ==> inQuote == instr(st(json, i))
  inv isopen(json[RR(json, path)]) && i > start && i < end ==> dp(json, i) > len(path) && op(json, i, len(path)+1) == start
  inv isopen(json[RR(json, path)]) ==> length == ite(i > start, cx(json, i, len(path)+1), 0)
  inv bsl(json, i) >= i-1-n
  inv isJSONChar[34] && isJSONChar[91] && isJSONChar[93] && isJSONChar[123] && isJSONChar[125]
  inv isJSONChar[44]
  inv rangeindex >= 0 ==> isJSONChar[34]
  inv rangeindex >= 1 ==> isJSONChar[44]
  inv rangeindex >= 2 ==> isJSONChar[91]
  inv rangeindex >= 3 ==> isJSONChar[93]
  inv rangeindex >= 4 ==> isJSONChar[123]
  inv rangeindex >= 5 ==> isJSONChar[125]

func GetKeys(json, path) (r, err)
  pure
  inv nxs(json, start) == nxs(json, 0)
  behavior wf
  assumes wf(json)
  use Rpos valsdone keysdone keylen vtext noquote
  apply core(json, true, path)
  entry nxs(json, 0) < len(json)
  entry RR(json, path) >= 0 ==> dp(json, RR(json, path)) == len(path) && vpos(st(json, RR(json, path)))
  ensures none: !isobj(json, path) ==> err != nil
  ensures bare: json == "{}" ==> code(err) == 20
  ensures found: isobj(json, path) && json != "{}" ==> err == nil
  ensures keys: isobj(json, path) && json != "{}" ==> r == keysof(json, RR(json, path), len(path)+1, len(json))
  inv bsl(json, i) >= i-1-n
  inv isJSONChar[34] && isJSONChar[91] && isJSONChar[93] && isJSONChar[123] && isJSONChar[125]
  inv isJSONChar[44]
  inv isJSONChar[58]
  inv rangeindex >= 0 ==> isJSONChar[34]
  inv rangeindex >= 1 ==> isJSONChar[44]
  inv rangeindex >= 2 ==> isJSONChar[58]
  inv rangeindex >= 3 ==> isJSONChar[91]
  inv rangeindex >= 4 ==> isJSONChar[93]
  inv rangeindex >= 5 ==> isJSONChar[123]
  inv rangeindex >= 6 ==> isJSONChar[125]
  inv RR(json, path) >= 0 && json[RR(json, path)] == 123
  inv i <= len(json)
  inv i == RR(json, path) ==> level == 0 && !inQuote
  inv i >= RR(json, path) && level == dp(json, i) - len(path)
  inv inQuote == instr(st(json, i))
  inv i > RR(json, path) ==> dp(json, i) > len(path) && op(json, i, len(path)+1) == RR(json, path)
  inv i > RR(json, path) && inkey(st(json, i)) ==> keyStart+1 == ks(json, i)
  inv i > RR(json, path) && st(json, i) == 4 ==> keyStart+1 == ks(json, i) && keyEnd == ke(json, i)
  inv i <= RR(json, path)+1 ==> len(keys) == 0
  inv i > RR(json, path) ==> keys == keysof(json, RR(json, path), len(path)+1, i)

func GetValues(json, path) (r, err)
  pure
  inv nxs(json, start) == nxs(json, 0)
  behavior wf
  assumes wf(json)
  use Rpos valsdone keysdone keylen vtext noquote
  apply core(json, true, path)
  entry nxs(json, 0) < len(json)
  entry RR(json, path) >= 0 ==> dp(json, RR(json, path)) == len(path) && vpos(st(json, RR(json, path)))
  ensures none: !isobj(json, path) ==> err != nil
  ensures bare: json == "{}" ==> code(err) == 20
  ensures found: isobj(json, path) && json != "{}" ==> err == nil
  ensures values: isobj(json, path) && json != "{}" ==> r == valsof(json, RR(json, path), len(path)+1, len(json))
  inv bsl(json, i) >= i-1-n
  inv isJSONChar[34] && isJSONChar[91] && isJSONChar[93] && isJSONChar[123] && isJSONChar[125]
  inv isJSONChar[44]
  inv isJSONChar[58]
  inv rangeindex >= 0 ==> isJSONChar[34]
  inv rangeindex >= 1 ==> isJSONChar[44]
  inv rangeindex >= 2 ==> isJSONChar[58]
  inv rangeindex >= 3 ==> isJSONChar[91]
  inv rangeindex >= 4 ==> isJSONChar[93]
  inv rangeindex >= 5 ==> isJSONChar[123]
  inv rangeindex >= 6 ==> isJSONChar[125]
  inv RR(json, path) >= 0 && json[RR(json, path)] == 123
  inv i <= len(json)
  inv i == RR(json, path) ==> level == 0 && !inQuote
  inv i >= RR(json, path) && level == dp(json, i) - len(path)
  inv inQuote == instr(st(json, i))
  inv i > RR(json, path) ==> dp(json, i) > len(path) && op(json, i, len(path)+1) == RR(json, path)
  inv i <= RR(json, path)+1 ==> len(values) == 0
  inv i > RR(json, path) ==> values == valsof(json, RR(json, path), len(path)+1, i)
  inv start >= RR(json, path)
  inv start == first ==> i == first || dp(json, i) == len(path)+1 && 2 <= st(json, i) && (st(json, i) == 2 || st(json, i) == 4 || inkey(st(json, i)))
  inv first == RR(json, path)
  inv start != first ==> start == vb(json, RR(json, path), len(path)+1, i) && i > RR(json, path)
  inv start != first && dp(json, i) == len(path)+1 ==> st(json, i) != 2 && st(json, i) != 1

func GetKeysValues(json, path) (r, v, err)
  pure
  inv nxs(json, start) == nxs(json, 0)
  behavior wf
  assumes wf(json)
  use Rpos valsdone keysdone keylen vtext noquote
  apply core(json, true, path)
  entry nxs(json, 0) < len(json)
  entry RR(json, path) >= 0 ==> dp(json, RR(json, path)) == len(path) && vpos(st(json, RR(json, path)))
  ensures none: !isobj(json, path) ==> err != nil
  ensures bare: json == "{}" ==> code(err) == 20
  ensures found: isobj(json, path) && json != "{}" ==> err == nil
  ensures keys: isobj(json, path) && json != "{}" ==> r == keysof(json, RR(json, path), len(path)+1, len(json))
  ensures values: isobj(json, path) && json != "{}" ==> v == valsof(json, RR(json, path), len(path)+1, len(json))
  inv bsl(json, i) >= i-1-n
  inv isJSONChar[34] && isJSONChar[91] && isJSONChar[93] && isJSONChar[123] && isJSONChar[125]
  inv isJSONChar[44]
  inv isJSONChar[58]
  inv rangeindex >= 0 ==> isJSONChar[34]
  inv rangeindex >= 1 ==> isJSONChar[44]
  inv rangeindex >= 2 ==> isJSONChar[58]
  inv rangeindex >= 3 ==> isJSONChar[91]
  inv rangeindex >= 4 ==> isJSONChar[93]
  inv rangeindex >= 5 ==> isJSONChar[123]
  inv rangeindex >= 6 ==> isJSONChar[125]
  inv RR(json, path) >= 0 && json[RR(json, path)] == 123
  inv i <= len(json)
  inv i == RR(json, path) ==> level == 0 && !inQuote
  inv i >= RR(json, path) && level == dp(json, i) - len(path)
  inv inQuote == instr(st(json, i))
  inv i > RR(json, path) ==> dp(json, i) > len(path) && op(json, i, len(path)+1) == RR(json, path)
  inv i > RR(json, path) && inkey(st(json, i)) ==> keyStart+1 == ks(json, i)
  inv i > RR(json, path) && st(json, i) == 4 ==> keyStart+1 == ks(json, i) && keyEnd == ke(json, i)
  inv i <= RR(json, path)+1 ==> len(keys) == 0
  inv i > RR(json, path) ==> keys == keysof(json, RR(json, path), len(path)+1, i)
  inv i <= RR(json, path)+1 ==> len(values) == 0
  inv i > RR(json, path) ==> values == valsof(json, RR(json, path), len(path)+1, i)
  inv len(keys) == 0 ==> i == RR(json, path) || dp(json, i) == len(path)+1 && 2 <= st(json, i) && (st(json, i) == 2 || st(json, i) == 4 || inkey(st(json, i)))
  inv len(keys) > 0 ==> start == vb(json, RR(json, path), len(path)+1, i) && i > RR(json, path)
  inv len(keys) > 0 && dp(json, i) == len(path)+1 ==> st(json, i) != 2 && st(json, i) != 1
  inv len(keys) == 0 ==> start == RR(json, path)

def AV(json, path) = valsof(json, RR(json, path), len(path)+1, len(json))
def AK(json, path) = keysof(json, RR(json, path), len(path)+1, len(json))
def GS(json, path) = fn(GetString, 0, json, path)
def barearr(json, path) = isarr(json, path) && (len(path) == 0 ==> json[0] == 91 && json[len(json)-1] == 93)
func GetStringArray(json, path) (r, err)
  pure
  behavior wf
  assumes wf(json)
  use Rpos innerC subvals valsdone
  apply GetString(json, path)
  entry len(path) > 0 && isarr(json, path) ==> spanC(json, RR(json, path), RE(json, path)) && vpos(st(json, RR(json, path)))
  entry len(path) > 0 && isarr(json, path) ==> wf(json[RR(json, path):RE(json, path)]) && json[RR(json, path):RE(json, path)][0] == 91 && inner(json, RR(json, path), RE(json, path), RE(json, path))
  entry len(path) > 0 && isarr(json, path) ==> valsof(json, RR(json, path), len(path)+1, RE(json, path)) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry len(path) > 0 && isarr(json, path) ==> valsof(json[RR(json, path):RE(json, path)], 0, 1, RE(json, path)-RR(json, path)) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry barearr(json, path) && len(path) == 0 ==> RR(json, path) == 0 && len(json) >= 2
  entry len(path) > 0 && isarr(json, path) ==> fn(GetString, 0, json, path) == json[RR(json, path):RE(json, path)]
  ensures none: RR(json, path) < 0 ==> err != nil
  ensures list: barearr(json, path) ==> err == nil && r == valsof(json, RR(json, path), len(path)+1, len(json))
func GetIntArray(json, path) (r, err)
  pure
  inv start <= i || (i == 0 && start == 1)
  behavior wf
  assumes wf(json)
  use Rpos innerC subvals valsdone vtext valsmono valsat
  apply GetString(json, path)
  entry len(path) > 0 && isarr(json, path) ==> spanC(json, RR(json, path), RE(json, path)) && vpos(st(json, RR(json, path)))
  entry len(path) > 0 && isarr(json, path) ==> wf(json[RR(json, path):RE(json, path)]) && json[RR(json, path):RE(json, path)][0] == 91 && inner(json, RR(json, path), RE(json, path), RE(json, path))
  entry len(path) > 0 && isarr(json, path) ==> valsof(json, RR(json, path), len(path)+1, RE(json, path)) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry len(path) > 0 && isarr(json, path) ==> valsof(json[RR(json, path):RE(json, path)], 0, 1, RE(json, path)-RR(json, path)) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry barearr(json, path) && len(path) == 0 ==> RR(json, path) == 0 && len(json) >= 2
  entry len(path) > 0 && isarr(json, path) ==> GS(json, path) == json[RR(json, path):RE(json, path)]
  entry barearr(json, path) ==> wf(GS(json, path)) && GS(json, path)[0] == 91 && len(GS(json, path)) >= 2 && GS(json, path)[len(GS(json, path))-1] == 93
  entry barearr(json, path) ==> valsof(GS(json, path), 0, 1, len(GS(json, path))) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry barearr(json, path) ==> st(GS(json, path), 0) == 0 && dp(GS(json, path), 0) == 0
  entry barearr(json, path) ==> st(GS(json, path), 1) == 1 && dp(GS(json, path), 1) == 1 && op(GS(json, path), 1, 1) == 0
  ensures none: RR(json, path) < 0 ==> err != nil
  ensures list: barearr(json, path) && allints(valsof(json, RR(json, path), len(path)+1, len(json))) ==> err == nil && r == ints(valsof(json, RR(json, path), len(path)+1, len(json)))
  ensures bad: barearr(json, path) && !allints(valsof(json, RR(json, path), len(path)+1, len(json))) ==> code(err) == 12
  inv barearr(json, path) ==> i <= len(val) && !esc(st(val, i))
  inv barearr(json, path) ==> level == dp(val, i)
  inv barearr(json, path) ==> inQuote == instr(st(val, i))
  inv barearr(json, path) && i > 0 ==> dp(val, i) >= 1 && op(val, i, 1) == 0
  inv barearr(json, path) && i > 0 ==> newArray == ints(valsof(val, 0, 1, i)) && allints(valsof(val, 0, 1, i))
  inv i == 0 ==> len(newArray) == 0 && start == 1
  inv barearr(json, path) && i > 0 ==> start == vb(val, 0, 1, i)
  inv barearr(json, path) && dp(val, i) == 1 && st(val, i) == 1 ==> len(newArray) == 0 && i <= nxs(val, 1) && start == 1
func GetFloatArray(json, path) (r, err)
  pure
  inv start <= i || (i == 0 && start == 1)
  behavior wf
  assumes wf(json)
  use Rpos innerC subvals valsdone vtext valsmono valsat
  apply GetString(json, path)
  entry len(path) > 0 && isarr(json, path) ==> spanC(json, RR(json, path), RE(json, path)) && vpos(st(json, RR(json, path)))
  entry len(path) > 0 && isarr(json, path) ==> wf(json[RR(json, path):RE(json, path)]) && json[RR(json, path):RE(json, path)][0] == 91 && inner(json, RR(json, path), RE(json, path), RE(json, path))
  entry len(path) > 0 && isarr(json, path) ==> valsof(json, RR(json, path), len(path)+1, RE(json, path)) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry len(path) > 0 && isarr(json, path) ==> valsof(json[RR(json, path):RE(json, path)], 0, 1, RE(json, path)-RR(json, path)) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry barearr(json, path) && len(path) == 0 ==> RR(json, path) == 0 && len(json) >= 2
  entry len(path) > 0 && isarr(json, path) ==> GS(json, path) == json[RR(json, path):RE(json, path)]
  entry barearr(json, path) ==> wf(GS(json, path)) && GS(json, path)[0] == 91 && len(GS(json, path)) >= 2 && GS(json, path)[len(GS(json, path))-1] == 93
  entry barearr(json, path) ==> valsof(GS(json, path), 0, 1, len(GS(json, path))) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry barearr(json, path) ==> st(GS(json, path), 0) == 0 && dp(GS(json, path), 0) == 0
  entry barearr(json, path) ==> st(GS(json, path), 1) == 1 && dp(GS(json, path), 1) == 1 && op(GS(json, path), 1, 1) == 0
  ensures none: RR(json, path) < 0 ==> err != nil
  ensures list: barearr(json, path) && allflts(valsof(json, RR(json, path), len(path)+1, len(json))) ==> err == nil && r == flts(valsof(json, RR(json, path), len(path)+1, len(json)))
  ensures bad: barearr(json, path) && !allflts(valsof(json, RR(json, path), len(path)+1, len(json))) ==> code(err) == 13
  inv barearr(json, path) ==> i <= len(val) && !esc(st(val, i))
  inv barearr(json, path) ==> level == dp(val, i)
  inv barearr(json, path) ==> inQuote == instr(st(val, i))
  inv barearr(json, path) && i > 0 ==> dp(val, i) >= 1 && op(val, i, 1) == 0
  inv barearr(json, path) && i > 0 ==> newArray == flts(valsof(val, 0, 1, i)) && allflts(valsof(val, 0, 1, i))
  inv i == 0 ==> len(newArray) == 0 && start == 1
  inv barearr(json, path) && i > 0 ==> start == vb(val, 0, 1, i)
  inv barearr(json, path) && dp(val, i) == 1 && st(val, i) == 1 ==> len(newArray) == 0 && i <= nxs(val, 1) && start == 1
func GetBoolArray(json, path) (r, err)
  pure
  inv start <= i || (i == 0 && start == 1)
  behavior wf
  assumes wf(json)
  use Rpos innerC subvals valsdone vtext valsmono valsat
  apply GetString(json, path)
  entry len(path) > 0 && isarr(json, path) ==> spanC(json, RR(json, path), RE(json, path)) && vpos(st(json, RR(json, path)))
  entry len(path) > 0 && isarr(json, path) ==> wf(json[RR(json, path):RE(json, path)]) && json[RR(json, path):RE(json, path)][0] == 91 && inner(json, RR(json, path), RE(json, path), RE(json, path))
  entry len(path) > 0 && isarr(json, path) ==> valsof(json, RR(json, path), len(path)+1, RE(json, path)) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry len(path) > 0 && isarr(json, path) ==> valsof(json[RR(json, path):RE(json, path)], 0, 1, RE(json, path)-RR(json, path)) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry barearr(json, path) && len(path) == 0 ==> RR(json, path) == 0 && len(json) >= 2
  entry len(path) > 0 && isarr(json, path) ==> GS(json, path) == json[RR(json, path):RE(json, path)]
  entry barearr(json, path) ==> wf(GS(json, path)) && GS(json, path)[0] == 91 && len(GS(json, path)) >= 2 && GS(json, path)[len(GS(json, path))-1] == 93
  entry barearr(json, path) ==> valsof(GS(json, path), 0, 1, len(GS(json, path))) == valsof(json, RR(json, path), len(path)+1, len(json))
  entry barearr(json, path) ==> st(GS(json, path), 0) == 0 && dp(GS(json, path), 0) == 0
  entry barearr(json, path) ==> st(GS(json, path), 1) == 1 && dp(GS(json, path), 1) == 1 && op(GS(json, path), 1, 1) == 0
  ensures none: RR(json, path) < 0 ==> err != nil
  ensures list: barearr(json, path) && allbools(valsof(json, RR(json, path), len(path)+1, len(json))) ==> err == nil && r == bools(valsof(json, RR(json, path), len(path)+1, len(json)))
  ensures bad: barearr(json, path) && !allbools(valsof(json, RR(json, path), len(path)+1, len(json))) ==> code(err) == 14
  inv barearr(json, path) ==> i <= len(val) && !esc(st(val, i))
  inv barearr(json, path) ==> level == dp(val, i)
  inv barearr(json, path) ==> inQuote == instr(st(val, i))
  inv barearr(json, path) && i > 0 ==> dp(val, i) >= 1 && op(val, i, 1) == 0
  inv barearr(json, path) && i > 0 ==> newArray == bools(valsof(val, 0, 1, i)) && allbools(valsof(val, 0, 1, i))
  inv i == 0 ==> len(newArray) == 0 && start == 1
  inv barearr(json, path) && i > 0 ==> start == vb(val, 0, 1, i)
  inv barearr(json, path) && dp(val, i) == 1 && st(val, i) == 1 ==> len(newArray) == 0 && i <= nxs(val, 1) && start == 1
// the lookups of path ++ keys[q]: how many of the first n keys succeed before the first that fails
def gv(json, keys, path, q) = fn(GetString, 0, json, path ++ unit(keys[q]))
def ge(json, keys, path, q) = fn(GetString, 1, json, path ++ unit(keys[q]))
logic got(s: seq, z: bool, keys: seqs, path: seqs, n: int): int
axiom got0: forall s: seq, z: bool, keys: seqs, path: seqs, n: int {got(s, z, keys, path, n)} :: n <= 0 ==> got(s, z, keys, path, n) == 0
axiom got1: forall s: seq, z: bool, keys: seqs, path: seqs, n: int {got(s, z, keys, path, n)} :: 0 < n && n <= len(keys) ==>
   (got(s, z, keys, path, n-1) == n-1 && ge(nilif(s, z), keys, path, n-1) == nil ==> got(s, z, keys, path, n) == n) && (!(got(s, z, keys, path, n-1) == n-1 && ge(nilif(s, z), keys, path, n-1) == nil) ==> got(s, z, keys, path, n) == got(s, z, keys, path, n-1))
lemma gotmax(s: seq, z: bool, keys: seqs, path: seqs, n: int, m: int)
  requires 0 <= n && n <= m && m <= len(keys) && got(s, z, keys, path, n) < n
  ensures got(s, z, keys, path, m) == got(s, z, keys, path, n)
  induction m from n
  trigger {got(s, z, keys, path, n), got(s, z, keys, path, m)}
lemma gotstop(s: seq, z: bool, keys: seqs, path: seqs, n: int)
  requires 0 <= n && n < len(keys) && got(s, z, keys, path, n) == n && ge(nilif(s, z), keys, path, n) != nil
  ensures got(s, z, keys, path, len(keys)) == n
  use gotmax
  case got(s, z, keys, path, n+1) == n
  trigger {got(s, z, keys, path, n)}

func GetAll(json, keys, path) (r, err)
  pure
  inv len(results) == rangeindex+1 && got(json, isnil(json), keys, path, rangeindex+1) == rangeindex+1
  inv forall q: int {results[q]} :: 0 <= q && q <= rangeindex ==> results[q] == gv(json, keys, path, q)
  inv rangeindex+1 <= len(keys)
  use gotstop
  ensures ok: (err == nil) == (got(json, isnil(json), keys, path, len(keys)) == len(keys))
  ensures all: err == nil ==> len(r) == len(keys) && (forall q: int {r[q]} :: 0 <= q && q < len(keys) ==> r[q] == gv(json, keys, path, q))
  ensures first: err != nil ==> isnil(r) && err == ge(json, keys, path, got(json, isnil(json), keys, path, len(keys)))
func ParseArray(arr) (r)
  pure
  inv start <= i || (i == 0 && start == 1)
  behavior wf
  assumes wf(arr) && arr[0] == 91
  use valsdone vtext rootend
  entry st(arr, 0) == 0 && dp(arr, 0) == 0
  entry st(arr, 1) == 1 && dp(arr, 1) == 1 && op(arr, 1, 1) == 0
  entry len(valsof(arr, 0, 1, 1)) == 0 && 0 <= arr[1]
  ensures list: arr[len(arr)-1] == 93 ==> r == valsof(arr, 0, 1, len(arr))
  ensures there: arr[len(arr)-1] == 93 ==> !isnil(r)
  inv i <= len(arr) && !esc(st(arr, i))
  inv level == dp(arr, i)
  inv inQuote == instr(st(arr, i))
  inv i > 0 ==> dp(arr, i) >= 1 && op(arr, i, 1) == 0
  inv i > 0 ==> newArray == valsof(arr, 0, 1, i)
  inv i == 0 ==> len(newArray) == 0 && start == 1
  inv i > 0 ==> start == vb(arr, 0, 1, i)
  inv dp(arr, i) == 1 && st(arr, i) == 1 ==> len(newArray) == 0 && i <= nxs(arr, 1) && start == 1
func IterateArray(json, callback, path) (err)
  calls wf(json) && isarr(json, path) ==> ncalls < len(AV(json, path)) && arg0 == AV(json, path)[ncalls]
  behavior wf
  assumes wf(json)
  use Rpos valsdone vtext valsat noquote
  apply core(json, true, path)
  entry nxs(json, 0) < len(json)
  entry json == "[]" ==> json[0] == 91 && json[1] == 93 && nxs(json, 0) == 0 && st(json, 0) == 0 && st(json, 1) == 1 && dp(json, 1) == 1 && R(json, path, 0) == 0
  entry json == "[]" && len(path) == 0 ==> len(valsof(json, 0, 1, 1)) == 0 && len(valsof(json, 0, 1, 2)) == 0
  entry RR(json, path) >= 0 ==> dp(json, RR(json, path)) == len(path) && vpos(st(json, RR(json, path)))
  ensures none: !isarr(json, path) ==> err != nil && ncalls == 0
  ensures all: isarr(json, path) ==> stopped || ncalls == len(AV(json, path))
  ensures result: isarr(json, path) ==> err == cberr
  inv bsl(json, i) >= i-1-k
  inv nxs(json, start) == nxs(json, 0)
  inv isJSONChar[34] && isJSONChar[91] && isJSONChar[93] && isJSONChar[123] && isJSONChar[125]
  inv isJSONChar[44]
  inv rangeindex >= 0 ==> isJSONChar[34]
  inv rangeindex >= 1 ==> isJSONChar[44]
  inv rangeindex >= 2 ==> isJSONChar[91]
  inv rangeindex >= 3 ==> isJSONChar[93]
  inv rangeindex >= 4 ==> isJSONChar[123]
  inv rangeindex >= 5 ==> isJSONChar[125]
  inv RR(json, path) >= 0 && json[RR(json, path)] == 91
  inv RR(json, path) < i && i <= len(json)
  inv level == dp(json, i) - len(path) - 1
  inv inQuote == instr(st(json, i))
  inv dp(json, i) > len(path) && op(json, i, len(path)+1) == RR(json, path)
  inv ncalls == len(valsof(json, RR(json, path), len(path)+1, i))
  inv start == vb(json, RR(json, path), len(path)+1, i)
  inv first == RR(json, path)+1
  inv dp(json, i) == len(path)+1 && st(json, i) == 1 ==> start == first && i <= nxs(json, start)
  inv !stopped && cberr == nil
  inv ncalls == 0

func IterateKeyValue(json, callback, path) (err)
  inv start <= i
  inv nxs(json, start) < i && json[nxs(json, start)] == 34 && !inQuote ==> nxs(json, start) < keyEnd && keyEnd < i && json[keyEnd] == 34
  inv nxs(json, start) < i && json[nxs(json, start)] == 34 && inQuote ==> nxs(json, start) <= keyStart && keyStart < i
  inv i <= nxs(json, start) ==> !inQuote && nxs(json, i) == nxs(json, start)
  inv nxs(json, j) == nxs(json, start)
  inv start <= keyEnd && keyEnd < i && json[keyEnd] == 34 ==> keyEnd <= j
  calls wf(json) && isobj(json, path) ==> ncalls < len(AK(json, path)) && arg0 == AK(json, path)[ncalls]
  calls wf(json) && isobj(json, path) ==> ncalls < len(AV(json, path)) && arg1 == AV(json, path)[ncalls]
  behavior wf
  assumes wf(json)
  use Rpos valsdone keysdone keylen vtrim valsat keysmono noquote
  apply core(json, true, path)
  entry nxs(json, 0) < len(json)
  entry RR(json, path) >= 0 ==> dp(json, RR(json, path)) == len(path) && vpos(st(json, RR(json, path)))
  ensures none: !isobj(json, path) ==> err != nil && ncalls == 0
  ensures bare: json == "{}" ==> code(err) == 20 && ncalls == 0
  ensures all: isobj(json, path) && json != "{}" ==> stopped || ncalls == len(AK(json, path)) && ncalls == len(AV(json, path))
  ensures result: isobj(json, path) && json != "{}" ==> err == cberr
  inv bsl(json, i) >= i-1-n
  inv isJSONChar[34] && isJSONChar[91] && isJSONChar[93] && isJSONChar[123] && isJSONChar[125]
  inv isJSONChar[44]
  inv isJSONChar[58]
  inv rangeindex >= 0 ==> isJSONChar[34]
  inv rangeindex >= 1 ==> isJSONChar[44]
  inv rangeindex >= 2 ==> isJSONChar[58]
  inv rangeindex >= 3 ==> isJSONChar[91]
  inv rangeindex >= 4 ==> isJSONChar[93]
  inv rangeindex >= 5 ==> isJSONChar[123]
  inv rangeindex >= 6 ==> isJSONChar[125]
  inv RR(json, path) >= 0 && json[RR(json, path)] == 123
  inv RR(json, path) <= i && i <= len(json)
  inv i == RR(json, path) ==> level == 0 && !inQuote && ncalls == 0 && isnil(key)
  inv level == dp(json, i) - len(path)
  inv inQuote == instr(st(json, i))
  inv i > RR(json, path) ==> dp(json, i) > len(path) && op(json, i, len(path)+1) == RR(json, path)
  inv i > RR(json, path) && inkey(st(json, i)) ==> keyStart+1 == ks(json, i)
  inv i > RR(json, path) && st(json, i) == 4 ==> keyStart+1 == ks(json, i) && keyEnd == ke(json, i)
  inv i > RR(json, path) ==> ncalls == len(valsof(json, RR(json, path), len(path)+1, i))
  inv i > RR(json, path) && dp(json, i) == len(path)+1 && (st(json, i) == 2 || st(json, i) == 3 || st(json, i) == 4 || inkey(st(json, i))) ==> len(keysof(json, RR(json, path), len(path)+1, i)) == ncalls
  inv i > RR(json, path) && dp(json, i) == len(path)+1 && st(json, i) == 2 ==> isnil(key)
  inv i > RR(json, path) && isnil(key) ==> dp(json, i) == len(path)+1 && (st(json, i) == 2 || st(json, i) == 3 || st(json, i) == 4 || inkey(st(json, i)))
  inv i > RR(json, path) && !(dp(json, i) == len(path)+1 && (st(json, i) == 2 || st(json, i) == 3 || st(json, i) == 4 || inkey(st(json, i)))) ==> len(keysof(json, RR(json, path), len(path)+1, i)) == ncalls+1 && key == keysof(json, RR(json, path), len(path)+1, i)[ncalls]
  inv i > RR(json, path) && !(dp(json, i) == len(path)+1 && (st(json, i) == 2 || st(json, i) == 3 || st(json, i) == 4 || inkey(st(json, i)))) ==> start == vb(json, RR(json, path), len(path)+1, i)
  inv !stopped && cberr == nil
  inv ncalls == 0
  inv pns(json, i) <= j+1
  inv nxs(json, start) == nxs(json, 0)
  inv nxs(json, start) == nxs(json, vb(json, RR(json, path), len(path)+1, i))
  inv start == nxs(json, vb(json, RR(json, path), len(path)+1, i))
