// ---- errors.go: the code an error carries ------------------------------------

def digit(c) = 48 <= c && c <= 57
logic code(e: err): int = ite(e != nil && len(emsg(e)) >= 2 && digit(emsg(e)[len(emsg(e))-2]) && digit(emsg(e)[len(emsg(e))-1]), 10*(emsg(e)[len(emsg(e))-2]-48) + emsg(e)[len(emsg(e))-1]-48, 0-1)

// assumed contract of strconv.Atoi on two bytes of which the first is a digit
axiom atoi2: forall s: seq {atoiok(s)} :: len(s) == 2 && digit(s[0]) ==> (atoiok(s) <==> digit(s[1])) && (atoiok(s) ==> atoi(s) == 10*(s[0]-48) + s[1]-48)

func ErrEqual(err, code_) (r)
  ensures r == (code(err) >= 0 && code(err) == code_)

func errNullPath() (e)
  ensures e != nil && code(e) == 0
func errEmptyArray() (e)
  ensures e != nil && code(e) == 2
func errIndexExpected() (e)
  ensures e != nil && code(e) == 3
func errObjectExpected() (e)
  ensures e != nil && code(e) == 5
func errArrayExpected() (e)
  ensures e != nil && code(e) == 6
func errIndexOutOfRange() (e)
  ensures e != nil && code(e) == 7
func errKeyNotFound(k) (e)
  ensures e != nil && code(e) == 8
func errBadJSON(i) (e)
  ensures e != nil && code(e) == 9
func errKeyAlreadyExist(k) (e)
  ensures e != nil && code(e) == 11
func errIntegerParse(v) (e)
  ensures e != nil && code(e) == 12
func errFloatParse(v) (e)
  ensures e != nil && code(e) == 13
func errBoolParse(v) (e)
  ensures e != nil && code(e) == 14
func errStringArrayParse(v) (e)
  ensures e != nil && code(e) == 15
func errIntegerArrayParse(v) (e)
  ensures e != nil && code(e) == 16
func errFloatArrayParse(v) (e)
  ensures e != nil && code(e) == 17
func errBoolArrayParse(v) (e)
  ensures e != nil && code(e) == 18
func errNullKey() (e)
  ensures e != nil && code(e) == 19
func errEmpty() (e)
  ensures e != nil && code(e) == 20
