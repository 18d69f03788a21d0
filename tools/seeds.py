seed("S01","C01",[("inter_core.go","if (j-1-n)%2 == 0 {","if n == j-1 {")],r'''
doc := []byte(`{"a":"x\\","b":{"c":1},"d":2}`)
v, err := jin.Get(doc, "d")
expect("Get d", string(v)+fmt.Sprint(err), "2<nil>")
''',"a skipped string value that ends in an even number of backslashes, before the wanted key","the in-string flag of the value skipping loop is not cleared at the closing quote")
seed("S03","C03",[("inter_set.go","""	if json[start-1] == 34 && json[end] == 34 {
		return replace(json, newValue, start-1, end+1), nil
	}
	return replace(json, newValue, start, end), nil
}

// SetString""","""	if json[start-1] == 34 && json[end] == 34 && len(newValue) > 0 && newValue[0] != 45 {
		return replace(json, newValue, start-1, end+1), nil
	}
	return replace(json, newValue, start, end), nil
}

// SetString""")],r'''
out, err := jin.Set([]byte(`{"a":"x","b":1}`), []byte(`-5`), "a")
expect("Set", string(out)+fmt.Sprint(err), `{"a":-5,"b":1}<nil>`)
''',"a string value overwritten by a negative number","the quotes of the old string stay around the new value")
seed("S04","C09",[("utils.go","	newJSON := make([]byte, 0, len(json)-end+start+len(newValue))\n	newJSON = append(newJSON, json[:start]...)\n","	if len(newValue) == end-start && end-start < 3 {\n		copy(json[start:end], newValue)\n		return json\n	}\n	newJSON := make([]byte, 0, len(json)-end+start+len(newValue))\n	newJSON = append(newJSON, json[:start]...)\n")],r'''
in := []byte(`{"a":10}`)
out, err := jin.Set(in, []byte(`42`), "a")
expect("Set", string(out)+fmt.Sprint(err), `{"a":42}<nil>`)
expect("argument", string(in), `{"a":10}`)
''',"a replacement of exactly the old value's length","the caller's document is overwritten in place")
seed("S05","C05",[("inter_add.go","""	if json[start] == 123 && json[end-1] == 125 && !(start > 0 && json[start-1] == 34) {
		empty := true
		for i := start + 1; i < end-1; i++ {
			if !space(json[i]) {
""","""	if json[start] == 123 && json[end-1] == 125 && !(start > 0 && json[start-1] == 34) {
		empty := true
		for i := start + 1; i < end-1; i++ {
			if json[i] > 32 && json[i] != 58 {
				break
			}
			if json[i] == 10 {
""")],r'''
out, err := jin.AddKeyValue([]byte("{\"o\":{\n},\"z\":1}"), "k", []byte(`1`), "o")
expect("AddKeyValue", string(out)+fmt.Sprint(err), "{\"o\":{\n\"k\":1},\"z\":1}<nil>")
out, err = jin.AddKeyValue([]byte("{\"o\":{\"q\":2}}"), "k", []byte(`1`), "o")
expect("AddKeyValue", string(out)+fmt.Sprint(err), "{\"o\":{\"q\":2,\"k\":1}}<nil>")
''',"placeholder","placeholder")
S.pop()
seed("S05","C05",[("inter_add.go","""		_, _, _, err = core(json, false, path...)
		if err != nil {
			if ErrEqual(err, ErrCodeKeyNotFound) {
				val := []byte(`,"` + key""","""		_, _, _, err = core(json[:end], false, path...)
		if err != nil {
			if ErrEqual(err, ErrCodeKeyNotFound) || ErrEqual(err, ErrCodeBadJSON) {
				val := []byte(`,"` + key""")],r'''
out, err := jin.AddKeyValue([]byte(`{"a":{"k":[]},"b":1}`), "k", []byte(`1`), "a")
expect("AddKeyValue", string(out)+fmt.Sprint(err != nil), `{"a":{"k":[]},"b":1}true`)
doc := []byte(`{"o":{"k":"v\\"}}`)
out, err = jin.AddKeyValue(doc[:len(doc)-1], "k", []byte(`1`))
expect("AddKeyValue", fmt.Sprint(err != nil), "true")
''',"placeholder","placeholder")
S.pop()
seed("S05","C05",[("inter_add.go","""		for i := len(json) - 1; i > -1; i-- {
			if !space(json[i]) {
				if json[i] == 125 {
					end = i + 1
""","""		for i := len(json) - 1; i > -1; i-- {
			if !space(json[i]) {
				if json[i] == 125 {
					end = len(json)
""")],r'''
out, err := jin.AddKeyValue([]byte("{\"a\":1}\n"), "k", []byte(`2`))
expect("AddKeyValue", string(out)+fmt.Sprint(err), "{\"a\":1,\"k\":2}\n<nil>")
''',"an empty path and white space after the top level object","the object's end is taken to be the end of the document, so a valid edit is refused")
seed("S06","C06",[("inter_add.go","""	if json[start-1] == 34 {
		start--
	}
	val := make([]byte, 0, len(value)+1)""","""	if json[start-1] == 34 && json[start] != 34 {
		start--
	}
	val := make([]byte, 0, len(value)+1)""")],r'''
out, err := jin.Insert([]byte(`["x",""]`), 1, []byte(`7`))
expect("Insert", string(out)+fmt.Sprint(err), `["x",7,""]<nil>`)
''',"inserting before an element that is the empty string","the value is written between the two quotes of the empty string")
seed("S07","C07",[("inter_delete.go","""	for i := start - 1; i > 0; i-- {
		if !space(json[i]) {""","""	for i := start - 1; i > 0; i-- {
		if json[i] > 32 || json[i] == 9 {""")],r'''
out, err := jin.Delete([]byte("[1,\t2]"), "1")
expect("Delete", string(out)+fmt.Sprint(err), "[1]<nil>")
''',"deleting the last element when a tab stands between it and the comma","the comma before it is not found and the delete fails")
seed("S08","C08",[("inter_set.go","""			for i := keyStart; i < start; i++ {
				curr := json[i]
				if curr == 92 {
					i++
				}
				if curr == 34 {""","""			for i := keyStart; i < start; i++ {
				curr := json[i]
				if curr == 34 && json[i-1] != 92 {""")],r'''
out, err := jin.SetKey([]byte(`{"a\\":"b"}`), "k", `a\\`)
expect("SetKey", string(out)+fmt.Sprint(err), `{"k":"b"}<nil>`)
''',"a key whose text ends in an escaped backslash","the closing quote of the key is missed")
seed("S09","C10",[("inter_iter.go","""					if (i-k)%2 != 0 {
						inQuote = !inQuote
						goto cont""","""					if i-k != 2 {
						inQuote = !inQuote
						goto cont""")],r'''
var got []string
err := jin.IterateArray([]byte(`["a\\\",\"b",2]`), func(v []byte) (bool, error) { got = append(got, string(v)); return true, nil })
expect("elements", fmt.Sprintf("%q %v", got, err), "[\"a\\\\\\\\\\\\\\\",\\\\\\\"b\" \"2\"] <nil>")
''',"a string element with a quote after three backslashes","the escaped quote ends the string, so the element is split at a comma inside it")
seed("S10","C11",[("inter_iter.go","""							keepGoing, innerError := callback(key, json[start+1:end])
							if innerError != nil {
								return innerError
							}
							if !keepGoing {
								return nil
							}""","""							keepGoing, innerError := callback(key, json[start+1:end])
							if !keepGoing {
								return nil
							}
							if innerError != nil {
								return innerError
							}""")],r'''
e := fmt.Errorf("mine")
err := jin.IterateKeyValue([]byte(`{"a":"x","b":2}`), func(k, v []byte) (bool, error) { return false, e })
expect("error", err, e)
''',"a callback that returns false and an error on a string member that is not the last","the callback's error is swallowed")
seed("S11","C12",[("others.go","if curr == 44 && level == 1 {","if curr == 44 && level == 1 && !space(json[i-1]) {")],r'''
n, err := jin.Length([]byte("[1 ,2]"))
expect("Length", fmt.Sprint(n, err), "2 <nil>")
''',"white space in front of a comma","the element is not counted")
seed("S12","C13",[("inter_type.go","	case \"true\", \"false\":","	case \"true\", \"false\", \"t\", \"f\":"),("inter_type.go","	val = cleanValueString(val)\n	switch","	if len(val) > 8 {\n		val = val[:8]\n	}\n	val = cleanValueString(val)\n	switch")],r'''
t, err := jin.GetType([]byte(`[123456.25]`), "0")
expect("GetType", t+fmt.Sprint(err), "number<nil>")
t, err = jin.GetType([]byte(`[1234567.25]`), "0")
expect("GetType", t+fmt.Sprint(err), "number<nil>")
''',"a number whose first eight bytes are not a number (1234567.25, 1.23456e-7)","GetType calls it a string")
seed("S13","C14",[("others.go","""		} else {
			if !space(curr) {
				newJSON = append(newJSON, curr)
				continue
			}
		}
	}
	return newJSON
}

// Indent""","""		} else {
			if curr > 32 {
				newJSON = append(newJSON, curr)
				continue
			}
		}
	}
	return newJSON
}

// Indent""")],r'''
out := jin.Flatten([]byte("{\"a\":1\x0b, \"b\":2}"))
expect("Flatten", fmt.Sprintf("%q", out), fmt.Sprintf("%q", "{\"a\":1\x0b,\"b\":2}"))
''',"a control byte that is not JSON white space, outside strings","Flatten drops it")
seed("S14","C15",[("inter_get.go","	intVal, err := strconv.Atoi(val)\n	if err != nil {\n		return -1, errIntegerParse(val)\n	}\n	return intVal, nil","	int64Val, err := strconv.ParseInt(val, 0, 64)\n	if err != nil {\n		return -1, errIntegerParse(val)\n	}\n	intVal := int(int64Val)\n	return intVal, nil")],r'''
_, err := jin.GetInt([]byte(`{"a":"0x1F"}`), "a")
expect("error", err != nil, true)
_, err = jin.GetInt([]byte(`{"a":"1_000"}`), "a")
expect("error", err != nil, true)
''',"text with a base prefix or underscores (0x1F, 1_000)","GetInt accepts text that is no decimal integer")
seed("S15","C16",[("others.go","			curr := arr[i]\n			if curr == 92 {","			curr := arr[i]\n			if curr == 92 && arr[i+1] == 34 {")],r"""
got := jin.ParseArray(`["a\\",3]`)
expect("ParseArray", fmt.Sprintf("%d %s", len(got), got), `2 [a\\ 3]`)
""","a string that ends in an escaped backslash","the closing quote is skipped as if it were escaped")
seed("S16","C17",[("utils.go","	if start == 91 && end == 93 {","	if start == 91 && (end == 93 || end == 125) {")],r'''
out := jin.MakeArrayString([]string{"[a}"})
expect("MakeArrayString", string(out), `["[a}"]`)
''',"a text that starts with [ and ends with }","it is emitted bare")
seed("S17","C18",[("make.go","	newKeys := make([]string, 0, len(s.keys))\n","	newKeys := s.keys[:0]\n")],r'''
keys := []string{"a", "b", "c"}
s := jin.MakeScheme(keys...)
s.Remove("a")
s.Restore()
expect("keys", s.GetCurrentKeys(), "[a b c]")
expect("caller", keys, "[a b c]")
''',"a Remove that is not of the last key, followed by Restore (or a look at the caller's slice)","Remove compacts the shared backing array in place")
seed("S18","C19",[("inter_set.go","	return json, errKeyAlreadyExist(newKey)","	return json, errBadJSON(len(json))")],r'''
_, err := jin.SetKey([]byte(`{"a":1,"b":2}`), "b", "a")
expect("code", jin.ErrEqual(err, jin.ErrCodeKeyAlreadyExist), true)
''',"placeholder","placeholder")
S.pop()
seed("S18","C19",[("errors.go","	codeStr := str[len(str)-2:]\n","	codeStr := str[len(str)-1:]\n	if str[len(str)-2] == 49 {\n		codeStr = str[len(str)-2:]\n	}\n")],r'''
expect("text", jin.ErrEqual(fmt.Errorf("weird 28"), jin.ErrCodeKeyNotFound), false)
expect("one digit", jin.ErrEqual(fmt.Errorf("weird:8"), jin.ErrCodeKeyNotFound), false)
''',"an error text that ends in one digit, or in two digits above 19","it is taken for a documented code")
seed("S19","C20",[("jin_object_others.go","	var err error\n	j.body, err = Delete(j.body, path...)\n	return err","	body, err := Delete(j.body, path...)\n	if err == nil && len(body) < len(j.body) {\n		j.body = append(j.body[:0], body...)\n	}\n	return err")],r'''
in := []byte(`{"a":1,"b":2}`)
j := jin.New(in)
v, _ := j.Get("b")
j.Delete("a")
expect("doc", j.String(), `{"b":2}`)
expect("value read before", string(v), "2")
''',"a JO made from a slice that the caller keeps","Delete rewrites the caller's slice")
S.pop()
seed("S19","C20",[("jin_object_others.go","func (j *JO) IsEmpty(path ...string) (bool, error) {\n	return IsEmpty(j.body, path...)","func (j *JO) IsEmpty(path ...string) (bool, error) {\n	if len(path) == 0 {\n		n, err := Length(j.body)\n		return n == 0, err\n	}\n	return IsEmpty(j.body, path...)")],r'''
_, e1 := jin.IsEmpty([]byte(`"x"`))
_, e2 := jin.New([]byte(`"x"`)).IsEmpty()
expect("same error", e2, e1)
''',"IsEmpty without a path on a document that is no container","the JO method does not report the interpreter's error")
seed("S20","C21",[("parse_core.go","				valStart = i + 1\n				last = 44\n				continue","				last = 44\n				if i+1 < lenj && json[i+1] == 34 {\n					i++\n					inQuote = true\n					start = i + 1\n				}\n				valStart = i\n				continue")],r'''
p, err := jin.Parse([]byte(`[1,"a","b"]`))
expect("parse", err, nil)
v, err := p.Get("1")
expect("Get 1", string(v)+fmt.Sprint(err), "a<nil>")
''',"placeholder","placeholder")
S.pop()
seed("S20","C21",[("parse_core.go","""				case 44:
					newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
					core.down = append(core.down, newNode)
					valStart = i + 1
""","""				case 44:
					if i-valStart > 1 || indexList.last() < 3 {
						newNode := &node{up: core, label: strconv.Itoa(indexList.last()), value: json[valStart:i]}
						core.down = append(core.down, newNode)
					}
					valStart = i + 1
""")],r'''
p, err := jin.Parse([]byte(`[1,2,3,4]`))
expect("parse", err, nil)
v, err := p.Get("3")
expect("Get 3", string(v)+fmt.Sprint(err), "4<nil>")
''',"a one byte last element at index 3 or higher","the tree lacks that element")
seed("S21","C23",[("walk.go","			key = path[len(path)-1]","			key = path[(len(path)-1)&7]")],r'''
n := ""
jin.Walk([]byte(`{"a":{"b":{"c":{"d":{"e":{"f":{"g":{"h":{"i":1}}}}}}}}}`), func(k string, v []byte, p []string) (bool, error) { n += k; return true, nil })
expect("key", n, "i")
''',"a value nested deeper than eight levels","the wrong key is passed to the callback")
seed("S22","C04",[("inter_set.go","		if ErrEqual(err, ErrCodeKeyNotFound) {\n			return AddKeyValue(json, key, value, path...)","		if ErrEqual(err, ErrCodeKeyNotFound) || ErrEqual(err, ErrCodeIndexExpected) && len(path) > 0 {\n			return AddKeyValue(json, key, value, path[:len(path)-1]...)")],r'''
out, err := jin.Store([]byte(`{"a":{"b":1}}`), "c", []byte(`2`), "a")
expect("Store", string(out)+fmt.Sprint(err), `{"a":{"b":1,"c":2}}<nil>`)
''',"placeholder","placeholder")
S.pop()
seed("S22","C04",[("inter_core.go","if start > 0 && len(currentPath) == end-start {","if start > 0 && len(currentPath) <= end-start && (len(currentPath) == end-start || json[start+len(currentPath)] == 0) {")],r'''
out, err := jin.Store([]byte("{\"a\x00b\":1}"), "a", []byte(`2`))
expect("Store", string(out), "{\"a\x00b\":1,\"a\":2}")
_ = err
''',"placeholder","placeholder")
S.pop()
seed("S22","C22",[("parse_utils.go","			if d.label == p {","			if d.label == p || len(p) > 1 && p[0] == 48 && d.label == p[1:] {")],r'''
p, err := jin.Parse([]byte(`{"7":1,"07":2}`))
expect("parse", err, nil)
v, err := p.Get("07")
expect("Get 07", string(v)+fmt.Sprint(err), "2<nil>")
''',"an object with a key of digits and the same key with a leading zero","the Parser returns the other member")
S.pop()
seed("S22","C21",[("parse_utils.go","			if d.label == p {","			if d.label == p || len(p) > 1 && p[0] == 48 && d.label == p[1:] {")],r'''
p, err := jin.Parse([]byte(`{"7":1,"07":2}`))
expect("parse", err, nil)
v, err := p.Get("07")
expect("Get 07", string(v)+fmt.Sprint(err), "2<nil>")
''',"an object with a key of digits and the same key with a leading zero","the Parser returns the other member")
seed("S23","C01",[("inter_core.go","if space(curr) || curr == 44 || curr == 93 || curr == 125 {","if curr == 32 || curr == 10 || curr == 9 || curr == 44 || curr == 93 || curr == 125 {")],r'''
v, err := jin.Get([]byte("{\"a\":12\r\n}"), "a")
expect("Get", fmt.Sprintf("%q %v", v, err), "\"12\" <nil>")
''',"a number or literal directly followed by a carriage return","the carriage return becomes part of the value")
seed("S24","C07",[("inter_delete.go","	if json[endEdge] == 44 {\n		json = replace(json, []byte{}, start, endEdge+1)","	if json[endEdge] == 44 && json[startEdge] != 44 {\n		json = replace(json, []byte{}, start, endEdge+1)")],r'''
out, err := jin.Delete([]byte("[1 , 2 , 3]"), "1")
expect("Delete", jin.Flatten(out), jin.Flatten([]byte("[1,3]")))
_ = err
out, err = jin.Delete([]byte(`{"a":"x,", "b":1,"c":2}`), "b")
expect("Delete", string(jin.Flatten(out))+fmt.Sprint(err), `{"a":"x,","c":2}<nil>`)
''',"behaviour preserving?","placeholder")
S.pop()
seed("S24","C16",[("inter_get.go","							num, err := strconv.Atoi(cleanValueString(element))\n							if err != nil {\n								return nil, errIntegerParse(cleanValueString(element))\n							}\n							newArray = append(newArray, num)\n							break","							num, err := strconv.Atoi(cleanValueString(element))\n							if err != nil && len(newArray) == 0 {\n								return nil, errIntegerParse(cleanValueString(element))\n							}\n							newArray = append(newArray, num)\n							break")],r'''
_, err := jin.GetIntArray([]byte(`{"a":[1,2,"x"]}`), "a")
expect("error", err != nil, true)
''',"an int array whose last element does not convert, after others that do","a wrong number is returned instead of an error")

seed("S25","C04",[("inter_set.go",'''	if json[start-1] == 34 && json[end] == 34 {
		return replace(json, value, start-1, end+1), nil''','''	if json[start-1] == 34 && json[end] == 34 && end > start {
		return replace(json, value, start-1, end+1), nil''')],r'''
out, err := jin.Store([]byte(`{"a":"","b":1}`), "a", []byte(`7`))
expect("Store", string(out)+fmt.Sprint(err), `{"a":7,"b":1}<nil>`)
''',"Store over a member whose value is the empty string","the quotes of the old value stay around the new one")
seed("S26","C22",[("parse_get.go",'''func (p *Parser) JSON() []byte {
	return p.json
''','''func (p *Parser) JSON() []byte {
	return p.core.value
''')],r'''
p, err := jin.Parse([]byte(" {\"a\":1}\n"))
expect("parse", err, nil)
expect("set", p.Set([]byte("2"), "a"), nil)
expect("JSON", fmt.Sprintf("%q", p.JSON()), fmt.Sprintf("%q", " {\"a\":2}\n"))
''',"an edited document with white space before or after its top level value","JSON() is not the document that the interpreter edits give")
seed("S27","C20",[("jin_object_others.go",'''	return IsObject(j.body, path...)
''','''	if len(path) == 0 {
		return len(j.body) > 0 && j.body[0] == 123, nil
	}
	return IsObject(j.body, path...)
''')],r'''
doc := []byte("\n{\"a\":1}")
a, errA := jin.IsObject(doc)
b, errB := jin.New(doc).IsObject()
expect("IsObject", fmt.Sprint(b, errB), fmt.Sprint(a, errA))
''',"a document that starts with white space, asked without a path","the method's answer differs from the function's")
seed("S28","C12",[("inter_get.go",'''							if (i-n)%2 != 0 {
								inQuote = !inQuote
								break
							} else {
								goto cont
							}
						}
						continue
					}
				} else {
					inQuote = !inQuote
				}
				if inQuote {
					keyStart = i
					continue
				}
				keyEnd = i
			cont:
				continue
			}
			if inQuote {
				continue
			} else {
				if curr == 91 || curr == 123 {
					level++
					continue
				}
				if curr == 93 || curr == 125 {
					if level == 1 {
						return keys, nil
					}''','''							if i-n < 3 || (i-n)%2 != 0 {
								if i-n == 2 {
									goto cont
								}
								inQuote = !inQuote
								break
							} else {
								goto cont
							}
						}
						continue
					}
				} else {
					inQuote = !inQuote
				}
				if inQuote {
					keyStart = i
					continue
				}
				keyEnd = i
			cont:
				continue
			}
			if inQuote {
				continue
			} else {
				if curr == 91 || curr == 123 {
					level++
					continue
				}
				if curr == 93 || curr == 125 {
					if level == 1 {
						return keys, nil
					}''')],r'''
''',"placeholder","placeholder")
S.pop()
seed("S28","C23",[("inter_get.go",'''			mainMap[strconv.Itoa(count)] = string(val)
			count++
''','''			mainMap[strconv.Itoa(count)] = string(val)
			if len(val) > 0 {
				count++
			}
''')],r'''
m, err := jin.GetMap([]byte(`{"a":["x","","y"]}`), "a")
expect("GetMap", fmt.Sprint(m["0"], "|", m["1"], "|", m["2"], len(m), err), "x||y3 <nil>")
''',"an array with an empty string that is not its last element","the element after it takes its index")
seed("S29","C13",[("inter_type.go","	state, _, err := typeControlCore(json, []byte{91, 123}, false, path...)","	state, _, err := typeControlCore(json, []byte{91, 123, 125}, false, path...)")],r'''
''',"placeholder","placeholder")
S.pop()
seed("S29","C13",[("inter_type.go","	state, _, err := typeControlCore(json, []byte{91, 123}, false, path...)","	state, _, err := typeControlCore(json, []byte{91, 123, 110}, false, path...)")],r'''
ok, err := jin.IsValue([]byte(`{"a":null}`), "a")
expect("IsValue", fmt.Sprint(ok, err), "true <nil>")
''',"a path to null","null is not reported as a value")
seed("S30","C06",[("inter_add.go",'''	if json[start] == 91 && json[end-1] == 93 && !(start > 0 && json[start-1] == 34) {
		empty := true
		for i := start + 1; i < end-1; i++ {''','''	if json[start] == 91 && json[end-1] == 93 && !(start > 0 && json[start-1] == 34) {
		empty := true
		for i := start + 2; i < end-1; i++ {''')],r'''
out, err := jin.Add([]byte(`[1]`), []byte(`2`))
expect("Add", string(out)+fmt.Sprint(err), `[1,2]<nil>`)
''',"an array that holds exactly one element of one byte and no white space","the new element is added without a comma")
seed("S31","C15",[("inter_add.go",'''func AddInt(json []byte, value int, path ...string) ([]byte, error) {
	return Add(json, []byte(strconv.Itoa(value)), path...)''','''func AddInt(json []byte, value int, path ...string) ([]byte, error) {
	return Add(json, []byte(strconv.FormatInt(int64(float64(value)), 10)), path...)''')],r'''
out, err := jin.AddInt([]byte(`[]`), 9007199254740993)
expect("AddInt", string(out)+fmt.Sprint(err), `[9007199254740993]<nil>`)
''',"an int above 2^53 that no float64 holds","a neighbouring number is written")
seed("S32","C02",[("inter_type.go","			if end < 1 {","			if end < start {")],r'''
''',"placeholder","placeholder")
S.pop()
seed("S32","C02",[("others.go",'''			if i+1 < len(json) {
				newJSON = append(newJSON, json[i+1])
			}
			i++
			continue
		}
		if curr == 34 {
			newJSON = append(newJSON, curr)
			inQuote = !inQuote
			continue
		}
		if inQuote {
			newJSON = append(newJSON, curr)
			continue
		} else {
			if !space(curr) {
				newJSON = append(newJSON, curr)
				continue
			}
		}
	}
	return newJSON
}''','''			if i < len(json) {
				newJSON = append(newJSON, json[i+1])
			}
			i++
			continue
		}
		if curr == 34 {
			newJSON = append(newJSON, curr)
			inQuote = !inQuote
			continue
		}
		if inQuote {
			newJSON = append(newJSON, curr)
			continue
		} else {
			if !space(curr) {
				newJSON = append(newJSON, curr)
				continue
			}
		}
	}
	return newJSON
}''')],r'''
defer func() { if r := recover(); r != nil { fmt.Println("panic:", r); os.Exit(1) } }()
expect("Flatten", string(jin.Flatten([]byte("ab\\"))), "ab\\")
''',"a byte sequence that ends in a backslash","Flatten panics")
seed("S33","C11",[("inter_iter.go",'''
							for j := i - 1; j > start-1; j-- {''','''
							for j := i - 1; j > start-1 && j > i-100; j-- {''')],r'''
got := ""
err := jin.IterateKeyValue([]byte(`{"a":1,"b":2                                                                                                              }`), func(k, v []byte) (bool, error) { got += fmt.Sprintf("%s=%q;", k, v); return true, nil })
expect("IterateKeyValue", got+fmt.Sprint(err), `a="1";b="2";<nil>`)
''',"a last value followed by a hundred or more white space bytes","the white space becomes part of the value")
seed("S34","C12",[("others.go","		if curr == 44 && level == 1 {","		if curr == 44 && (level == 1 || level == 0) {")],r'''
''',"placeholder","placeholder")
S.pop()
seed("S34","C01",[("inter_core.go",'''							// exclude comma character to json chars, jump func is ending.
							isJSONChar[44] = false
''','''							// exclude comma character to json chars, jump func is ending.
							isJSONChar[44] = k > 0
''')],r'''
''',"placeholder","placeholder")
S.pop()
seed("S34","C01",[("inter_core.go","			// Key start index.\n			start := 0\n","			// Key start index.\n			start := offset\n")],r'''
''',"placeholder","placeholder")
S.pop()
seed("S34","C01",[("inter_core.go",'''								for j := 0; j < len(currentPath); j++ {''','''								for j := 0; j < len(currentPath) && j < 32; j++ {''')],r'''
doc := []byte(`{"the_first_of_two_very_long_key_names_A":1,"the_first_of_two_very_long_key_names_B":2}`)
v, err := jin.Get(doc, "the_first_of_two_very_long_key_names_B")
expect("Get", string(v)+fmt.Sprint(err), "2<nil>")
''',"two keys of the same length that agree in their first 32 bytes","the first of them is returned for the second")
seed("S35","C21",[("parse_core.go","			case 44:\n				switch last {\n				case 58:","			case 44:\n				if len(indexList.list) > 9 {\n					last = 44\n				}\n				switch last {\n				case 58:")],r'''
''',"placeholder","placeholder")
S.pop()
seed("S35","C17",[("make.go",'''	for i, k := range keys {
		js = append(js, 34)
		js = append(js, []byte(k)...)
		js = append(js, 34)
		js = append(js, 58)
		js = append(js, []byte(formatType(fmt.Sprintf("%v", values[i])))...)''','''	for i, k := range keys {
		js = append(js, 34)
		js = append(js, []byte(k)...)
		js = append(js, 34)
		js = append(js, 58)
		if values[i] == nil {
			js = append(js, []byte("null")...)
			js = append(js, 44)
			continue
		}
		js = append(js, []byte(formatType(fmt.Sprintf("%v", values[i])))...)''')],r'''
''',"placeholder","placeholder")
S.pop()
