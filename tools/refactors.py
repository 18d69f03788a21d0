#!/usr/bin/env python3
"""Behaviour-preserving edits: each is applied to a scratch copy of /repo and the named checks must stay quiet.
usage: refactors.py [names...]"""
import os, subprocess, sys, tempfile, time, shutil
V = "/verif"; R = "/repo"
L = []
def ref(name, props, *edits): L.append((name, props.split(), edits))
# edits: (file, old, new) with exactly one match, or (file, old, new, n) with n matches

ESC_A = '''						for n := i - 1; n > -1; n-- {
							if json[n] != 92 {
								if (i-n)&1 != 0 {
									inQuote = !inQuote
									break
								} else {
									break
								}
							}
							continue
						}
						continue
'''
ESCF = '''
func escaped(json []byte, i int) bool {
	count := 0
	for n := i - 1; n > -1 && json[n] == 92; n-- {
		count++
	}
	return count%2 != 0
}

func space(curr byte) bool {'''
ref("core-escaped-helper", "C01 C03 C12", ("inter_core.go", ESC_A, '''						if !escaped(json, i) {
							inQuote = !inQuote
						}
						continue
'''), ("utils.go", "\nfunc space(curr byte) bool {", ESCF))
ref("core-no-else", "C01 C07", ("inter_core.go", '''		if json[offset] == 34 {
			for i := offset + 1; i < len(json); i++ {
				curr := json[i]
				if curr == 92 {
					i++
					continue
				} else {
					// find ending quote
					if curr == 34 {
						// just interested with json chars. Other wise continue.
						return keyStart, offset + 1, i, nil
					}
				}
			}
''', '''		if json[offset] == 34 {
			for i := offset + 1; i < len(json); i++ {
				if json[i] == '\\\\' {
					i++
				} else if json[i] == '"' {
					return keyStart, offset + 1, i, nil
				}
			}
'''))
ref("core-string-end-helper", "C01 C03", ("inter_core.go", '''			for i := offset + 1; i < len(json); i++ {
				curr := json[i]
				if curr == 92 {
					i++
					continue
				} else {
					// find ending quote
					if curr == 34 {
						// just interested with json chars. Other wise continue.
						return keyStart, offset + 1, i, nil
					}
				}
			}
''', '''			if end := stringEnd(json, offset+1); end != -1 {
				return keyStart, offset + 1, end, nil
			}
'''), ("utils.go", "\nfunc space(curr byte) bool {", '''
func stringEnd(json []byte, from int) int {
	for i := from; i < len(json); i++ {
		switch json[i] {
		case 92:
			i++
		case 34:
			return i
		}
	}
	return -1
}

func space(curr byte) bool {'''))
ref("core-table-helper", "C01 C10", ("inter_core.go", '''	chars := []byte{34, 44, 58, 91, 93, 123, 125}
	// creating a bool array fill with false
	isJSONChar := make([]bool, 256)
	// only interested chars is true
	for _, v := range chars {
		isJSONChar[v] = true
	}
''', '''	isJSONChar := jsonChars()
'''), ("utils.go", "\nfunc space(curr byte) bool {", '''
func jsonChars() []bool {
	chars := []byte{34, 44, 58, 91, 93, 123, 125}
	table := make([]bool, 256)
	for _, v := range chars {
		table[v] = true
	}
	return table
}

func space(curr byte) bool {'''))
ref("core-keycmp", "C01 C08", ("inter_core.go", '''								same := true
								// compare all elements
								for j := 0; j < len(currentPath); j++ {
									if currentPath[j] != json[start+j] {
										same = false
										break
									} else {
										continue
									}
								}
								if same {
''', '''								if string(json[start:end]) == currentPath {
'''))
ref("core-skip-helper", "C01 C06", ("inter_core.go", '''	// trim spaces of start
	for space(json[offset]) {
		// json length overflow control
		if offset > len(json)-2 {
			return -1, -1, -1, errBadJSON(offset)
		}
		offset++
		continue
	}
''', '''	for offset < len(json) && space(json[offset]) {
		offset++
	}
	if offset == len(json) {
		return -1, -1, -1, errBadJSON(offset - 1)
	}
'''))
ref("space-switch", "C01 C10 C11 C12 C14 C23", ("utils.go", '''	// space
	if curr == 32 {
		return true
	}
	// tab
	if curr == 9 {
		return true
	}
	// new line NL
	if curr == 10 {
		return true
	}
	// return CR
	if curr == 13 {
		return true
	}
	return false
''', '''	switch curr {
	case ' ', '\\t', '\\n', '\\r':
		return true
	}
	return false
'''))
ref("isblank-index", "C05 C10 C16 C09", ("utils.go", '''	for _, b := range str {
		if !space(b) {
			return false
		}
	}
	return true
''', '''	i := 0
	for i < len(str) {
		if !space(str[i]) {
			break
		}
		i++
	}
	return i == len(str)
'''))
ref("createtabs-append", "C14", ("utils.go", '''	res := make([]byte, n)
	for i := range res {
		res[i] = 9
	}
	return res
''', '''	res := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		res = append(res, '\\t')
	}
	return res
'''))
ref("createtabs-repeat", "C14", ("utils.go", '''	res := make([]byte, n)
	for i := range res {
		res[i] = 9
	}
	return res
''', '''	return bytes.Repeat([]byte{9}, n)
'''), ("utils.go", 'import "unsafe"', 'import (\n\t"bytes"\n\t"unsafe"\n)'))
ref("replace-copy", "C03 C05 C07 C09", ("utils.go", '''	newJSON := make([]byte, 0, len(json)-end+start+len(newValue))
	newJSON = append(newJSON, json[:start]...)
	newJSON = append(newJSON, newValue...)
	newJSON = append(newJSON, json[end:]...)
	return newJSON
''', '''	newJSON := make([]byte, len(json)-end+start+len(newValue))
	n := copy(newJSON, json[:start])
	n += copy(newJSON[n:], newValue)
	copy(newJSON[n:], json[end:])
	return newJSON
'''))
ref("cleanvalue-loops", "C10 C16 C12 C13", ("utils.go", '''	for i := start; i < lens-1; i++ {
		if !space(str[i]) {
			break
		}
		start++
	}
	for i := end; i > start; i-- {
		if !space(str[i]) {
			break
		}
		end--
	}
''', '''	for start < end && space(str[start]) {
		start++
	}
	for end > start && space(str[end]) {
		end--
	}
'''), ("utils.go", '''	for space(str[start]) && start < lens-1 {
		start++
	}
''', '''	for i := 0; i < lens-1 && space(str[i]); i++ {
		start = i + 1
	}
'''))
ref("iterarray-flag", "C10 C23", ("inter_iter.go", '''				if curr == 93 {
					if level == 0 {
						if start == first && isBlank(json[start:i]) {
							return nil
						}
						_, innerError := callback(cleanValue(json[start:i]))
						return innerError
					}
				}
				level--
				continue
''', '''				if curr == 93 && level == 0 {
					element := json[start:i]
					if start == first && isBlank(element) {
						return nil
					}
					_, innerError := callback(cleanValue(element))
					return innerError
				}
				level--
				continue
'''))
ref("iterkv-cleanhelper", "C11 C23", ("inter_iter.go", '''						if json[start] == 34 && json[end] == 34 {
							keepGoing, innerError := callback(key, json[start+1:end])
							if innerError != nil {
								return innerError
							}
							if !keepGoing {
								return nil
							}
						} else {
							keepGoing, innerError := callback(key, json[start:end+1])
							if innerError != nil {
								return innerError
							}
							if !keepGoing {
								return nil
							}
						}
						continue
''', '''						value := json[start : end+1]
						if json[start] == 34 && json[end] == 34 {
							value = json[start+1 : end]
						}
						keepGoing, innerError := callback(key, value)
						if innerError != nil {
							return innerError
						}
						if !keepGoing {
							return nil
						}
						continue
'''))
ref("iterkv-trimhelper", "C11", ("inter_iter.go", '''						end = i - 1
						for j := start; j < i; j++ {
							if !space(json[j]) {
								start = j
								break
							}
						}
						for j := i - 1; j > start-1; j-- {
							if !space(json[j]) {
								end = j
								break
							}
						}
						if json[start] == 34 && json[end] == 34 {
							keepGoing''', '''						start, end = trim(json, start, i)
						if json[start] == 34 && json[end] == 34 {
							keepGoing'''), ("utils.go", "\nfunc space(curr byte) bool {", '''
func trim(json []byte, start, i int) (int, int) {
	end := i - 1
	for j := start; j < i; j++ {
		if !space(json[j]) {
			start = j
			break
		}
	}
	for j := i - 1; j > start-1; j-- {
		if !space(json[j]) {
			end = j
			break
		}
	}
	return start, end
}

func space(curr byte) bool {'''))
ref("typecontrol-contains", "C13", ("inter_type.go", '''	for _, v := range control {
		if json[start] == v {
			if equal {
				return true, start, nil
			}
			return false, start, nil
		}
	}
	if equal {
		return false, start, nil
	}
	return true, start, nil
''', '''	found := false
	for _, v := range control {
		if json[start] == v {
			found = true
			break
		}
	}
	return found == equal, start, nil
'''))
ref("addkv-isblank", "C05 C04 C09", ("inter_add.go", '''		empty := true
		for i := start + 1; i < end-1; i++ {
			if !space(json[i]) {
				empty = false
			}
		}
		if empty {
			val := []byte(`"` + key + `":` + string(value))
			json = replace(json, val, end-1, end-1)
			return json, nil
		}
''', '''		if isBlank(json[start+1 : end-1]) {
			return replace(json, []byte(`"`+key+`":`+string(value)), end-1, end-1), nil
		}
'''))
ref("add-bounds-helper", "C06 C09 C15", ("inter_add.go", '''	if len(path) == 0 {
		for i := 0; i < len(json); i++ {
			if !space(json[i]) {
				if json[i] == 91 {
					start = i
					if i == len(json)-1 {
						return json, errBadJSON(i)
					}
					break
				} else {
					return json, errArrayExpected()
				}
			}
		}
		for i := len(json) - 1; i > -1; i-- {
			if !space(json[i]) {
				if json[i] == 93 {
					end = i + 1
					if i == 0 {
						return json, errBadJSON(i)
					}
					break
				} else {
					return json, errArrayExpected()
				}
			}
		}
		if end <= start {
			return json, errBadJSON(start)
		}
	} else {
''', '''	if len(path) == 0 {
		start, end, err = bounds(json)
		if err != nil {
			return json, err
		}
	} else {
''', 2), ("inter_add.go", '''// AddKeyValueString''', '''func bounds(json []byte) (int, int, error) {
	start, end := 0, 0
	for i := 0; i < len(json); i++ {
		if !space(json[i]) {
			if json[i] != 91 {
				return 0, 0, errArrayExpected()
			}
			start = i
			if i == len(json)-1 {
				return 0, 0, errBadJSON(i)
			}
			break
		}
	}
	for i := len(json) - 1; i > -1; i-- {
		if !space(json[i]) {
			if json[i] != 93 {
				return 0, 0, errArrayExpected()
			}
			end = i + 1
			if i == 0 {
				return 0, 0, errBadJSON(i)
			}
			break
		}
	}
	if end <= start {
		return 0, 0, errBadJSON(start)
	}
	return start, end, nil
}

// AddKeyValueString'''))
ref("delete-reorder", "C07 C09", ("inter_delete.go", '''	var startEdge int
	var endEdge int
	for i := start - 1; i > 0; i-- {
		if !space(json[i]) {
			startEdge = i
			break
		}
	}
	for i := e; i < len(json); i++ {
		if !space(json[i]) {
			endEdge = i
			break
		}
	}
''', '''	endEdge := 0
	for i := e; i < len(json); i++ {
		if !space(json[i]) {
			endEdge = i
			break
		}
	}
	startEdge := start - 1
	for startEdge > 0 && space(json[startEdge]) {
		startEdge--
	}
'''))
ref("set-shared-helper", "C03 C04", ("inter_set.go", '''	if json[start-1] == 34 && json[end] == 34 {
		return replace(json, newValue, start-1, end+1), nil
	}
	return replace(json, newValue, start, end), nil
''', '''	start, end = outer(json, start, end)
	return replace(json, newValue, start, end), nil
'''), ("inter_set.go", '''	if json[start-1] == 34 && json[end] == 34 {
		return replace(json, value, start-1, end+1), nil
	}
	return replace(json, value, start, end), nil
''', '''	start, end = outer(json, start, end)
	return replace(json, value, start, end), nil
'''), ("inter_set.go", "// SetString", '''func outer(json []byte, start, end int) (int, int) {
	if json[start-1] == 34 && json[end] == 34 {
		return start - 1, end + 1
	}
	return start, end
}

// SetString'''))
ref("setkey-earlyreturn", "C08 C09", ("inter_set.go", '''	if err != nil {
		if ErrEqual(err, ErrCodeKeyNotFound) {
			keyStart, start, _, err = core(json, false, path...)
			if err != nil {
				return json, err
			}
			for i := keyStart; i < start; i++ {
				curr := json[i]
				if curr == 92 {
					i++
				}
				if curr == 34 {
					return replace(json, []byte(newKey), keyStart, i), nil
				}
			}
			return json, errBadJSON(keyStart)
		}
		return json, err
	}
	return json, errKeyAlreadyExist(newKey)
''', '''	if err == nil {
		return json, errKeyAlreadyExist(newKey)
	}
	if !ErrEqual(err, ErrCodeKeyNotFound) {
		return json, err
	}
	keyStart, start, _, err = core(json, false, path...)
	if err != nil {
		return json, err
	}
	for i := keyStart; i < start; i++ {
		switch json[i] {
		case '\\\\':
			i++
		case '"':
			return replace(json, []byte(newKey), keyStart, i), nil
		}
	}
	return json, errBadJSON(keyStart)
'''))
ref("store-path", "C04 C09", ("inter_set.go", '''	_, start, end, err := core(json, false, append(path[:len(path):len(path)], key)...)
''', '''	full := make([]string, 0, len(path)+1)
	full = append(full, path...)
	full = append(full, key)
	_, start, end, err := core(json, false, full...)
'''))
ref("walk-kinds", "C23", ("walk.go", '''		keepGoing, err := callback(key, val, path)
		if err != nil {
			return err
		}
		if !keepGoing {
			return nil
		}
	}
	return nil
''', '''		_, err = callback(key, val, path)
		return err
	}
	return nil
'''), ("walk.go", '''			err = walk(json, append(path[:len(path):len(path)], strconv.Itoa(i)), callback)
			if err != nil {
				return false, err
			}
			i++
			return true, nil
''', '''			next := append(path[:len(path):len(path)], strconv.Itoa(i))
			i++
			if err := walk(json, next, callback); err != nil {
				return false, err
			}
			return true, nil
'''))
ref("flatten-switch", "C14", ("others.go", '''		if curr == 34 {
			newJSON = append(newJSON, curr)
			inQuote = !inQuote
			continue
		}
		if inQuote {
			newJSON = append(newJSON, curr)
			continue
		} else {
			if !space(curr) {
				newJSON = append(newJSON, curr)
				continue
			}
		}
''', '''		if curr == 34 {
			inQuote = !inQuote
		}
		if inQuote || !space(curr) {
			newJSON = append(newJSON, curr)
		}
'''))
ref("indent-newline-helper", "C14", ("others.go", '''					// add curr
					newJSON = append(newJSON, curr)
					// NL
					newJSON = append(newJSON, 10)
					// tab
					newJSON = append(newJSON, createTabs(level)...)
					continue
''', '''					newJSON = append(newJSON, curr)
					newJSON = breakLine(newJSON, level)
					continue
''', 2), ("others.go", "func Indent(", '''func breakLine(out []byte, level int) []byte {
	out = append(out, 10)
	return append(out, createTabs(level)...)
}

func Indent('''))
ref("parsearray-emit", "C16", ("others.go", '''							val := arr[start:i]
							if len(newArray) == 0 && isBlank([]byte(val)) {
								break
							}
							val = cleanValueString(val)
							newArray = append(newArray, val)
							break
''', '''							last := arr[start:i]
							if len(newArray) > 0 || !isBlank([]byte(last)) {
								newArray = append(newArray, cleanValueString(last))
							}
							break
'''))
ref("scheme-remove-index", "C18", ("make.go", '''	newKeys := make([]string, 0, len(s.keys))
	result := false
	for _, k := range s.keys {
		if k != key {
			newKeys = append(newKeys, k)
		} else {
			result = true
		}
	}
	s.keys = newKeys
	return result
''', '''	var kept []string
	for i := 0; i < len(s.keys); i++ {
		if s.keys[i] == key {
			continue
		}
		kept = append(kept, s.keys[i])
	}
	removed := len(kept) != len(s.keys)
	s.keys = kept
	return removed
'''))
ref("make-comma-first", "C17", ("make.go", '''	js = append(js, 91)
	for _, v := range values {
		js = append(js, []byte(strconv.Itoa(v))...)
		js = append(js, 44)
	}
	js = js[:len(js)-1]
	js = append(js, 93)
	return js
''', '''	js = append(js, '[')
	for i, v := range values {
		if i > 0 {
			js = append(js, ',')
		}
		js = append(js, strconv.Itoa(v)...)
	}
	return append(js, ']')
'''))
ref("make-quote-helper", "C17", ("make.go", '''		js = append(js, 34)
		js = append(js, []byte(k)...)
		js = append(js, 34)
		js = append(js, 58)
''', '''		js = append(js, `"`+k+`":`...)
''', 3))
ref("isnumber-sign", "C13 C17", ("utils.go", '''	count := 0
	for count < len(val) && val[count] >= 48 && val[count] <= 57 {
		count++
	}
	return count
''', '''	for i := 0; i < len(val); i++ {
		if val[i] < '0' || val[i] > '9' {
			return i
		}
	}
	return len(val)
'''))
ref("getbool-switch", "C15 C09 C20", ("inter_get.go", '''	if val == "true" {
		return true, nil
	}
	if val == "false" {
		return false, nil
	}
	return false, errBoolParse(val)
''', '''	switch val {
	case "true":
		return true, nil
	case "false":
		return false, nil
	default:
		return false, errBoolParse(val)
	}
'''))
ref("length-count", "C12", ("others.go", '''	if length == 0 {
		for i := start + 1; i < end-1; i++ {
			if !space(json[i]) {
				return 1, nil
			}
		}
		return 0, nil
	}
	return length + 1, nil
''', '''	if length == 0 && (end-start < 2 || isBlank(json[start+1:end-1])) {
		return 0, nil
	}
	return length + 1, nil
'''))
ref("isempty-isblank", "C12", ("inter_type.go", '''		for i := start + 1; i < end; i++ {
			if !space(json[i]) {
				return false, nil
			}
		}
	} else {''', '''		return isBlank(json[start+1 : end]), nil
	} else {'''))
ref("parser-escape", "C21 C22", ("parse_core.go", '''				for n := i - 1; n > -1; n-- {
					if json[n] != 92 {
						if (i-n)&1 != 0 {
							inQuote = !inQuote
							break
						} else {
							goto cont
						}
					}
					continue
				}
''', '''				n := i - 1
				for n > -1 && json[n] == 92 {
					n--
				}
				if (i-n)&1 == 0 {
					goto cont
				}
				inQuote = false
'''))

def sh(c, cwd=None, env=None): return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    only = set(sys.argv[1:])
    for name, props, edits in L:
        if only and name not in only: continue
        T = tempfile.mkdtemp(prefix="ref-")
        try:
            sh(f"cp -a {R} {T}/repo"); W = f"{T}/repo"; ok = True
            for e in edits:
                f, a, b = e[:3]; n = e[3] if len(e) > 3 else 1
                s = open(f"{W}/{f}").read()
                if s.count(a) != n: print(name, "EDIT matches", s.count(a), repr(a[:80])); ok = False; break
                open(f"{W}/{f}", "w").write(s.replace(a, b))
            if not ok: continue
            p = sh("GOFLAGS=-mod=mod GOPROXY=off go vet . && GOFLAGS=-mod=mod GOPROXY=off go test . 2>&1 | tail -3", W)
            if "ok" not in p.stdout: print(name, "BUILD/TEST:", p.stdout[-600:]); continue
            for pr in props:
                t = time.time()
                p = sh(f"python3 {V}/check.py {pr}", "/verif", dict(os.environ, VERIF_REPO=W, VERIF_TIER="quick", VERIF_SEED="1"))
                print(f"{name:24} {pr} rc={p.returncode} {time.time()-t:.0f}s", "" if p.returncode == 0 else "\n    " + "\n    ".join(p.stdout.splitlines()[:7]), flush=True)
        finally:
            shutil.rmtree(T)
main()
