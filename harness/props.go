package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"
)

func q(b []byte) string { return strconv.Quote(string(b)) }

func eqs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (t *T) wantErr(err error, what string) {
	if err == nil {
		t.fail("no error although %s", what)
	}
}

func (t *T) noErr(err error) {
	if err != nil {
		t.fail("unexpected error: %v", err)
	}
}

func (t *T) same(got []byte, want string) {
	if string(got) != want {
		t.fail("got  %q\n  want %q", got, want)
	}
}

func init() {
	props["C01"] = func(t *T) {
		d := t.doc(0)
		for k := 0; k < 4; k++ {
			path := t.anyPath(d, 0)
			if len(path) == 0 || oddPath(path) {
				continue
			}
			t.call("Get(%s, %q)", q(d.b), path)
			got, err := jin.Get(d.b, path...)
			gs, err2 := jin.GetString(d.b, path...)
			v, _, _ := d.resolve(path)
			if v == nil {
				t.wantErr(err, "the path addresses nothing")
				t.wantErr(err2, "the path addresses nothing (GetString)")
				continue
			}
			t.nontriv = true
			t.noErr(err)
			t.noErr(err2)
			t.same(got, d.text(v))
			t.same([]byte(gs), d.text(v))
		}
	}
	props["C02"] = propC02
	props["C03"] = func(t *T) {
		d := t.doc(0)
		path := t.anyPath(d, 0)
		if oddPath(path) {
			return
		}
		nv := t.jsonText()
		if t.Intn(8) == 0 {
			nv = t.rawString(baseStr)
		}
		t.call("Set(%s, %q, %q)", q(d.b), nv, path)
		got, err := jin.Set(d.b, []byte(nv), path...)
		v, _, _ := d.resolve(path)
		if v == nil || len(path) == 0 {
			t.wantErr(err, "the path is empty or addresses nothing")
			return
		}
		t.nontriv = true
		t.noErr(err)
		t.same(got, splice(d.b, v.S, v.E, nv))
	}
	props["C04"] = func(t *T) {
		d := t.doc(0)
		path := t.anyPath(d, "oooa"[t.Intn(4)])
		v, _, _ := d.resolve(path)
		key := t.newKey()
		if v != nil && v.K == 'o' && len(v.Kids) > 0 && t.Intn(2) == 0 {
			key = d.key(v, t.Intn(len(v.Kids)))
		}
		if v != nil && v.K == 'a' {
			key = strconv.Itoa(t.Intn(len(v.Kids)+2) - 1)
		}
		if oddPath(path) || (v == nil || v.K != 'o') && oddIndex(key) {
			return
		}
		nv := t.jsonText()
		t.call("Store(%s, %q, %q, %q)", q(d.b), key, nv, path)
		got, err := jin.Store(d.b, key, []byte(nv), path...)
		if v == nil || v.K != 'o' && d.find(v, key) < 0 {
			t.wantErr(err, "the path addresses no object, or no element")
			return
		}
		t.noErr(err)
		t.nontriv = true
		if i := d.find(v, key); i >= 0 {
			t.same(got, splice(d.b, v.Kids[i].S, v.Kids[i].E, nv))
		} else {
			c := ""
			if len(v.Kids) > 0 {
				c = ","
			}
			t.same(got, splice(d.b, v.E-1, v.E-1, c+`"`+key+`":`+nv))
		}
		nv2 := t.jsonText()
		got2, err := jin.Store(got, key, []byte(nv2), path...)
		t.noErr(err)
		d2 := &D{got, parseDoc(got)}
		v2, _, _ := d2.resolve(path)
		i := d2.find(v2, key)
		t.same(got2, splice(got, v2.Kids[i].S, v2.Kids[i].E, nv2))
	}
	props["C05"] = func(t *T) {
		d := t.doc(0)
		path := t.anyPath(d, 'o')
		v, _, _ := d.resolve(path)
		key := t.newKey()
		if len(t.keys) > 0 && t.Intn(2) == 0 {
			key = t.keys[t.Intn(len(t.keys))]
		}
		if oddPath(path) || key == "" {
			return
		}
		nv := []byte(t.jsonText())
		if t.Intn(10) == 0 {
			nv = nil
		}
		t.call("AddKeyValue(%s, %q, %q, %q)", q(d.b), key, nv, path)
		got, err := jin.AddKeyValue(d.b, key, nv, path...)
		if v == nil || v.K != 'o' || d.find(v, key) >= 0 {
			t.wantErr(err, "the key exists or the path addresses no object")
			t.same(got, string(d.b))
			return
		}
		t.noErr(err)
		t.nontriv = true
		c := ""
		if len(v.Kids) > 0 {
			c = ","
		}
		w := string(nv)
		if nv == nil {
			w = "null"
		}
		t.same(got, splice(d.b, v.E-1, v.E-1, c+`"`+key+`":`+w))
	}
	props["C06"] = func(t *T) {
		d := t.doc(0)
		path := t.anyPath(d, 'a')
		if oddPath(path) {
			return
		}
		v, _, _ := d.resolve(path)
		nv := t.jsonText()
		t.call("Add(%s, %q, %q)", q(d.b), nv, path)
		got, err := jin.Add(d.b, []byte(nv), path...)
		if v == nil || v.K != 'a' {
			t.wantErr(err, "the path addresses no array")
		} else {
			t.noErr(err)
			t.nontriv = true
			c := ""
			if len(v.Kids) > 0 {
				c = ","
			}
			t.same(got, splice(d.b, v.E-1, v.E-1, c+nv))
		}
		n := 3
		if v != nil {
			n = len(v.Kids)
		}
		i := t.Intn(n+3) - 1
		t.call("Insert(%s, %d, %q, %q)", q(d.b), i, nv, path)
		got, err = jin.Insert(d.b, i, []byte(nv), path...)
		if v == nil || v.K != 'a' || i < 0 || i >= len(v.Kids) {
			t.wantErr(err, "the path addresses no array, or the index is no element")
		} else {
			t.noErr(err)
			p := v.Kids[i].S
			t.same(got, splice(d.b, p, p, nv+","))
		}
	}
	props["C07"] = func(t *T) {
		d := t.doc(0)
		path := t.anyPath(d, 0)
		if oddPath(path) {
			return
		}
		v, par, idx := d.resolve(path)
		t.call("Delete(%s, %q)", q(d.b), path)
		got, err := jin.Delete(d.b, path...)
		if v == nil || len(path) == 0 {
			t.wantErr(err, "the path is empty or addresses nothing")
			return
		}
		t.noErr(err)
		t.nontriv = true
		s := v.S
		if par.K == 'o' {
			s = par.KS[idx] - 1
		}
		commas := 0
		if len(par.Kids) > 1 {
			commas = 1
		}
		// the result is the document without one stretch around the item
		cut := len(d.b) - len(got)
		ok := false
		if cut >= 0 {
			for a := 0; a <= s; a++ {
				b := a + cut
				if b < v.E || b > len(d.b) || string(d.b[:a]) != string(got[:a]) || string(d.b[b:]) != string(got[a:]) {
					continue
				}
				rest := string(d.b[a:s]) + string(d.b[v.E:b])
				if strings.Count(rest, ",") == commas && strings.Trim(rest, " \t\r\n,") == "" {
					ok = true
					break
				}
			}
		}
		if !ok || parseDoc(got) == nil {
			t.fail("not the document without the item and one comma: %q", got)
		}
	}
	props["C08"] = func(t *T) {
		d := t.doc(0)
		path := t.anyPath(d, 0)
		if oddPath(path) {
			return
		}
		key := t.newKey()
		if len(t.keys) > 0 && t.Intn(2) == 0 {
			key = t.keys[t.Intn(len(t.keys))]
		}
		if t.Intn(12) == 0 {
			key = strconv.Itoa(t.Intn(4))
		}
		v, par, idx := d.resolve(path)
		t.call("SetKey(%s, %q, %q)", q(d.b), key, path)
		got, err := jin.SetKey(d.b, key, path...)
		if len(path) == 0 || key == "" || v == nil || par.K != 'o' || d.find(par, key) >= 0 {
			t.wantErr(err, "the call must be refused")
			return
		}
		t.noErr(err)
		t.nontriv = true
		t.same(got, splice(d.b, par.KS[idx], par.KE[idx], key))
	}
	props["C09"] = propC09
	props["C10"] = propC10
	props["C11"] = propC11
	props["C12"] = propC12
	props["C13"] = func(t *T) {
		d := t.doc(0)
		path := t.anyPath(d, 0)
		if oddPath(path) {
			return
		}
		v, _, _ := d.resolve(path)
		t.call("IsArray/IsObject/IsValue/GetType(%s, %q)", q(d.b), path)
		a, e1 := jin.IsArray(d.b, path...)
		o, e2 := jin.IsObject(d.b, path...)
		va, e3 := jin.IsValue(d.b, path...)
		ty, e4 := jin.GetType(d.b, path...)
		if v == nil {
			t.wantErr(e1, "the path addresses nothing")
			t.wantErr(e2, "the path addresses nothing")
			t.wantErr(e3, "the path addresses nothing")
			t.wantErr(e4, "the path addresses nothing")
			return
		}
		t.nontriv = true
		t.noErr(e1)
		t.noErr(e2)
		t.noErr(e3)
		t.noErr(e4)
		want := map[byte]string{'a': "array", 'o': "object", 's': "string", 't': "boolean", '0': "null", 'n': "number"}[v.K]
		if a != (v.K == 'a') || o != (v.K == 'o') || va != (v.K != 'a' && v.K != 'o') || ty != want {
			t.fail("IsArray %v IsObject %v IsValue %v GetType %q for %q", a, o, va, ty, d.raw(v))
		}
	}
	props["C14"] = func(t *T) {
		var b []byte
		if t.Intn(2) == 0 {
			b = t.bytes()
			t.call("Flatten(%s)", q(b))
			t.same(jin.Flatten(b), flatOracle(b))
			return
		}
		d := t.doc(0)
		b = d.b
		t.nontriv = true
		t.call("Flatten(%s)", q(b))
		f := jin.Flatten(b)
		t.same(f, flatOracle(b))
		t.same(jin.Flatten(f), string(f))
		t.call("Indent(%s)", q(b))
		in := jin.Indent(b)
		t.same([]byte(flatOracle(in)), string(f))
		t.same(jin.Flatten(in), string(f))
		if parseDoc(in) == nil {
			t.fail("Indent result is not well formed: %q", in)
		}
	}
	props["C15"] = propC15
	props["C16"] = propC16
	props["C17"] = propC17
	props["C18"] = propC18
	props["C19"] = propC19
	props["C20"] = propC20
	props["C21"] = func(t *T) {
		d := t.doc(1)
		t.call("Parse(%s)", q(d.b))
		p, err := jin.Parse(d.b)
		t.noErr(err)
		for k := 0; k < 4; k++ {
			path := t.anyPath(d, 0)
			if oddPath(path) {
				continue
			}
			t.call("Parse(%s).Get(%q)", q(d.b), path)
			got, err := p.Get(path...)
			gs, errs := p.GetString(path...)
			v, _, _ := d.resolve(path)
			ig, ierr := jin.Get(d.b, path...)
			if len(path) == 0 {
				t.noErr(err)
				t.same(got, string(ig))
				continue
			}
			if (err == nil) != (ierr == nil) {
				t.fail("Parser error %v, interpreter error %v", err, ierr)
			}
			if v == nil {
				t.wantErr(err, "the path addresses nothing")
				continue
			}
			t.nontriv = true
			t.noErr(err)
			t.noErr(errs)
			t.same(got, d.text(v))
			t.same([]byte(gs), d.text(v))
			if ierr == nil {
				t.same(got, string(ig))
			}
		}
	}
	props["C22"] = propC22
	props["C23"] = propC23
}

// every interpreter function on one document
func allCalls(t *T, b []byte, path []string) {
	key := t.newKey()
	val := []byte(t.jsonText())
	c := func(name string, f func()) {
		t.call("%s on %s, path %q, key %q, value %q", name, q(b), path, key, val)
		f()
	}
	n := t.Intn(5) - 1
	c("Get", func() { _, _ = jin.Get(b, path...) })
	c("GetString", func() { _, _ = jin.GetString(b, path...) })
	c("GetInt", func() { _, _ = jin.GetInt(b, path...) })
	c("GetFloat", func() { _, _ = jin.GetFloat(b, path...) })
	c("GetBool", func() { _, _ = jin.GetBool(b, path...) })
	c("GetStringArray", func() { _, _ = jin.GetStringArray(b, path...) })
	c("GetIntArray", func() { _, _ = jin.GetIntArray(b, path...) })
	c("GetFloatArray", func() { _, _ = jin.GetFloatArray(b, path...) })
	c("GetBoolArray", func() { _, _ = jin.GetBoolArray(b, path...) })
	c("GetKeys", func() { _, _ = jin.GetKeys(b, path...) })
	c("GetValues", func() { _, _ = jin.GetValues(b, path...) })
	c("GetKeysValues", func() { _, _, _ = jin.GetKeysValues(b, path...) })
	c("GetMap", func() { _, _ = jin.GetMap(b, path...) })
	c("GetAll", func() { _, _ = jin.GetAll(b, []string{key, "0"}, path...) })
	c("GetAllMap", func() { _, _ = jin.GetAllMap(b, []string{key, "0"}, path...) })
	c("GetType", func() { _, _ = jin.GetType(b, path...) })
	c("IsArray", func() { _, _ = jin.IsArray(b, path...) })
	c("IsObject", func() { _, _ = jin.IsObject(b, path...) })
	c("IsValue", func() { _, _ = jin.IsValue(b, path...) })
	c("IsEmpty", func() { _, _ = jin.IsEmpty(b, path...) })
	c("Length", func() { _, _ = jin.Length(b, path...) })
	c("IterateArray", func() { _ = jin.IterateArray(b, func([]byte) (bool, error) { return true, nil }, path...) })
	c("IterateKeyValue", func() { _ = jin.IterateKeyValue(b, func(_, _ []byte) (bool, error) { return true, nil }, path...) })
	c("Set", func() { _, _ = jin.Set(b, val, path...) })
	c("Store", func() { _, _ = jin.Store(b, key, val, path...) })
	c("SetKey", func() { _, _ = jin.SetKey(b, key, path...) })
	c("Add", func() { _, _ = jin.Add(b, val, path...) })
	c("AddKeyValue", func() { _, _ = jin.AddKeyValue(b, key, val, path...) })
	c("Insert", func() { _, _ = jin.Insert(b, n, val, path...) })
	c("Delete", func() { _, _ = jin.Delete(b, path...) })
	c("Flatten", func() { _ = jin.Flatten(b) })
	c("Indent", func() { _ = jin.Indent(b) })
	c("ParseArray", func() { _ = jin.ParseArray(string(b)) })
	c("Walk", func() { _ = jin.Walk(b, func(string, []byte, []string) (bool, error) { return true, nil }) })
}

func propC02(t *T) {
	b := t.bytes()
	var path []string
	for k := t.Intn(4); k > 0; k-- {
		switch t.Intn(4) {
		case 0:
			path = append(path, strconv.Itoa(t.Intn(4)-1))
		case 1:
			if len(t.keys) > 0 {
				path = append(path, t.keys[t.Intn(len(t.keys))])
				continue
			}
			path = append(path, "a")
		case 2:
			path = append(path, t.newKey())
		default:
			path = append(path, []string{"a", "", "0"}[t.Intn(3)])
		}
	}
	t.nontriv = parseDoc(b) == nil
	// a slice without spare room: any overrun is a panic
	c := make([]byte, len(b))
	copy(c, b)
	allCalls(t, c, path)
}

const canary = 0xA5

func guarded(b []byte, nilOK bool) (arg, whole []byte) {
	whole = make([]byte, len(b)+24)
	for i := range whole {
		whole[i] = canary
	}
	copy(whole[8:], b)
	return whole[8 : 8+len(b)], whole
}

func intact(whole, b []byte) bool {
	for i, c := range whole {
		w := byte(canary)
		if i >= 8 && i < 8+len(b) {
			w = b[i-8]
		}
		if c != w {
			return false
		}
	}
	return true
}

func guardedPath(p []string) (arg, whole []string) {
	whole = make([]string, len(p)+4)
	for i := range whole {
		whole[i] = "\x00canary"
	}
	copy(whole, p)
	return whole[:len(p)], whole
}

func intactPath(whole, p []string) bool {
	for i := range whole {
		w := "\x00canary"
		if i < len(p) {
			w = p[i]
		}
		if whole[i] != w {
			return false
		}
	}
	return true
}

func propC09(t *T) {
	var b []byte
	var path []string
	d := t.doc(0)
	b = d.b
	path = t.anyPath(d, "oa\x00"[t.Intn(3)])
	if t.Intn(5) == 0 {
		b = t.bytes()
	} else {
		t.nontriv = true
	}
	val := []byte(t.jsonText())
	if t.Intn(12) == 0 {
		val = nil
	}
	key := t.newKey()
	if len(t.keys) > 0 && t.Intn(2) == 0 {
		key = t.keys[t.Intn(len(t.keys))]
	}
	if t.Intn(5) == 0 {
		key = strconv.Itoa(t.Intn(3))
	}
	idx := t.Intn(5) - 1
	iv := t.Intn(2000) - 1000
	fv := float64(iv) / 8
	bv := t.Intn(2) == 0
	sv := string(val)
	type edit struct {
		name string
		f    func(j, v []byte, p []string) ([]byte, error)
	}
	edits := []edit{
		{"Set", func(j, v []byte, p []string) ([]byte, error) { return jin.Set(j, v, p...) }},
		{"SetKey", func(j, v []byte, p []string) ([]byte, error) { return jin.SetKey(j, key, p...) }},
		{"Store", func(j, v []byte, p []string) ([]byte, error) { return jin.Store(j, key, v, p...) }},
		{"Add", func(j, v []byte, p []string) ([]byte, error) { return jin.Add(j, v, p...) }},
		{"AddKeyValue", func(j, v []byte, p []string) ([]byte, error) { return jin.AddKeyValue(j, key, v, p...) }},
		{"Insert", func(j, v []byte, p []string) ([]byte, error) { return jin.Insert(j, idx, v, p...) }},
		{"Delete", func(j, v []byte, p []string) ([]byte, error) { return jin.Delete(j, p...) }},
		{"SetString", func(j, v []byte, p []string) ([]byte, error) { return jin.SetString(j, sv, p...) }},
		{"SetInt", func(j, v []byte, p []string) ([]byte, error) { return jin.SetInt(j, iv, p...) }},
		{"SetFloat", func(j, v []byte, p []string) ([]byte, error) { return jin.SetFloat(j, fv, p...) }},
		{"SetBool", func(j, v []byte, p []string) ([]byte, error) { return jin.SetBool(j, bv, p...) }},
		{"StoreString", func(j, v []byte, p []string) ([]byte, error) { return jin.StoreString(j, key, sv, p...) }},
		{"StoreInt", func(j, v []byte, p []string) ([]byte, error) { return jin.StoreInt(j, key, iv, p...) }},
		{"StoreFloat", func(j, v []byte, p []string) ([]byte, error) { return jin.StoreFloat(j, key, fv, p...) }},
		{"StoreBool", func(j, v []byte, p []string) ([]byte, error) { return jin.StoreBool(j, key, bv, p...) }},
		{"AddString", func(j, v []byte, p []string) ([]byte, error) { return jin.AddString(j, sv, p...) }},
		{"AddInt", func(j, v []byte, p []string) ([]byte, error) { return jin.AddInt(j, iv, p...) }},
		{"AddInt32", func(j, v []byte, p []string) ([]byte, error) { return jin.AddInt32(j, int32(iv), p...) }},
		{"AddInt64", func(j, v []byte, p []string) ([]byte, error) { return jin.AddInt64(j, int64(iv), p...) }},
		{"AddUint", func(j, v []byte, p []string) ([]byte, error) { return jin.AddUint(j, uint(iv), p...) }},
		{"AddUint32", func(j, v []byte, p []string) ([]byte, error) { return jin.AddUint32(j, uint32(iv), p...) }},
		{"AddUint64", func(j, v []byte, p []string) ([]byte, error) { return jin.AddUint64(j, uint64(iv), p...) }},
		{"AddFloat", func(j, v []byte, p []string) ([]byte, error) { return jin.AddFloat(j, fv, p...) }},
		{"AddBool", func(j, v []byte, p []string) ([]byte, error) { return jin.AddBool(j, bv, p...) }},
		{"AddKeyValueString", func(j, v []byte, p []string) ([]byte, error) { return jin.AddKeyValueString(j, key, sv, p...) }},
		{"AddKeyValueInt", func(j, v []byte, p []string) ([]byte, error) { return jin.AddKeyValueInt(j, key, iv, p...) }},
		{"AddKeyValueInt32", func(j, v []byte, p []string) ([]byte, error) { return jin.AddKeyValueInt32(j, key, int32(iv), p...) }},
		{"AddKeyValueInt64", func(j, v []byte, p []string) ([]byte, error) { return jin.AddKeyValueInt64(j, key, int64(iv), p...) }},
		{"AddKeyValueUint", func(j, v []byte, p []string) ([]byte, error) { return jin.AddKeyValueUint(j, key, uint(iv), p...) }},
		{"AddKeyValueUint32", func(j, v []byte, p []string) ([]byte, error) { return jin.AddKeyValueUint32(j, key, uint32(iv), p...) }},
		{"AddKeyValueUint64", func(j, v []byte, p []string) ([]byte, error) { return jin.AddKeyValueUint64(j, key, uint64(iv), p...) }},
		{"AddKeyValueFloat", func(j, v []byte, p []string) ([]byte, error) { return jin.AddKeyValueFloat(j, key, fv, p...) }},
		{"AddKeyValueBool", func(j, v []byte, p []string) ([]byte, error) { return jin.AddKeyValueBool(j, key, bv, p...) }},
		{"InsertString", func(j, v []byte, p []string) ([]byte, error) { return jin.InsertString(j, idx, sv, p...) }},
		{"InsertInt", func(j, v []byte, p []string) ([]byte, error) { return jin.InsertInt(j, idx, iv, p...) }},
		{"InsertInt32", func(j, v []byte, p []string) ([]byte, error) { return jin.InsertInt32(j, idx, int32(iv), p...) }},
		{"InsertInt64", func(j, v []byte, p []string) ([]byte, error) { return jin.InsertInt64(j, idx, int64(iv), p...) }},
		{"InsertUint", func(j, v []byte, p []string) ([]byte, error) { return jin.InsertUint(j, idx, uint(iv), p...) }},
		{"InsertUint32", func(j, v []byte, p []string) ([]byte, error) { return jin.InsertUint32(j, idx, uint32(iv), p...) }},
		{"InsertUint64", func(j, v []byte, p []string) ([]byte, error) { return jin.InsertUint64(j, idx, uint64(iv), p...) }},
		{"InsertFloat", func(j, v []byte, p []string) ([]byte, error) { return jin.InsertFloat(j, idx, fv, p...) }},
		{"InsertBool", func(j, v []byte, p []string) ([]byte, error) { return jin.InsertBool(j, idx, bv, p...) }},
	}
	n := 7
	if t.Intn(4) == 0 {
		n = len(edits)
	}
	for _, e := range edits[:n] {
		gj, wj := guarded(b, false)
		gv, wv := guarded(val, true)
		if val == nil {
			gv = nil
		}
		gp, wp := guardedPath(path)
		t.call("%s(%s, value %q, path %q, key %q, index %d)", e.name, q(b), val, path, key, idx)
		out, err := e.f(gj, gv, gp)
		if !intact(wj, b) {
			t.fail("the document slice was written: %q", wj)
		}
		if !intact(wv, val) {
			t.fail("the value slice was written: %q", wv)
		}
		if !intactPath(wp, path) {
			t.fail("the path slice was written: %q", wp)
		}
		if err != nil {
			if string(out) != string(b) {
				t.fail("returned an error (%v) and another document %q", err, out)
			}
			continue
		}
		full := out[:cap(out)]
		save := string(out)
		for i := range wv {
			wv[i] ^= 0xff
		}
		if string(out) != save {
			t.fail("the result shares memory with the value")
		}
		for i := range wv {
			wv[i] ^= 0xff
		}
		for i := range full {
			full[i] ^= 0xff
		}
		if !intact(wj, b) || !intact(wv, val) {
			t.fail("the result is not a new slice: it shares memory with an argument")
		}
	}
	if t.Intn(6) == 0 {
		gj, wj := guarded(b, false)
		gp, wp := guardedPath(path)
		t.allReads(gj, gp)
		if !intact(wj, b) {
			t.fail("the document slice was written: %q", wj)
		}
		if !intactPath(wp, path) {
			t.fail("the path slice was written: %q", wp)
		}
	}
}

func (t *T) allReads(b []byte, path []string) {
	t.call("the reading functions on %s, path %q", q(b), path)
	allCalls(t, b, path)
}

var errStop = errors.New("stop here")

func propC10(t *T) {
	d := t.doc(0)
	path := t.anyPath(d, 'a')
	if oddPath(path) {
		return
	}
	v, _, _ := d.resolve(path)
	var got []string
	t.call("IterateArray(%s, %q)", q(d.b), path)
	err := jin.IterateArray(d.b, func(b []byte) (bool, error) { got = append(got, string(b)); return true, nil }, path...)
	if v == nil || v.K != 'a' {
		t.wantErr(err, "the path addresses no array")
		if len(got) > 0 {
			t.fail("the callback was called: %q", got)
		}
		return
	}
	var want []string
	for _, k := range v.Kids {
		want = append(want, d.text(k))
	}
	t.nontriv = len(want) > 0
	t.noErr(err)
	if !eqs(got, want) {
		t.fail("visited %q, want %q", got, want)
	}
	if len(want) == 0 {
		return
	}
	at := t.Intn(len(want))
	if t.Intn(3) == 0 {
		at = len(want) - 1
	}
	mode := t.Intn(4)
	got = nil
	t.call("IterateArray(%s, %q) stopping at %d, mode %d", q(d.b), path, at, mode)
	err = jin.IterateArray(d.b, func(b []byte) (bool, error) {
		got = append(got, string(b))
		if len(got) == at+1 {
			switch mode {
			case 0:
				return false, nil
			case 1:
				return false, errStop
			case 2:
				return true, errStop
			default:
				return false, errStop
			}
		}
		return true, nil
	}, path...)
	if !eqs(got, want[:at+1]) {
		t.fail("visited %q, want %q", got, want[:at+1])
	}
	if mode == 0 {
		t.noErr(err)
	} else if err != errStop {
		t.fail("returned %v, not the callback's error", err)
	}
}

func propC11(t *T) {
	d := t.doc(0)
	path := t.anyPath(d, 'o')
	if oddPath(path) {
		return
	}
	v, _, _ := d.resolve(path)
	var got []string
	t.call("IterateKeyValue(%s, %q)", q(d.b), path)
	err := jin.IterateKeyValue(d.b, func(k, b []byte) (bool, error) { got = append(got, string(k), string(b)); return true, nil }, path...)
	if v == nil || v.K != 'o' {
		t.wantErr(err, "the path addresses no object")
		if len(got) > 0 {
			t.fail("the callback was called: %q", got)
		}
		return
	}
	var want []string
	for i, k := range v.Kids {
		want = append(want, d.key(v, i), d.text(k))
	}
	if !eqs(got, want) {
		t.fail("visited %q, want %q", got, want)
	}
	if len(want) == 0 {
		return
	}
	t.nontriv = true
	t.noErr(err)
	at := t.Intn(len(v.Kids))
	if t.Intn(3) == 0 {
		at = len(v.Kids) - 1
	}
	mode := t.Intn(3)
	got = nil
	t.call("IterateKeyValue(%s, %q) stopping at %d, mode %d", q(d.b), path, at, mode)
	err = jin.IterateKeyValue(d.b, func(k, b []byte) (bool, error) {
		got = append(got, string(k), string(b))
		if len(got) == 2*at+2 {
			switch mode {
			case 0:
				return false, nil
			case 1:
				return false, errStop
			default:
				return true, errStop
			}
		}
		return true, nil
	}, path...)
	if !eqs(got, want[:2*at+2]) {
		t.fail("visited %q, want %q", got, want[:2*at+2])
	}
	if mode == 0 {
		t.noErr(err)
	} else if err != errStop {
		t.fail("returned %v, not the callback's error", err)
	}
}

func propC12(t *T) {
	d := t.doc(0)
	path := t.anyPath(d, "oooa"[t.Intn(4)])
	if oddPath(path) {
		return
	}
	v, _, _ := d.resolve(path)
	if v == nil || v.K != 'o' && v.K != 'a' {
		return
	}
	t.nontriv = true
	t.call("Length(%s, %q)", q(d.b), path)
	n, err := jin.Length(d.b, path...)
	t.noErr(err)
	if n != len(v.Kids) {
		t.fail("Length %d, want %d", n, len(v.Kids))
	}
	t.call("IsEmpty(%s, %q)", q(d.b), path)
	e, err := jin.IsEmpty(d.b, path...)
	t.noErr(err)
	if e != (len(v.Kids) == 0) {
		t.fail("IsEmpty %v for %d items", e, len(v.Kids))
	}
	if v.K != 'o' || string(d.b) == "{}" {
		return
	}
	var ks, vs []string
	for i, k := range v.Kids {
		ks = append(ks, d.key(v, i))
		vs = append(vs, d.text(k))
	}
	t.call("GetKeys(%s, %q)", q(d.b), path)
	gk, err := jin.GetKeys(d.b, path...)
	t.noErr(err)
	if !eqs(gk, ks) {
		t.fail("keys %q, want %q", gk, ks)
	}
	t.call("GetValues(%s, %q)", q(d.b), path)
	gv, err := jin.GetValues(d.b, path...)
	t.noErr(err)
	if !eqs(gv, vs) {
		t.fail("values %q, want %q", gv, vs)
	}
	t.call("GetKeysValues(%s, %q)", q(d.b), path)
	gk, gv, err = jin.GetKeysValues(d.b, path...)
	t.noErr(err)
	if !eqs(gk, ks) || !eqs(gv, vs) {
		t.fail("keys %q values %q, want %q %q", gk, gv, ks, vs)
	}
}

var ints = []int64{0, 1, -1, 7, 9, 10, 42, 99, 100, -100, 127, 128, 255, 256, 1000, 32767, 65536, 2147483647, -2147483648, 2147483648, 4294967295, 4294967296, 9223372036854775807, -9223372036854775808}
var floats = []float64{0, 1, -1, 0.5, 1.5, -2.25, 0.1, 1e-7, 1e21, 123456789.125, 1e300, 5e-324, math.MaxFloat64, math.Copysign(0, -1), 100, 1234567, 1e6, 3.0}

func (t *T) anInt() int64 {
	switch t.Intn(3) {
	case 0:
		return ints[t.Intn(len(ints))]
	case 1:
		return int64(t.Uint64())
	}
	return int64(t.Intn(3000) - 1500)
}

func (t *T) aFloat() float64 {
	switch t.Intn(4) {
	case 0:
		return floats[t.Intn(len(floats))]
	case 1:
		return float64(t.Intn(100000)-50000) / 100
	case 2:
		return float64(t.Intn(2000) - 1000)
	}
	f := math.Float64frombits(t.Uint64())
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 1.25
	}
	return f
}

func propC15(t *T) {
	d := t.doc(0)
	i, f, bv := t.anInt(), t.aFloat(), t.Intn(2) == 0
	is := strconv.FormatInt(int64(int(i)), 10)
	fs := strconv.FormatFloat(f, 'f', -1, 64)
	bs := strconv.FormatBool(bv)
	path := t.anyPath(d, "oa\x00\x00"[t.Intn(4)])
	if oddPath(path) {
		return
	}
	t.nontriv = true
	key := t.newKey()
	idx := t.Intn(3)
	type pair struct {
		name  string
		typed func() ([]byte, error)
		plain string
	}
	b := d.b
	set := []pair{
		{"SetInt", func() ([]byte, error) { return jin.SetInt(b, int(i), path...) }, is},
		{"SetFloat", func() ([]byte, error) { return jin.SetFloat(b, f, path...) }, fs},
		{"SetBool", func() ([]byte, error) { return jin.SetBool(b, bv, path...) }, bs},
	}
	sto := []pair{
		{"StoreInt", func() ([]byte, error) { return jin.StoreInt(b, key, int(i), path...) }, is},
		{"StoreFloat", func() ([]byte, error) { return jin.StoreFloat(b, key, f, path...) }, fs},
		{"StoreBool", func() ([]byte, error) { return jin.StoreBool(b, key, bv, path...) }, bs},
	}
	u32 := strconv.FormatUint(uint64(uint32(i)), 10)
	u64 := strconv.FormatUint(uint64(i), 10)
	i32 := strconv.FormatInt(int64(int32(i)), 10)
	add := []pair{
		{"AddInt", func() ([]byte, error) { return jin.AddInt(b, int(i), path...) }, is},
		{"AddInt32", func() ([]byte, error) { return jin.AddInt32(b, int32(i), path...) }, i32},
		{"AddInt64", func() ([]byte, error) { return jin.AddInt64(b, i, path...) }, is},
		{"AddUint", func() ([]byte, error) { return jin.AddUint(b, uint(i), path...) }, u64},
		{"AddUint32", func() ([]byte, error) { return jin.AddUint32(b, uint32(i), path...) }, u32},
		{"AddUint64", func() ([]byte, error) { return jin.AddUint64(b, uint64(i), path...) }, u64},
		{"AddFloat", func() ([]byte, error) { return jin.AddFloat(b, f, path...) }, fs},
		{"AddBool", func() ([]byte, error) { return jin.AddBool(b, bv, path...) }, bs},
	}
	ins := []pair{
		{"InsertInt", func() ([]byte, error) { return jin.InsertInt(b, idx, int(i), path...) }, is},
		{"InsertInt32", func() ([]byte, error) { return jin.InsertInt32(b, idx, int32(i), path...) }, i32},
		{"InsertInt64", func() ([]byte, error) { return jin.InsertInt64(b, idx, i, path...) }, is},
		{"InsertUint", func() ([]byte, error) { return jin.InsertUint(b, idx, uint(i), path...) }, u64},
		{"InsertUint32", func() ([]byte, error) { return jin.InsertUint32(b, idx, uint32(i), path...) }, u32},
		{"InsertUint64", func() ([]byte, error) { return jin.InsertUint64(b, idx, uint64(i), path...) }, u64},
		{"InsertFloat", func() ([]byte, error) { return jin.InsertFloat(b, idx, f, path...) }, fs},
		{"InsertBool", func() ([]byte, error) { return jin.InsertBool(b, idx, bv, path...) }, bs},
	}
	akv := []pair{
		{"AddKeyValueInt", func() ([]byte, error) { return jin.AddKeyValueInt(b, key, int(i), path...) }, is},
		{"AddKeyValueInt32", func() ([]byte, error) { return jin.AddKeyValueInt32(b, key, int32(i), path...) }, i32},
		{"AddKeyValueInt64", func() ([]byte, error) { return jin.AddKeyValueInt64(b, key, i, path...) }, is},
		{"AddKeyValueUint", func() ([]byte, error) { return jin.AddKeyValueUint(b, key, uint(i), path...) }, u64},
		{"AddKeyValueUint32", func() ([]byte, error) { return jin.AddKeyValueUint32(b, key, uint32(i), path...) }, u32},
		{"AddKeyValueUint64", func() ([]byte, error) { return jin.AddKeyValueUint64(b, key, uint64(i), path...) }, u64},
		{"AddKeyValueFloat", func() ([]byte, error) { return jin.AddKeyValueFloat(b, key, f, path...) }, fs},
		{"AddKeyValueBool", func() ([]byte, error) { return jin.AddKeyValueBool(b, key, bv, path...) }, bs},
	}
	run := func(p pair, plain func(v []byte) ([]byte, error)) {
		t.call("%s(%s, path %q, key %q, index %d, value %s)", p.name, q(b), path, key, idx, p.plain)
		g, e := p.typed()
		w, we := plain([]byte(p.plain))
		if (e == nil) != (we == nil) {
			t.fail("error %v, the untyped function gives %v", e, we)
		}
		t.same(g, string(w))
	}
	for _, p := range set {
		run(p, func(v []byte) ([]byte, error) { return jin.Set(b, v, path...) })
	}
	for _, p := range sto {
		run(p, func(v []byte) ([]byte, error) { return jin.Store(b, key, v, path...) })
	}
	for _, p := range add {
		run(p, func(v []byte) ([]byte, error) { return jin.Add(b, v, path...) })
	}
	for _, p := range ins {
		run(p, func(v []byte) ([]byte, error) { return jin.Insert(b, idx, v, path...) })
	}
	if key != "" {
		for _, p := range akv {
			run(p, func(v []byte) ([]byte, error) { return jin.AddKeyValue(b, key, v, path...) })
		}
	}
	v, _, _ := d.resolve(path)
	if v == nil || len(path) == 0 {
		return
	}
	// what was written reads back
	if o, err := jin.SetInt(b, int(i), path...); err == nil {
		t.call("GetInt after SetInt(%s, %d, %q)", q(b), i, path)
		g, err := jin.GetInt(o, path...)
		t.noErr(err)
		if int64(g) != int64(int(i)) {
			t.fail("GetInt %d after SetInt %d", g, i)
		}
	}
	if o, err := jin.SetBool(b, bv, path...); err == nil {
		t.call("GetBool after SetBool(%s, %v, %q)", q(b), bv, path)
		g, err := jin.GetBool(o, path...)
		t.noErr(err)
		if g != bv {
			t.fail("GetBool %v after SetBool %v", g, bv)
		}
	}
	if o, err := jin.SetFloat(b, f, path...); err == nil {
		t.call("GetFloat after SetFloat(%s, %v, %q)", q(b), f, path)
		g, err := jin.GetFloat(o, path...)
		t.noErr(err)
		if math.Float64bits(g) != math.Float64bits(f) {
			t.fail("GetFloat %v after SetFloat %v", g, f)
		}
	}
	// the typed getters on what is there
	tx := d.text(v)
	t.call("typed getters(%s, %q)", q(b), path)
	gi, err := jin.GetInt(b, path...)
	wi, werr := strconv.Atoi(tx)
	if (err == nil) != (werr == nil) || err == nil && gi != wi {
		t.fail("GetInt of %q: %d, %v", tx, gi, err)
	}
	gf, err := jin.GetFloat(b, path...)
	wf, werr := strconv.ParseFloat(tx, 64)
	if (err == nil) != (werr == nil) || err == nil && math.Float64bits(gf) != math.Float64bits(wf) {
		t.fail("GetFloat of %q: %v, %v", tx, gf, err)
	}
	gb, err := jin.GetBool(b, path...)
	isB := tx == "true" || tx == "false"
	if (err == nil) != isB || isB && gb != (tx == "true") {
		t.fail("GetBool of %q: %v, %v", tx, gb, err)
	}
}

// typedArray makes an array whose elements are mostly of one kind.
func (t *T) typedArray() string {
	var sb strings.Builder
	t.ws = t.Intn(5)
	kind := t.Intn(4)
	n := t.size(12)
	sb.WriteByte('[')
	for i := 0; i < n; i++ {
		if i > 0 {
			t.sp(&sb)
			sb.WriteByte(',')
		}
		t.sp(&sb)
		k := kind
		if t.Intn(25) == 0 {
			k = t.Intn(5)
		}
		switch k {
		case 0:
			sb.WriteString(strconv.FormatInt(t.anInt(), 10))
		case 1:
			sb.WriteString(strconv.FormatFloat(t.aFloat(), "feg"[t.Intn(3)], -1, 64))
		case 2:
			sb.WriteString(strconv.FormatBool(t.Intn(2) == 0))
		case 3:
			sb.WriteString(`"` + t.rawString(baseStr) + `"`)
		default:
			t.budget = 5
			t.value(&sb, 2)
		}
	}
	t.sp(&sb)
	sb.WriteByte(']')
	return sb.String()
}

func propC16(t *T) {
	t.keys = []string{"a"}
	var d *D
	var path []string
	if t.Intn(2) == 0 {
		at := t.typedArray()
		if v := parseDoc([]byte(at)); v == nil {
			return
		}
		pre, post := "", ""
		switch t.Intn(3) {
		case 0:
			pre, post, path = `{"x": 1 , "a" : `, ` }`, []string{"a"}
		case 1:
			pre, post, path = `["s",`, `]`, []string{"1"}
		default:
			pre, post, path = `[[`, `],1]`, []string{"0", "0"}
		}
		b := []byte(pre + at + post)
		d = &D{b, parseDoc(b)}
	} else {
		d = t.doc(1)
		var ok bool
		path, ok = t.pathTo(d, 'a')
		if !ok || len(path) == 0 {
			return
		}
	}
	v, _, _ := d.resolve(path)
	if v == nil || v.K != 'a' {
		return
	}
	t.nontriv = true
	want := []string{}
	wi, wf, wb := []int{}, []float64{}, []bool{}
	ei, ef, eb := false, false, false
	for _, k := range v.Kids {
		x := d.text(k)
		want = append(want, x)
		if n, err := strconv.Atoi(x); err == nil {
			wi = append(wi, n)
		} else {
			ei = true
		}
		if n, err := strconv.ParseFloat(x, 64); err == nil {
			wf = append(wf, n)
		} else {
			ef = true
		}
		if x == "true" || x == "false" {
			wb = append(wb, x == "true")
		} else {
			eb = true
		}
	}
	t.call("ParseArray(%q)", d.raw(v))
	pa := jin.ParseArray(d.raw(v))
	if pa == nil || !eqs(pa, want) {
		t.fail("got %q, want %q", pa, want)
	}
	t.call("GetStringArray(%s, %q)", q(d.b), path)
	gs, err := jin.GetStringArray(d.b, path...)
	t.noErr(err)
	if gs == nil || !eqs(gs, want) {
		t.fail("got %q, want %q", gs, want)
	}
	p, perr := jin.Parse(d.b)
	t.noErr(perr)
	check := func(name string, got interface{}, err error, want interface{}, wantErr bool) {
		t.call("%s(%s, %q)", name, q(d.b), path)
		if wantErr {
			t.wantErr(err, "an element does not convert")
			return
		}
		t.noErr(err)
		if fmt.Sprintf("%v", got) != fmt.Sprintf("%v", want) || reflect.ValueOf(got).IsNil() {
			t.fail("got %v, want %v", got, want)
		}
	}
	g1, err := jin.GetIntArray(d.b, path...)
	check("GetIntArray", g1, err, wi, ei)
	g2, err := jin.GetFloatArray(d.b, path...)
	check("GetFloatArray", g2, err, wf, ef)
	g3, err := jin.GetBoolArray(d.b, path...)
	check("GetBoolArray", g3, err, wb, eb)
	h0, err := p.GetStringArray(path...)
	check("Parser.GetStringArray", h0, err, want, false)
	h1, err := p.GetIntArray(path...)
	check("Parser.GetIntArray", h1, err, wi, ei)
	h2, err := p.GetFloatArray(path...)
	check("Parser.GetFloatArray", h2, err, wf, ef)
	h3, err := p.GetBoolArray(path...)
	check("Parser.GetBoolArray", h3, err, wb, eb)
}

func (t *T) emitString() string {
	switch t.Intn(5) {
	case 0:
		return baseScalar[t.Intn(len(baseScalar))]
	case 1:
		return []string{"+5", "-", "01", "-01", ".5", "5.", "1e", "1e+", "inf", "NaN", "Infinity", "0x10", "1_0", "nil", "True", "NULL", "\"", "[", "]", "{", "}", "[}", "{]", "\"a", "a\"", "00", "-0", "1.", "1.e5", "0x1p-2", "1.5.5", "--1", "e5", "1 ", " 1"}[t.Intn(35)]
	case 2:
		return `"` + t.rawString(baseStr) + `"`
	case 3:
		return t.jsonText()
	}
	return t.rawString(baseStr)
}

func propC17(t *T) {
	t.nontriv = true
	n := t.size(20)
	keys, vals := []string{}, []string{}
	anys := []interface{}{}
	texts := []string{}
	for i := 0; i < n; i++ {
		keys = append(keys, t.newKey()+strconv.Itoa(i))
		vals = append(vals, t.emitString())
		var a interface{}
		switch t.Intn(5) {
		case 0:
			a = int(t.anInt())
		case 1:
			a = t.Intn(2) == 0
		case 2:
			a = t.aFloat()
		default:
			a = t.emitString()
		}
		anys = append(anys, a)
		texts = append(texts, emitRule(fmt.Sprintf("%v", a)))
	}
	obj := func(f func(i int) string) string {
		var p []string
		for i, k := range keys {
			p = append(p, `"`+k+`":`+f(i))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	arr := func(n int, f func(i int) string) string {
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, f(i))
		}
		return "[" + strings.Join(p, ",") + "]"
	}
	t.call("MakeJson(%q, %q)", keys, anys)
	t.same(jin.MakeJson(keys, anys), obj(func(i int) string { return texts[i] }))
	t.call("MakeJsonString(%q, %q)", keys, vals)
	t.same(jin.MakeJsonString(keys, vals), obj(func(i int) string { return emitRule(vals[i]) }))
	s := jin.MakeScheme(keys...)
	t.call("Scheme(%q).MakeJson(%q)", keys, anys)
	t.same(s.MakeJson(anys...), obj(func(i int) string { return texts[i] }))
	t.call("Scheme(%q).MakeJsonString(%q)", keys, vals)
	t.same(s.MakeJsonString(vals...), obj(func(i int) string { return emitRule(vals[i]) }))
	t.call("MakeArray(%q)", anys)
	t.same(jin.MakeArray(anys...), arr(n, func(i int) string { return texts[i] }))
	t.call("MakeArrayString(%q)", vals)
	t.same(jin.MakeArrayString(vals), arr(n, func(i int) string { return emitRule(vals[i]) }))
	is, fs, bs, bb := []int{}, []float64{}, []bool{}, [][]byte{}
	for i := 0; i < n; i++ {
		is = append(is, int(t.anInt()))
		fs = append(fs, t.aFloat())
		bs = append(bs, t.Intn(2) == 0)
		bb = append(bb, []byte(t.jsonText()))
	}
	t.call("MakeArrayInt(%v)", is)
	t.same(jin.MakeArrayInt(is), arr(n, func(i int) string { return strconv.Itoa(is[i]) }))
	t.call("MakeArrayFloat(%v)", fs)
	t.same(jin.MakeArrayFloat(fs), arr(n, func(i int) string { return strconv.FormatFloat(fs[i], 'f', -1, 64) }))
	t.call("MakeArrayBool(%v)", bs)
	t.same(jin.MakeArrayBool(bs), arr(n, func(i int) string { return strconv.FormatBool(bs[i]) }))
	t.call("MakeArrayBytes(%q)", bb)
	t.same(jin.MakeArrayBytes(bb...), arr(n, func(i int) string { return string(bb[i]) }))
	m := t.Intn(n + 3)
	if m != n {
		short := make([]string, m)
		shortA := make([]interface{}, m)
		t.call("MakeJsonString with %d keys and %d values", n, m)
		if jin.MakeJsonString(keys, short) != nil || jin.MakeJson(keys, shortA) != nil || s.MakeJson(shortA...) != nil || s.MakeJsonString(short...) != nil {
			t.fail("lists of different length do not give nil")
		}
	}
	if t.Intn(10) == 0 {
		t.call("builders on nil lists")
		t.same(jin.MakeJson(nil, nil), "{}")
		t.same(jin.MakeJsonString(nil, nil), "{}")
		t.same(jin.MakeArray(), "[]")
		t.same(jin.MakeArrayString(nil), "[]")
		t.same(jin.MakeArrayInt(nil), "[]")
		t.same(jin.MakeArrayFloat(nil), "[]")
		t.same(jin.MakeArrayBool(nil), "[]")
		t.same(jin.MakeArrayBytes(), "[]")
		t.same(jin.MakeEmptyArray(), "[]")
		t.same(jin.MakeEmptyJson(), "{}")
	}
}

func has(l []string, k string) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

func propC18(t *T) {
	t.nontriv = true
	pool := []string{"a", "b", "c", "d", "e", "", "key", "ab", "aa", "f", "g", "h"}
	for i := 0; i < 3; i++ {
		pool = append(pool, t.newKey())
	}
	var init []string
	n := t.size(14)
	for i := 0; i < n; i++ {
		k := pool[t.Intn(len(pool))]
		if !has(init, k) {
			init = append(init, k)
		}
	}
	arg, whole := guardedPath(init)
	if t.Intn(3) == 0 {
		arg = append([]string(nil), init...)
		whole = arg
	}
	snap := append([]string(nil), whole...)
	s := jin.MakeScheme(arg...)
	cur := append([]string(nil), init...)
	orig := append([]string(nil), init...)
	trace := fmt.Sprintf("MakeScheme(%q)", init)
	steps := 1 + t.Intn(14)
	for k := 0; k < steps; k++ {
		key := pool[t.Intn(len(pool))]
		if len(cur) > 0 && t.Intn(2) == 0 {
			key = cur[t.Intn(len(cur))]
		}
		if len(orig) > 0 && t.Intn(4) == 0 {
			key = orig[t.Intn(len(orig))]
		}
		switch t.Intn(7) {
		case 0, 1, 2:
			trace += fmt.Sprintf(".Add(%q)", key)
			t.call("%s", trace)
			got := s.Add(key)
			if got == has(cur, key) {
				t.fail("Add reports %v", got)
			}
			if !has(cur, key) {
				cur = append(append([]string(nil), cur...), key)
			}
		case 3, 4:
			trace += fmt.Sprintf(".Remove(%q)", key)
			t.call("%s", trace)
			got := s.Remove(key)
			if got != has(cur, key) {
				t.fail("Remove reports %v", got)
			}
			var nc []string
			for _, x := range cur {
				if x != key {
					nc = append(nc, x)
				}
			}
			cur = nc
		case 5:
			trace += ".Save()"
			t.call("%s", trace)
			s.Save()
			orig = append([]string(nil), cur...)
		default:
			trace += ".Restore()"
			t.call("%s", trace)
			s.Restore()
			cur = append([]string(nil), orig...)
		}
		if !eqs(s.GetCurrentKeys(), cur) {
			t.fail("current keys %q, want %q", s.GetCurrentKeys(), cur)
		}
		if !eqs(s.GetOriginalKeys(), orig) {
			t.fail("original keys %q, want %q", s.GetOriginalKeys(), orig)
		}
		if !eqs(whole, snap) {
			t.fail("the slice the Scheme was created from changed: %q", whole)
		}
	}
	w := "{"
	vs := make([]string, len(cur))
	for i, k := range cur {
		if i > 0 {
			w += ","
		}
		vs[i] = "1"
		w += `"` + k + `":1`
	}
	t.same(s.MakeJsonString(vs...), w+"}")
}

var codes = map[string]int{
	"NullPath": 0, "EmptyArray": 2, "IndexExpected": 3, "ObjectExpected": 5, "ArrayExpected": 6, "IndexOutOfRange": 7,
	"KeyNotFound": 8, "BadJSON": 9, "KeyAlreadyExist": 11, "IntegerParse": 12, "FloatParse": 13, "BoolParse": 14,
	"StringArrayParse": 15, "IntegerArrayParse": 16, "FloatArrayParse": 17, "BoolArrayParse": 18, "NullKey": 19, "Empty": 20}

func (t *T) code(err error, want string) {
	if err == nil {
		t.fail("no error, want %s", want)
	}
	for c := -2; c < 120; c++ {
		if jin.ErrEqual(err, c) != (c == codes[want]) {
			t.fail("error %q: ErrEqual(err, %d) is %v, want code %s", err.Error(), c, jin.ErrEqual(err, c), want)
		}
	}
}

// oneCode: any error the package reports carries exactly one documented code.
func (t *T) oneCode(err error) {
	if err == nil {
		return
	}
	n := 0
	for c := -2; c < 120; c++ {
		if jin.ErrEqual(err, c) {
			n++
			ok := false
			for _, k := range codes {
				ok = ok || k == c
			}
			if !ok {
				t.fail("error %q carries code %d", err.Error(), c)
			}
		}
	}
	if n != 1 {
		t.fail("error %q carries %d codes", err.Error(), n)
	}
}

func propC19(t *T) {
	for c := -2; c < 120; c += 1 + t.Intn(3) {
		if jin.ErrEqual(nil, c) {
			t.fail("ErrEqual(nil, %d)", c)
		}
		for _, m := range []string{"", "x", "no code", "code 1", "+8", " 8", "-1", "error +9", "08 ", "0x", "1_0", "８"} {
			if jin.ErrEqual(errors.New(m), c) {
				t.fail("ErrEqual(%q, %d)", m, c)
			}
		}
	}
	d := t.doc(0)
	// well-formed documents: the code is known
	path := t.anyPath(d, "oa\x00"[t.Intn(3)])
	if oddPath(path) {
		return
	}
	key := t.newKey()
	if oddIndex(key) {
		return
	}
	b := d.b
	v, par, _ := d.resolve(path)
	// where and why the path breaks
	why := func(p []string) string {
		v := d.v
		for i, e := range p {
			j := d.find(v, e)
			if j < 0 {
				switch {
				case v.K == 'a' && len(v.Kids) == 0 && canonIndex(e) >= 0:
					if canonIndex(e) == 0 && i == len(p)-1 {
						return "EmptyArray"
					}
					return "IndexOutOfRange|EmptyArray"
				case v.K == 'a' && len(v.Kids) > 0:
					if _, err := strconv.Atoi(e); err != nil {
						return "IndexExpected"
					}
					return "IndexOutOfRange"
				case v.K == 'o':
					return "KeyNotFound"
				}
				_ = i
				return ""
			}
			v = v.Kids[j]
		}
		return ""
	}
	chk := func(err error, want string) {
		if want == "" {
			t.oneCode(err)
			return
		}
		if strings.Contains(want, "|") {
			t.oneCode(err)
			if err == nil {
				t.fail("no error, want %s", want)
			}
			return
		}
		t.code(err, want)
	}
	t.nontriv = true
	_, err := jin.Set(b, []byte("1"))
	t.call("Set(%s)", q(b))
	t.code(err, "NullPath")
	_, err = jin.Delete(b)
	t.call("Delete(%s)", q(b))
	t.code(err, "NullPath")
	_, err = jin.SetKey(b, key)
	t.call("SetKey(%s, %q)", q(b), key)
	if key == "" {
		t.code(err, "NullKey")
	} else {
		t.code(err, "NullPath")
	}
	if v == nil {
		w := why(path)
		t.call("Get(%s, %q)", q(b), path)
		_, err = jin.Get(b, path...)
		t.wantErr(err, "the path addresses nothing")
		chk(err, w)
		t.call("Set(%s, 1, %q)", q(b), path)
		_, err = jin.Set(b, []byte("1"), path...)
		chk(err, w)
		t.call("Delete(%s, %q)", q(b), path)
		_, err = jin.Delete(b, path...)
		chk(err, w)
		t.call("GetInt(%s, %q)", q(b), path)
		_, err = jin.GetInt(b, path...)
		chk(err, w)
		t.call("AddKeyValue(%s, %q, 1, %q)", q(b), key, path)
		_, err = jin.AddKeyValue(b, key, []byte("1"), path...)
		if len(b) >= 2 {
			chk(err, w)
		}
		return
	}
	if len(path) > 0 {
		t.call("SetKey(%s, \"\", %q)", q(b), path)
		_, err = jin.SetKey(b, "", path...)
		t.code(err, "NullKey")
		if par.K == 'o' {
			ex := d.key(par, t.Intn(len(par.Kids)))
			t.call("SetKey(%s, %q, %q)", q(b), ex, path)
			_, err = jin.SetKey(b, ex, path...)
			if ex == "" {
				t.code(err, "NullKey")
			} else {
				t.code(err, "KeyAlreadyExist")
			}
		}
		tx := d.text(v)
		t.call("typed getters of %q", tx)
		_, err = jin.GetInt(b, path...)
		if _, e := strconv.Atoi(tx); e != nil {
			t.code(err, "IntegerParse")
		}
		_, err = jin.GetFloat(b, path...)
		if _, e := strconv.ParseFloat(tx, 64); e != nil {
			t.code(err, "FloatParse")
		}
		_, err = jin.GetBool(b, path...)
		if tx != "true" && tx != "false" {
			t.code(err, "BoolParse")
		}
		if len(tx) < 2 || tx[0] != '[' || tx[len(tx)-1] != ']' {
			_, err = jin.GetStringArray(b, path...)
			t.code(err, "StringArrayParse")
			_, err = jin.GetIntArray(b, path...)
			t.code(err, "IntegerArrayParse")
			_, err = jin.GetFloatArray(b, path...)
			t.code(err, "FloatArrayParse")
			_, err = jin.GetBoolArray(b, path...)
			t.code(err, "BoolArrayParse")
		} else if v.K == 'a' {
			_, err = jin.GetIntArray(b, path...)
			t.oneCode(err)
			_, err = jin.GetFloatArray(b, path...)
			t.oneCode(err)
			_, err = jin.GetBoolArray(b, path...)
			t.oneCode(err)
		}
	}
	t.call("AddKeyValueInt(%s, \"\", 1, %q)", q(b), path)
	_, err = jin.AddKeyValueInt(b, "", 1, path...)
	t.code(err, "NullKey")
	_, err = jin.AddKeyValueString(b, "", "x", path...)
	t.code(err, "NullKey")
	big := len(b) >= 3 && string(b) != "{}"
	if v.K != 'o' && len(b) >= 2 {
		t.call("AddKeyValue(%s, \"k\", 1, %q)", q(b), path)
		_, err = jin.AddKeyValue(b, "k", []byte("1"), path...)
		t.code(err, "ObjectExpected")
		if big {
			t.call("IterateKeyValue/GetKeys(%s, %q)", q(b), path)
			err = jin.IterateKeyValue(b, func(_, _ []byte) (bool, error) { return true, nil }, path...)
			t.code(err, "ObjectExpected")
			_, err = jin.GetKeys(b, path...)
			t.code(err, "ObjectExpected")
			_, err = jin.GetValues(b, path...)
			t.code(err, "ObjectExpected")
			_, _, err = jin.GetKeysValues(b, path...)
			t.code(err, "ObjectExpected")
		}
	} else if v.K == 'o' && len(v.Kids) > 0 {
		ex := d.key(v, t.Intn(len(v.Kids)))
		t.call("AddKeyValue(%s, %q, 1, %q)", q(b), ex, path)
		_, err = jin.AddKeyValue(b, ex, []byte("1"), path...)
		t.code(err, "KeyAlreadyExist")
		nk := t.newKey()
		if d.find(v, nk) < 0 {
			p := append(append([]string(nil), path...), nk)
			t.call("Get(%s, %q)", q(b), p)
			_, err = jin.Get(b, p...)
			t.code(err, "KeyNotFound")
		}
	}
	if v.K != 'a' && len(b) >= 2 {
		t.call("Add(%s, 1, %q)", q(b), path)
		_, err = jin.Add(b, []byte("1"), path...)
		t.code(err, "ArrayExpected")
		_, err = jin.Insert(b, 0, []byte("1"), path...)
		t.code(err, "ArrayExpected")
		if big {
			err = jin.IterateArray(b, func([]byte) (bool, error) { return true, nil }, path...)
			t.code(err, "ArrayExpected")
		}
	}
	if t.Intn(3) == 0 {
		// arbitrary bytes: exactly one code
		b := t.bytes()
		t.call("errors on %s, %q", q(b), path)
		_, err = jin.Get(b, path...)
		t.oneCode(err)
		_, err = jin.Set(b, []byte("1"), path...)
		t.oneCode(err)
		_, err = jin.Delete(b, path...)
		t.oneCode(err)
		_, err = jin.Add(b, []byte("1"), path...)
		t.oneCode(err)
		_, err = jin.Insert(b, 1, []byte("1"), path...)
		t.oneCode(err)
		_, err = jin.AddKeyValue(b, key, []byte("1"), path...)
		t.oneCode(err)
		_, err = jin.SetKey(b, key, path...)
		t.oneCode(err)
		_, err = jin.Store(b, key, []byte("1"), path...)
		t.oneCode(err)
		_, err = jin.GetKeys(b, path...)
		t.oneCode(err)
		_, err = jin.Length(b, path...)
		t.oneCode(err)
		_, err = jin.IsEmpty(b, path...)
		t.oneCode(err)
		_, err = jin.GetType(b, path...)
		t.oneCode(err)
		_, err = jin.GetMap(b, path...)
		t.oneCode(err)
		_, err = jin.Parse(b)
		t.oneCode(err)
	}
}

func es(err error) string {
	if err == nil {
		return "<nil>"
	}
	return "E:" + err.Error()
}

func propC20(t *T) {
	var b []byte
	var path []string
	d := t.doc(0)
	b = d.b
	path = t.anyPath(d, "oa\x00"[t.Intn(3)])
	t.nontriv = true
	if t.Intn(8) == 0 {
		b = t.bytes()
	}
	key := t.newKey()
	if len(t.keys) > 0 && t.Intn(2) == 0 {
		key = t.keys[t.Intn(len(t.keys))]
	}
	keys := []string{key, "0", "a"}
	if v, _, _ := d.resolve(path); v != nil && v.K == 'o' && len(v.Kids) > 0 && t.Intn(2) == 0 {
		keys = nil
		for i := range v.Kids {
			keys = append(keys, d.key(v, i))
		}
	}
	val := []byte(t.jsonText())
	if t.Intn(10) == 0 {
		val = nil
	}
	sv := t.emitString()
	idx := t.Intn(5) - 1
	iv := int(t.anInt())
	fv := t.aFloat()
	bv := t.Intn(2) == 0
	fresh := func() *jin.JO { return jin.New(append([]byte(nil), b...)) }
	read := func(name string, f func(j *jin.JO) string, g func() string) {
		t.call("JO.%s on %s, path %q, keys %q", name, q(b), path, keys)
		j := fresh()
		a, c := f(j), g()
		if a != c {
			t.fail("JO gives %q, the function gives %q", a, c)
		}
		t.same(j.JSON(), string(b))
	}
	S := fmt.Sprintf
	read("Get", func(j *jin.JO) string { r, e := j.Get(path...); return S("%q %s", r, es(e)) }, func() string { r, e := jin.Get(b, path...); return S("%q %s", r, es(e)) })
	read("GetString", func(j *jin.JO) string { r, e := j.GetString(path...); return S("%q %s", r, es(e)) }, func() string { r, e := jin.GetString(b, path...); return S("%q %s", r, es(e)) })
	read("GetInt", func(j *jin.JO) string { r, e := j.GetInt(path...); return S("%v %s", r, es(e)) }, func() string { r, e := jin.GetInt(b, path...); return S("%v %s", r, es(e)) })
	read("GetFloat", func(j *jin.JO) string { r, e := j.GetFloat(path...); return S("%v %s", r, es(e)) }, func() string { r, e := jin.GetFloat(b, path...); return S("%v %s", r, es(e)) })
	read("GetBool", func(j *jin.JO) string { r, e := j.GetBool(path...); return S("%v %s", r, es(e)) }, func() string { r, e := jin.GetBool(b, path...); return S("%v %s", r, es(e)) })
	read("GetStringArray", func(j *jin.JO) string { r, e := j.GetStringArray(path...); return S("%q %s", r, es(e)) }, func() string { r, e := jin.GetStringArray(b, path...); return S("%q %s", r, es(e)) })
	read("GetIntArray", func(j *jin.JO) string { r, e := j.GetIntArray(path...); return S("%v %s", r, es(e)) }, func() string { r, e := jin.GetIntArray(b, path...); return S("%v %s", r, es(e)) })
	read("GetFloatArray", func(j *jin.JO) string { r, e := j.GetFloatArray(path...); return S("%v %s", r, es(e)) }, func() string { r, e := jin.GetFloatArray(b, path...); return S("%v %s", r, es(e)) })
	read("GetBoolArray", func(j *jin.JO) string { r, e := j.GetBoolArray(path...); return S("%v %s", r, es(e)) }, func() string { r, e := jin.GetBoolArray(b, path...); return S("%v %s", r, es(e)) })
	read("GetKeys", func(j *jin.JO) string { r, e := j.GetKeys(path...); return S("%q %s", r, es(e)) }, func() string { r, e := jin.GetKeys(b, path...); return S("%q %s", r, es(e)) })
	read("GetValues", func(j *jin.JO) string { r, e := j.GetValues(path...); return S("%q %s", r, es(e)) }, func() string { r, e := jin.GetValues(b, path...); return S("%q %s", r, es(e)) })
	read("GetKeysValues", func(j *jin.JO) string { r, s, e := j.GetKeysValues(path...); return S("%q %q %s", r, s, es(e)) }, func() string { r, s, e := jin.GetKeysValues(b, path...); return S("%q %q %s", r, s, es(e)) })
	read("GetMap", func(j *jin.JO) string { r, e := j.GetMap(path...); return S("%q %s", r, es(e)) }, func() string { r, e := jin.GetMap(b, path...); return S("%q %s", r, es(e)) })
	read("GetAll", func(j *jin.JO) string { r, e := j.GetAll(keys, path...); return S("%q %s", r, es(e)) }, func() string { r, e := jin.GetAll(b, keys, path...); return S("%q %s", r, es(e)) })
	read("GetAllMap", func(j *jin.JO) string { r, e := j.GetAllMap(keys, path...); return S("%q %s", r, es(e)) }, func() string { r, e := jin.GetAllMap(b, keys, path...); return S("%q %s", r, es(e)) })
	read("GetType", func(j *jin.JO) string { r, e := j.GetType(path...); return S("%q %s", r, es(e)) }, func() string { r, e := jin.GetType(b, path...); return S("%q %s", r, es(e)) })
	read("IsArray", func(j *jin.JO) string { r, e := j.IsArray(path...); return S("%v %s", r, es(e)) }, func() string { r, e := jin.IsArray(b, path...); return S("%v %s", r, es(e)) })
	read("IsObject", func(j *jin.JO) string { r, e := j.IsObject(path...); return S("%v %s", r, es(e)) }, func() string { r, e := jin.IsObject(b, path...); return S("%v %s", r, es(e)) })
	read("IsValue", func(j *jin.JO) string { r, e := j.IsValue(path...); return S("%v %s", r, es(e)) }, func() string { r, e := jin.IsValue(b, path...); return S("%v %s", r, es(e)) })
	read("IsEmpty", func(j *jin.JO) string { r, e := j.IsEmpty(path...); return S("%v %s", r, es(e)) }, func() string { r, e := jin.IsEmpty(b, path...); return S("%v %s", r, es(e)) })
	stop := t.Intn(6)
	cb1 := func(log *string) func(a []byte) (bool, error) {
		n := 0
		return func(a []byte) (bool, error) {
			*log += S("%q;", a)
			n++
			if n == stop {
				return false, errStop
			}
			return n != stop+2, nil
		}
	}
	cb2 := func(log *string) func(k, a []byte) (bool, error) {
		f := cb1(log)
		return func(k, a []byte) (bool, error) { *log += S("%q:", k); return f(a) }
	}
	cb3 := func(log *string) func(k string, a []byte, p []string) (bool, error) {
		f := cb1(log)
		return func(k string, a []byte, p []string) (bool, error) { *log += S("%q %q:", k, p); return f(a) }
	}
	read("IterateArray", func(j *jin.JO) string { l := ""; e := j.IterateArray(cb1(&l), path...); return l + es(e) }, func() string { l := ""; e := jin.IterateArray(b, cb1(&l), path...); return l + es(e) })
	read("IterateKeyValue", func(j *jin.JO) string { l := ""; e := j.IterateKeyValue(cb2(&l), path...); return l + es(e) }, func() string { l := ""; e := jin.IterateKeyValue(b, cb2(&l), path...); return l + es(e) })
	read("Walk", func(j *jin.JO) string { l := ""; e := j.Walk(cb3(&l)); return l + es(e) }, func() string { l := ""; e := jin.Walk(b, cb3(&l)); return l + es(e) })
	read("String", func(j *jin.JO) string { return j.String() }, func() string { return string(b) })

	edit := func(name string, f func(j *jin.JO) error, g func(b []byte) ([]byte, error)) {
		t.call("JO.%s on %s, path %q, key %q, value %q/%q/%d/%v/%v, index %d", name, q(b), path, key, val, sv, iv, fv, bv, idx)
		j := fresh()
		e := f(j)
		w, we := g(append([]byte(nil), b...))
		if es(e) != es(we) {
			t.fail("JO error %s, the function's %s", es(e), es(we))
		}
		t.same(j.JSON(), string(w))
		if e != nil {
			t.same(j.JSON(), string(b))
		}
	}
	edit("Set", func(j *jin.JO) error { return j.Set(val, path...) }, func(b []byte) ([]byte, error) { return jin.Set(b, val, path...) })
	edit("SetString", func(j *jin.JO) error { return j.SetString(sv, path...) }, func(b []byte) ([]byte, error) { return jin.SetString(b, sv, path...) })
	edit("SetInt", func(j *jin.JO) error { return j.SetInt(iv, path...) }, func(b []byte) ([]byte, error) { return jin.SetInt(b, iv, path...) })
	edit("SetFloat", func(j *jin.JO) error { return j.SetFloat(fv, path...) }, func(b []byte) ([]byte, error) { return jin.SetFloat(b, fv, path...) })
	edit("SetBool", func(j *jin.JO) error { return j.SetBool(bv, path...) }, func(b []byte) ([]byte, error) { return jin.SetBool(b, bv, path...) })
	edit("SetKey", func(j *jin.JO) error { return j.SetKey(key, path...) }, func(b []byte) ([]byte, error) { return jin.SetKey(b, key, path...) })
	edit("Store", func(j *jin.JO) error { return j.Store(key, val, path...) }, func(b []byte) ([]byte, error) { return jin.Store(b, key, val, path...) })
	edit("StoreString", func(j *jin.JO) error { return j.StoreString(key, sv, path...) }, func(b []byte) ([]byte, error) { return jin.StoreString(b, key, sv, path...) })
	edit("StoreInt", func(j *jin.JO) error { return j.StoreInt(key, iv, path...) }, func(b []byte) ([]byte, error) { return jin.StoreInt(b, key, iv, path...) })
	edit("StoreFloat", func(j *jin.JO) error { return j.StoreFloat(key, fv, path...) }, func(b []byte) ([]byte, error) { return jin.StoreFloat(b, key, fv, path...) })
	edit("StoreBool", func(j *jin.JO) error { return j.StoreBool(key, bv, path...) }, func(b []byte) ([]byte, error) { return jin.StoreBool(b, key, bv, path...) })
	edit("Add", func(j *jin.JO) error { return j.Add(val, path...) }, func(b []byte) ([]byte, error) { return jin.Add(b, val, path...) })
	edit("AddString", func(j *jin.JO) error { return j.AddString(sv, path...) }, func(b []byte) ([]byte, error) { return jin.AddString(b, sv, path...) })
	edit("AddInt", func(j *jin.JO) error { return j.AddInt(iv, path...) }, func(b []byte) ([]byte, error) { return jin.AddInt(b, iv, path...) })
	edit("AddFloat", func(j *jin.JO) error { return j.AddFloat(fv, path...) }, func(b []byte) ([]byte, error) { return jin.AddFloat(b, fv, path...) })
	edit("AddBool", func(j *jin.JO) error { return j.AddBool(bv, path...) }, func(b []byte) ([]byte, error) { return jin.AddBool(b, bv, path...) })
	edit("AddKeyValue", func(j *jin.JO) error { return j.AddKeyValue(key, val, path...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValue(b, key, val, path...) })
	edit("AddKeyValueString", func(j *jin.JO) error { return j.AddKeyValueString(key, sv, path...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueString(b, key, sv, path...) })
	edit("AddKeyValueInt", func(j *jin.JO) error { return j.AddKeyValueInt(key, iv, path...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueInt(b, key, iv, path...) })
	edit("AddKeyValueFloat", func(j *jin.JO) error { return j.AddKeyValueFloat(key, fv, path...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueFloat(b, key, fv, path...) })
	edit("AddKeyValueBool", func(j *jin.JO) error { return j.AddKeyValueBool(key, bv, path...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueBool(b, key, bv, path...) })
	edit("Insert", func(j *jin.JO) error { return j.Insert(idx, val, path...) }, func(b []byte) ([]byte, error) { return jin.Insert(b, idx, val, path...) })
	edit("InsertString", func(j *jin.JO) error { return j.InsertString(idx, sv, path...) }, func(b []byte) ([]byte, error) { return jin.InsertString(b, idx, sv, path...) })
	edit("InsertInt", func(j *jin.JO) error { return j.InsertInt(idx, iv, path...) }, func(b []byte) ([]byte, error) { return jin.InsertInt(b, idx, iv, path...) })
	edit("InsertFloat", func(j *jin.JO) error { return j.InsertFloat(idx, fv, path...) }, func(b []byte) ([]byte, error) { return jin.InsertFloat(b, idx, fv, path...) })
	edit("InsertBool", func(j *jin.JO) error { return j.InsertBool(idx, bv, path...) }, func(b []byte) ([]byte, error) { return jin.InsertBool(b, idx, bv, path...) })
	edit("Delete", func(j *jin.JO) error { return j.Delete(path...) }, func(b []byte) ([]byte, error) { return jin.Delete(b, path...) })
}

func propC22(t *T) {
	d := t.doc(1)
	p, err := jin.Parse(append([]byte(nil), d.b...))
	t.noErr(err)
	doc := append([]byte(nil), d.b...)
	trace := fmt.Sprintf("Parse(%s)", q(d.b))
	for step := 1 + t.Intn(5); step > 0; step-- {
		cd := &D{doc, parseDoc(doc)}
		if cd.v == nil {
			t.fail("interpreter edits gave a malformed document %q", doc)
		}
		path := t.anyPath(cd, "oaoa\x00\x00"[t.Intn(6)])
		key := t.newKey()
		if key == "" || oddPath(path) || oddIndex(key) {
			continue
		}
		val := []byte(t.jsonText())
		var w []byte
		var we, e error
		idx := t.Intn(4) - 1
		switch t.Intn(7) {
		case 0:
			trace += fmt.Sprintf(".Set(%q, %q)", val, path)
			t.call("%s", trace)
			w, we = jin.Set(doc, val, path...)
			e = p.Set(val, path...)
		case 1:
			trace += fmt.Sprintf(".SetKey(%q, %q)", key, path)
			t.call("%s", trace)
			w, we = jin.SetKey(doc, key, path...)
			e = p.SetKey(key, path...)
		case 2:
			trace += fmt.Sprintf(".Add(%q, %q)", val, path)
			t.call("%s", trace)
			w, we = jin.Add(doc, val, path...)
			e = p.Add(val, path...)
		case 3, 4:
			trace += fmt.Sprintf(".AddKeyValue(%q, %q, %q)", key, val, path)
			t.call("%s", trace)
			w, we = jin.AddKeyValue(doc, key, val, path...)
			e = p.AddKeyValue(key, val, path...)
		case 5:
			trace += fmt.Sprintf(".Insert(%d, %q, %q)", idx, val, path)
			t.call("%s", trace)
			w, we = jin.Insert(doc, idx, val, path...)
			e = p.Insert(idx, val, path...)
		default:
			trace += fmt.Sprintf(".Delete(%q)", path)
			t.call("%s", trace)
			w, we = jin.Delete(doc, path...)
			e = p.Delete(path...)
		}
		if e == nil {
			t.nontriv = true
			if we != nil {
				t.fail("the Parser edit succeeded, the interpreter's gave %v", we)
			}
			doc = w
		}
		t.same(p.JSON(), string(doc))
		nd := &D{doc, parseDoc(doc)}
		if nd.v == nil {
			t.fail("malformed document %q", doc)
		}
		fp, err := jin.Parse(append([]byte(nil), doc...))
		t.noErr(err)
		for k := 0; k < 4; k++ {
			rp := t.anyPath(nd, 0)
			if k == 3 {
				rp = path
			}
			if len(rp) == 0 || oddPath(rp) {
				continue
			}
			t.call("%s then Get(%q)", trace, rp)
			a, ae := p.Get(rp...)
			c, ce := fp.Get(rp...)
			if (ae == nil) != (ce == nil) || string(a) != string(c) {
				t.fail("Get gives %q %v, a fresh Parser %q %v", a, ae, c, ce)
			}
		}
	}
}

func propC23(t *T) {
	t.noDup = true
	d := t.doc(1)
	b := d.b
	if string(b) == "{}" {
		return
	}
	type hit struct {
		k, v string
		p    []string
	}
	var got []hit
	t.call("Walk(%s)", q(b))
	var snap [][]string
	err := jin.Walk(b, func(k string, v []byte, p []string) (bool, error) {
		got = append(got, hit{k, string(v), p})
		snap = append(snap, append([]string(nil), p...))
		return true, nil
	})
	t.noErr(err)
	var want []hit
	var rec func(v *V, p []string)
	rec = func(v *V, p []string) {
		for i, k := range v.Kids {
			e := strconv.Itoa(i)
			if v.K == 'o' {
				e = d.key(v, i)
			}
			np := append(append([]string(nil), p...), e)
			if k.K == 'o' || k.K == 'a' {
				rec(k, np)
			} else {
				want = append(want, hit{e, d.text(k), np})
			}
		}
	}
	rec(d.v, nil)
	t.nontriv = len(want) > 1
	if len(got) != len(want) {
		t.fail("%d values visited, want %d: %v", len(got), len(want), got)
	}
	for i := range got {
		if got[i].k != want[i].k || got[i].v != want[i].v || !eqs(snap[i], want[i].p) {
			t.fail("value %d: %q, want %q", i, got[i], want[i])
		}
		if !eqs(got[i].p, want[i].p) {
			t.fail("path %d changed after the callback returned: %q, want %q", i, got[i].p, want[i].p)
		}
	}
	if len(want) > 0 {
		at := t.Intn(len(want))
		n := 0
		t.call("Walk(%s) with an error at %d", q(b), at)
		err = jin.Walk(b, func(k string, v []byte, p []string) (bool, error) {
			n++
			if n == at+1 {
				return false, errStop
			}
			return true, nil
		})
		if err != errStop || n != at+1 {
			t.fail("an error of the callback at %d: %d calls, returned %v", at, n, err)
		}
	}
	// bulk getters
	path, ok := t.pathTo(d, "oa"[t.Intn(2)])
	if !ok || oddPath(path) {
		return
	}
	v, _, _ := d.resolve(path)
	if v == nil || string(b) == "[]" {
		return
	}
	var keys []string
	wm := map[string]string{}
	for i, k := range v.Kids {
		e := strconv.Itoa(i)
		if v.K == 'o' {
			e = d.key(v, i)
		}
		keys = append(keys, e)
		wm[e] = d.text(k)
	}
	t.call("GetMap(%s, %q)", q(b), path)
	m, err := jin.GetMap(b, path...)
	t.noErr(err)
	if len(m) != len(wm) {
		t.fail("GetMap gives %q, want %q", m, wm)
	}
	for k, x := range wm {
		if y, ok := m[k]; !ok || x != y {
			t.fail("GetMap gives %q, want %q", m, wm)
		}
	}
	t.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	if len(keys) > 2 {
		keys = keys[:1+t.Intn(len(keys))]
	}
	bad := false
	if t.Intn(4) == 0 {
		k := t.newKey()
		if oddIndex(k) {
			return
		}
		bad = d.find(v, k) < 0
		keys = append(keys, k)
	}
	gp, wp := guardedPath(path)
	t.call("GetAll(%s, %q, %q)", q(b), keys, path)
	l, err := jin.GetAll(b, keys, gp...)
	ml, err2 := jin.GetAllMap(b, keys, gp...)
	if !intactPath(wp, path) {
		t.fail("the path slice was written")
	}
	if bad {
		t.wantErr(err, "a key addresses nothing")
		t.wantErr(err2, "a key addresses nothing")
		return
	}
	t.noErr(err)
	t.noErr(err2)
	for i, k := range keys {
		if len(l) != len(keys) || l[i] != wm[k] || ml[k] != wm[k] {
			t.fail("GetAll gives %q, GetAllMap %q, want the values of %q", l, ml, keys)
		}
	}
	if len(ml) != len(keys) && !hasDup(keys) {
		t.fail("GetAllMap gives %q", ml)
	}
}

func hasDup(l []string) bool {
	m := map[string]bool{}
	for _, k := range l {
		if m[k] {
			return true
		}
		m[k] = true
	}
	return false
}

var _ = json.Valid
