package main

import (
	"go/scanner"
	"go/token"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// Gen makes inputs.  Besides fixed pools it uses the constants of the source
// under test (string, character and small integer literals).
type Gen struct {
	*rand.Rand
	dict    []string // raw string contents usable as keys and strings
	sizes   []int
	keys    []string // key pool of the current document
	ws      int      // white-space style of the current document
	noDup   bool
	big     bool
	budget  int
	started int64
}

var baseKeys = []string{"a", "b", "c", "ab", "aa", "abc", "key", "k", "0", "1", "2", "10", "", " ", "a b", "é", "\\\"", "\\\\", "a\\\"", "\\\\\\\"", "\\u0041", "{", "}", "[", "]", ",", ":", "a,b", "a:b", "[0]", "{}", "null", "true", "A", "name", "x\\\\", " a", "a ", "\\n", "%", "%d", "error_code: 08", "kk"}
var baseStr = []string{"", " ", "a", "b", "abc", "true", "false", "null", "12", "-1", "0", "1.5", "[1,2]", "{}", "[]", "{\\\"a\\\":1}", "\\\"", "\\\\", "\\\\\\\"", "a\\\"b", "\\\"q\\\"", "x, y", "a:b", "}", "]", "{", "[", ",", ":", "\\u00e9", "é", "  pad  ", "\\\\\\\\", "\\n", "/", "\\/", "tail\\\\", "\\\\\\\\\\\"", "key", "%s", "a\x7f", "12 ", " 5", "1e3"}
var baseScalar = []string{"0", "1", "-1", "12", "-0", "1.5", "-2.25", "1e3", "1E+2", "2e-7", "2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1e999", "0.1", "true", "false", "null", "123456789012345678901234567890", "0e1", "100"}

func mine(dir string) (dict []string, sizes []int) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	seen := map[string]bool{}
	seenN := map[int]bool{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, "package_description.go") {
			continue
		}
		src, err := ioutil.ReadFile(f)
		if err != nil {
			continue
		}
		var s scanner.Scanner
		fs := token.NewFileSet()
		s.Init(fs.AddFile(f, fs.Base(), len(src)), src, nil, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.STRING, token.CHAR:
				var t string
				if tok == token.CHAR {
					c, _, _, err := strconv.UnquoteChar(strings.Trim(lit, "'"), '\'')
					if err != nil {
						continue
					}
					t = string(c)
				} else {
					u, err := strconv.Unquote(lit)
					if err != nil {
						continue
					}
					t = u
				}
				if len(t) > 40 || strings.HasPrefix(t, "error:") || strings.HasPrefix(t, "parse error") {
					continue
				}
				if validRawString(t) && !seen[t] {
					seen[t] = true
					dict = append(dict, t)
				}
			case token.INT:
				n, err := strconv.ParseInt(lit, 0, 64)
				if err == nil && n > 0 && n <= 5000 {
					for _, m := range []int{int(n) - 1, int(n), int(n) + 1} {
						if !seenN[m] {
							seenN[m] = true
							sizes = append(sizes, m)
						}
					}
				}
				if err == nil && n >= 0 && n < 128 {
					t := string(rune(n))
					if validRawString(t) && !seen[t] {
						seen[t] = true
						dict = append(dict, t)
					}
				}
				if err == nil && !seen[lit] && validRawString(lit) {
					seen[lit] = true
					dict = append(dict, lit)
				}
			}
		}
	}
	return
}

func (g *Gen) size(max int) int {
	switch g.Intn(12) {
	case 0:
		if len(g.sizes) > 0 {
			n := g.sizes[g.Intn(len(g.sizes))]
			if n <= max {
				return n
			}
		}
	case 1:
		return g.Intn(max + 1)
	}
	if max > 6 {
		max = 6
	}
	return g.Intn(max + 1)
}

func (g *Gen) rawString(pool []string) string {
	switch r := g.Intn(20); {
	case r < 11:
		return pool[g.Intn(len(pool))]
	case r < 13 && len(g.dict) > 0:
		return g.dict[g.Intn(len(g.dict))]
	case r < 14:
		max := 40
		if g.big {
			max = 700
		}
		n := g.size(max)
		return strings.Repeat(string("ab z"[g.Intn(4)]), n)
	case r < 15:
		n := g.size(9)
		s := strings.Repeat("\\\\", n)
		if g.Intn(2) == 0 {
			s += "\\\""
		}
		return s
	default:
		const al = "ab01 {}[],:-.\\\"tfn\t/u\x7f\x80\xc3'"
		n := g.Intn(7)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			c := al[g.Intn(len(al))]
			switch c {
			case '\\', '"':
				sb.WriteByte('\\')
				sb.WriteByte(c)
			case '\t':
				sb.WriteString("\\t")
			case '/':
				sb.WriteString("\\u00" + string("0123456789abcdefABCDEF"[g.Intn(22)]) + "f")
			default:
				sb.WriteByte(c)
			}
		}
		return sb.String()
	}
}

func (g *Gen) newKey() string {
	k := g.rawString(baseKeys)
	if len(g.keys) > 0 && g.Intn(3) == 0 {
		k = g.nearKey(g.keys[g.Intn(len(g.keys))])
	}
	return k
}

// nearKey makes a text close to k.
func (g *Gen) nearKey(k string) string {
	var c string
	switch g.Intn(9) {
	case 0:
		c = k + "a"
	case 1:
		c = "a" + k
	case 2:
		if len(k) > 0 {
			c = k[:len(k)-1]
		}
	case 3:
		if len(k) > 0 {
			c = k[1:]
		}
	case 4:
		c = strings.ToUpper(k)
	case 5:
		c = k + " "
	case 6:
		b := []byte(k)
		if len(b) > 0 {
			i := g.Intn(len(b))
			b[i] ^= 1
		}
		c = string(b)
	case 7:
		b := []byte(k)
		if len(b) > 1 {
			i := g.Intn(len(b) - 1)
			b[i], b[i+1] = b[i+1], b[i]
		}
		c = string(b)
	default:
		c = k + k
	}
	if !validRawString(c) {
		return k
	}
	return c
}

func (g *Gen) key() string {
	if len(g.keys) == 0 || g.Intn(6) == 0 && len(g.keys) < 12 {
		g.keys = append(g.keys, g.newKey())
	}
	return g.keys[g.Intn(len(g.keys))]
}

func (g *Gen) sp(sb *strings.Builder) {
	switch g.ws {
	case 0:
		return
	case 1:
		if g.Intn(3) == 0 {
			sb.WriteByte(" \t\n\r"[g.Intn(4)])
		}
	case 2:
		n := g.Intn(4)
		for i := 0; i < n; i++ {
			sb.WriteByte(" \t\n\r"[g.Intn(4)])
		}
	case 3:
		if g.Intn(8) == 0 {
			sb.WriteString(strings.Repeat(string(" \t\n\r"[g.Intn(4)]), 1+g.Intn(3)))
		}
	case 4:
		sb.WriteByte(" \t\n\r"[(g.budget&3+4)%4])
	}
}

func (g *Gen) value(sb *strings.Builder, depth int) {
	g.budget--
	r := g.Intn(10)
	if g.budget <= 0 || depth <= 0 {
		r = 9
	}
	switch {
	case r < 3:
		g.object(sb, depth)
	case r < 6:
		g.array(sb, depth)
	case r < 8:
		sb.WriteByte('"')
		sb.WriteString(g.rawString(baseStr))
		sb.WriteByte('"')
	default:
		g.scalar(sb)
	}
}

func (g *Gen) scalar(sb *strings.Builder) {
	switch g.Intn(6) {
	case 0:
		sb.WriteString(strconv.Itoa(g.Intn(400) - 100))
	case 1, 2:
		sb.WriteByte('"')
		sb.WriteString(g.rawString(baseStr))
		sb.WriteByte('"')
	default:
		sb.WriteString(baseScalar[g.Intn(len(baseScalar))])
	}
}

func (g *Gen) count() int {
	if g.big && g.Intn(4) == 0 {
		return g.size(320)
	}
	return g.size(4)
}

func (g *Gen) object(sb *strings.Builder, depth int) {
	sb.WriteByte('{')
	n := g.count()
	used := map[string]bool{}
	first := true
	for i := 0; i < n; i++ {
		k := g.key()
		if used[k] && (g.noDup || g.Intn(4) != 0) {
			k = k + strconv.Itoa(i)
			if used[k] {
				continue
			}
		}
		used[k] = true
		if !first {
			g.sp(sb)
			sb.WriteByte(',')
		}
		first = false
		g.sp(sb)
		sb.WriteByte('"')
		sb.WriteString(k)
		sb.WriteByte('"')
		g.sp(sb)
		sb.WriteByte(':')
		g.sp(sb)
		g.value(sb, depth-1)
	}
	g.sp(sb)
	sb.WriteByte('}')
}

func (g *Gen) array(sb *strings.Builder, depth int) {
	sb.WriteByte('[')
	n := g.count()
	for i := 0; i < n; i++ {
		if i > 0 {
			g.sp(sb)
			sb.WriteByte(',')
		}
		g.sp(sb)
		g.value(sb, depth-1)
	}
	g.sp(sb)
	sb.WriteByte(']')
}

// doc makes a well-formed document.  kind: 0 anything, 1 container at the top,
// 2 array at the top.
func (g *Gen) doc(kind int) *D {
	g.keys = g.keys[:0]
	for i := g.Intn(3); i >= 0; i-- {
		g.keys = append(g.keys, g.newKey())
	}
	g.ws = g.Intn(5)
	g.big = g.Intn(60) == 0
	g.budget = []int{4, 8, 16, 30, 60}[g.Intn(5)]
	depth := 1 + g.Intn(6)
	if g.big {
		g.budget = 500
		if g.Intn(2) == 0 {
			depth = 1 + g.size(70)
		}
	}
	for {
		var sb strings.Builder
		g.sp(&sb)
		switch {
		case kind == 2:
			g.array(&sb, depth)
		case g.Intn(12) == 0 && depth > 1:
			// a deep chain around a small value
			n := 1 + g.size(14)
			if g.big {
				n = 1 + g.size(150)
			}
			var cl []byte
			for i := 0; i < n; i++ {
				if g.Intn(2) == 0 {
					sb.WriteByte('[')
					if g.Intn(3) == 0 {
						g.sp(&sb)
						g.scalar(&sb)
						sb.WriteByte(',')
					}
					g.sp(&sb)
					cl = append(cl, ']')
				} else {
					sb.WriteByte('{')
					g.sp(&sb)
					sb.WriteString(`"` + g.key() + `":`)
					g.sp(&sb)
					cl = append(cl, '}')
				}
			}
			g.value(&sb, 2)
			for i := len(cl) - 1; i >= 0; i-- {
				g.sp(&sb)
				sb.WriteByte(cl[i])
			}
		case kind == 0 && g.Intn(12) == 0:
			g.scalar(&sb)
		case g.Intn(2) == 0:
			g.object(&sb, depth)
		default:
			g.array(&sb, depth)
		}
		g.sp(&sb)
		b := []byte(sb.String())
		v := parseDoc(b)
		if v == nil {
			continue
		}
		if g.noDup && dupKeys(&D{b, v}, v) {
			continue
		}
		return &D{b, v}
	}
}

func allNodes(v *V, f func(v *V)) {
	f(v)
	for _, k := range v.Kids {
		allNodes(k, f)
	}
}

// path picks a path in the document.  want: 0 any value, 'o' an object,
// 'a' an array.  ok is false if there is none.
func (g *Gen) pathTo(d *D, want byte) ([]string, bool) {
	n := 0
	var pick *V
	allNodes(d.v, func(v *V) {
		if want == 0 || v.K == want {
			n++
			if g.Intn(n) == 0 {
				pick = v
			}
		}
	})
	if pick == nil {
		return nil, false
	}
	var path []string
	v := d.v
	for v != pick {
		for i, k := range v.Kids {
			if k.S <= pick.S && pick.E <= k.E {
				if v.K == 'o' {
					path = append(path, d.key(v, i))
				} else {
					path = append(path, strconv.Itoa(i))
				}
				v = k
				break
			}
		}
	}
	return path, true
}

// anyPath picks an existing path most of the time, else one that is broken in
// some way.
func (g *Gen) anyPath(d *D, want byte) []string {
	path, ok := g.pathTo(d, want)
	if !ok || g.Intn(5) == 0 {
		path, _ = g.pathTo(d, 0)
	}
	if g.Intn(3) == 0 {
		path = g.breakPath(d, path)
	}
	return path
}

func (g *Gen) badElem(d *D, near string) string {
	switch g.Intn(6) {
	case 0:
		return g.nearKey(near)
	case 1:
		if len(g.keys) > 0 {
			return g.keys[g.Intn(len(g.keys))]
		}
		return "zz"
	case 2:
		return strconv.Itoa(g.Intn(6))
	case 3:
		return strconv.Itoa(-1 - g.Intn(3))
	case 4:
		return ""
	default:
		return g.newKey()
	}
}

func (g *Gen) breakPath(d *D, path []string) []string {
	out := append([]string(nil), path...)
	switch g.Intn(5) {
	case 0:
		out = append(out, g.badElem(d, "a"))
	case 1, 2:
		if len(out) > 0 {
			i := len(out) - 1
			if g.Intn(3) == 0 {
				i = g.Intn(len(out))
			}
			if n, err := strconv.Atoi(out[i]); err == nil && g.Intn(2) == 0 {
				out[i] = strconv.Itoa(n + 1 - g.Intn(2)*2)
			} else {
				out[i] = g.badElem(d, out[i])
			}
		} else {
			out = append(out, g.badElem(d, "a"))
		}
	case 3:
		if len(out) > 1 {
			i := g.Intn(len(out))
			out = append(out[:i], out[i+1:]...)
		}
	default:
		if len(out) > 0 {
			i := g.Intn(len(out))
			out = append(out[:i], append([]string{g.badElem(d, out[i])}, out[i:]...)...)
		}
	}
	return out
}

// jsonText makes the text of one value.
func (g *Gen) jsonText() string {
	save := g.ws
	g.ws = 0
	var sb strings.Builder
	g.budget = 6
	if g.Intn(3) == 0 {
		g.value(&sb, 2)
	} else {
		g.scalar(&sb)
	}
	g.ws = save
	return sb.String()
}

// bytes makes arbitrary bytes, mostly damaged documents.
func (g *Gen) bytes() []byte {
	if g.Intn(3) == 0 {
		const al = "{}[]\",:\\ a01\n"
		n := g.Intn(9)
		b := make([]byte, n)
		for i := range b {
			b[i] = al[g.Intn(len(al))]
		}
		return b
	}
	b := append([]byte(nil), g.doc(0).b...)
	for k := g.Intn(4); k >= 0; k-- {
		if len(b) == 0 {
			break
		}
		i := g.Intn(len(b))
		switch g.Intn(6) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = "{}[]\",:\\ a0\n\x00\xff"[g.Intn(14)]
		case 2:
			b = b[:i]
		case 3:
			b = b[i:]
		case 4:
			c := "{}[]\",:\\ a0\n"[g.Intn(12)]
			b = append(b[:i], append([]byte{c}, b[i:]...)...)
		case 5:
			j := i + g.Intn(len(b)-i)
			b = append(b[:i], b[j:]...)
		}
	}
	return b
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }
