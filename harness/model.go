package main

// An independent JSON model: a strict recursive-descent parser that records
// the exact span of every value and key.  It shares no code with jin.

type V struct {
	K      byte // o a s n t(true/false) 0(null)
	S, E   int  // span of the value text, quotes of a string included
	KS, KE []int
	Kids   []*V
}

type parser struct {
	b     []byte
	i     int
	depth int
}

func (p *parser) ws() {
	for p.i < len(p.b) && isSp(p.b[p.i]) {
		p.i++
	}
}

func isSp(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func parseDoc(b []byte) *V {
	p := &parser{b: b}
	p.ws()
	v := p.value()
	if v == nil {
		return nil
	}
	p.ws()
	if p.i != len(b) {
		return nil
	}
	return v
}

func (p *parser) lit(s string) bool {
	if len(p.b)-p.i >= len(s) && string(p.b[p.i:p.i+len(s)]) == s {
		p.i += len(s)
		return true
	}
	return false
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func (p *parser) str() bool {
	if p.i >= len(p.b) || p.b[p.i] != '"' {
		return false
	}
	p.i++
	for p.i < len(p.b) {
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return true
		case c < 0x20:
			return false
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return false
			}
			switch p.b[p.i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				p.i++
			case 'u':
				p.i++
				for k := 0; k < 4; k++ {
					if p.i >= len(p.b) || !isHex(p.b[p.i]) {
						return false
					}
					p.i++
				}
			default:
				return false
			}
		default:
			p.i++
		}
	}
	return false
}

func (p *parser) digits() int {
	n := 0
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
		n++
	}
	return n
}

func (p *parser) number() bool {
	if p.i < len(p.b) && p.b[p.i] == '-' {
		p.i++
	}
	s := p.i
	n := p.digits()
	if n == 0 || n > 1 && p.b[s] == '0' {
		return false
	}
	if p.i < len(p.b) && p.b[p.i] == '.' {
		p.i++
		if p.digits() == 0 {
			return false
		}
	}
	if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
		p.i++
		if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
			p.i++
		}
		if p.digits() == 0 {
			return false
		}
	}
	return true
}

func (p *parser) value() *V {
	p.depth++
	defer func() { p.depth-- }()
	if p.i >= len(p.b) || p.depth > 5000 {
		return nil
	}
	v := &V{S: p.i}
	switch c := p.b[p.i]; {
	case c == '{':
		v.K = 'o'
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			break
		}
		for {
			p.ws()
			ks := p.i
			if !p.str() {
				return nil
			}
			v.KS = append(v.KS, ks+1)
			v.KE = append(v.KE, p.i-1)
			p.ws()
			if !p.lit(":") {
				return nil
			}
			p.ws()
			k := p.value()
			if k == nil {
				return nil
			}
			v.Kids = append(v.Kids, k)
			p.ws()
			if p.lit(",") {
				continue
			}
			if p.lit("}") {
				break
			}
			return nil
		}
	case c == '[':
		v.K = 'a'
		p.i++
		p.ws()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			break
		}
		for {
			p.ws()
			k := p.value()
			if k == nil {
				return nil
			}
			v.Kids = append(v.Kids, k)
			p.ws()
			if p.lit(",") {
				continue
			}
			if p.lit("]") {
				break
			}
			return nil
		}
	case c == '"':
		v.K = 's'
		if !p.str() {
			return nil
		}
	case c == 't':
		v.K = 't'
		if !p.lit("true") {
			return nil
		}
	case c == 'f':
		v.K = 't'
		if !p.lit("false") {
			return nil
		}
	case c == 'n':
		v.K = '0'
		if !p.lit("null") {
			return nil
		}
	default:
		v.K = 'n'
		if !p.number() {
			return nil
		}
	}
	v.E = p.i
	return v
}

func validRawString(s string) bool {
	p := &parser{b: []byte(`"` + s + `"`)}
	return p.str() && p.i == len(p.b)
}

func isNumText(s string) bool {
	p := &parser{b: []byte(s)}
	return p.number() && p.i == len(p.b)
}

type D struct {
	b []byte
	v *V
}

func (d *D) raw(v *V) string { return string(d.b[v.S:v.E]) }

func (d *D) text(v *V) string {
	if v.K == 's' {
		return string(d.b[v.S+1 : v.E-1])
	}
	return d.raw(v)
}

func (d *D) key(v *V, i int) string { return string(d.b[v.KS[i]:v.KE[i]]) }

// find returns the index of the child that one path element names, or -1.
func (d *D) find(v *V, p string) int {
	switch v.K {
	case 'o':
		for i := range v.Kids {
			if d.key(v, i) == p {
				return i
			}
		}
	case 'a':
		i := canonIndex(p)
		if i >= 0 && i < len(v.Kids) {
			return i
		}
	}
	return -1
}

func canonIndex(p string) int {
	if len(p) == 0 || len(p) > 6 || len(p) > 1 && p[0] == '0' {
		return -1
	}
	n := 0
	for i := 0; i < len(p); i++ {
		if p[i] < '0' || p[i] > '9' {
			return -1
		}
		n = n*10 + int(p[i]-'0')
	}
	return n
}

// resolve returns the value, its parent and its index in the parent.
func (d *D) resolve(path []string) (v, parent *V, idx int) {
	v = d.v
	idx = -1
	for _, p := range path {
		i := d.find(v, p)
		if i < 0 {
			return nil, nil, -1
		}
		parent, idx = v, i
		v = v.Kids[i]
	}
	return v, parent, idx
}

// scalarPath reports whether some proper prefix of the path (or, for an
// editing call with a further element, the path itself) uses an index text
// that is not plain decimal; such paths are outside the stated properties.
func oddIndex(p string) bool {
	if len(p) == 0 {
		return false
	}
	i := 0
	if p[0] == '+' || p[0] == '-' {
		i++
	}
	if i == len(p) {
		return false
	}
	for _, c := range []byte(p[i:]) {
		if c < '0' || c > '9' {
			return false
		}
	}
	return p[0] == '+' || (p[i] == '0' && (len(p)-i > 1 || p[0] == '-'))
}

func oddPath(path []string) bool {
	for _, p := range path {
		if oddIndex(p) {
			return true
		}
	}
	return false
}

func dupKeys(d *D, v *V) bool {
	seen := map[string]bool{}
	for i, k := range v.Kids {
		if v.K == 'o' {
			key := d.key(v, i)
			if seen[key] {
				return true
			}
			seen[key] = true
		}
		if dupKeys(d, k) {
			return true
		}
	}
	return false
}

func splice(b []byte, s, e int, ins string) string {
	return string(b[:s]) + ins + string(b[e:])
}

// flatOracle is Flatten by the property: a backslash protects the next byte,
// quotes toggle, white space outside quotes is dropped.
func flatOracle(b []byte) string {
	out := make([]byte, 0, len(b))
	in := false
	for i := 0; i < len(b); i++ {
		switch {
		case b[i] == '\\':
			out = append(out, b[i])
			if i+1 < len(b) {
				out = append(out, b[i+1])
			}
			i++
		case b[i] == '"':
			in = !in
			out = append(out, b[i])
		case !in && isSp(b[i]):
		default:
			out = append(out, b[i])
		}
	}
	return string(out)
}

// emitRule is the bare-or-quoted rule of the builders.
func emitRule(s string) string {
	if s == "true" || s == "false" || s == "null" || isNumText(s) {
		return s
	}
	if len(s) >= 2 {
		a, z := s[0], s[len(s)-1]
		if a == '"' && z == '"' || a == '[' && z == ']' || a == '{' && z == '}' {
			return s
		}
	}
	return `"` + s + `"`
}
