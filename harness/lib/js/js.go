// Package js reads JSON.
package js

// Parse reads a value: a map[string]any, []any, string, bool, nil, or a number as its text in a Number.
func Parse(s string) (v any, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if r != (bad{}) {
				panic(r)
			}
			v, ok = nil, false
		}
	}()
	p := &parser{s, 0}
	v = p.value()
	p.space()
	return v, p.i == len(s)
}

// Number is the text of a number.
type Number string

type bad struct{}

type parser struct {
	s string
	i int
}

func (p *parser) space() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t' || p.s[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) peek() byte {
	if p.i >= len(p.s) {
		panic(bad{})
	}
	return p.s[p.i]
}

func (p *parser) eat(w string) {
	for k := 0; k < len(w); k++ {
		if p.peek() != w[k] {
			panic(bad{})
		}
		p.i++
	}
}

func (p *parser) value() any {
	p.space()
	switch p.peek() {
	case '{':
		p.i++
		m := map[string]any{}
		for p.space(); p.peek() != '}'; p.space() {
			if len(m) > 0 {
				p.eat(",")
				p.space()
			}
			k := p.text()
			if _, twice := m[k]; twice {
				panic(bad{})
			}
			p.space()
			p.eat(":")
			m[k] = p.value()
		}
		p.i++
		return m
	case '[':
		p.i++
		l := []any{}
		for p.space(); p.peek() != ']'; p.space() {
			if len(l) > 0 {
				p.eat(",")
			}
			l = append(l, p.value())
		}
		p.i++
		return l
	case '"':
		return p.text()
	case 't':
		p.eat("true")
		return true
	case 'f':
		p.eat("false")
		return false
	case 'n':
		p.eat("null")
		return nil
	}
	k := p.i
	for p.i < len(p.s) && (p.s[p.i] >= '0' && p.s[p.i] <= '9' || p.s[p.i] == '-' || p.s[p.i] == '+' || p.s[p.i] == '.' || p.s[p.i] == 'e' || p.s[p.i] == 'E') {
		p.i++
	}
	if k == p.i {
		panic(bad{})
	}
	return Number(p.s[k:p.i])
}

func (p *parser) text() string {
	p.eat(`"`)
	var b []byte
	for {
		c := p.peek()
		p.i++
		switch {
		case c == '"':
			return string(b)
		case c < ' ':
			panic(bad{})
		case c != '\\':
			b = append(b, c)
			continue
		}
		c = p.peek()
		p.i++
		switch c {
		case '"', '\\', '/':
			b = append(b, c)
		case 'b':
			b = append(b, '\b')
		case 'f':
			b = append(b, '\f')
		case 'n':
			b = append(b, '\n')
		case 'r':
			b = append(b, '\r')
		case 't':
			b = append(b, '\t')
		case 'u':
			r := rune(0)
			for k := 0; k < 4; k++ {
				d := p.peek()
				p.i++
				switch {
				case d >= '0' && d <= '9':
					r = r<<4 | rune(d-'0')
				case d >= 'a' && d <= 'f':
					r = r<<4 | rune(d-'a'+10)
				case d >= 'A' && d <= 'F':
					r = r<<4 | rune(d-'A'+10)
				default:
					panic(bad{})
				}
			}
			b = append(b, string(r)...)
		default:
			panic(bad{})
		}
	}
}
