package main

// Independent reference parser: recursive descent for the published grammar
// (parse/rules.peg), with its own reading of Go expressions by precedence
// climbing over go/scanner tokens.

import (
	"fmt"
	gotoken "go/token"
	"strings"
	"unicode/utf8"
)

type refFail struct{ msg string }

type refParser struct {
	s     string
	pos   int
	quirk bool // read conditions as the known findings of DESIGN.md describe
	used  bool // a condition was read differently because of quirk
}

// refParse returns the rules of the text, or an error. With quirk set,
// conditions are read with line breaks replaced by spaces (the known finding).
func refParse(s string, quirk bool) (rs []*Rule, quirky bool, err error) {
	if !utf8.ValidString(s) {
		return nil, false, fmt.Errorf("invalid UTF-8")
	}
	p := &refParser{s: s, quirk: quirk}
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(refFail)
			if !ok {
				panic(r)
			}
			rs, quirky, err = nil, p.used, fmt.Errorf("offset %d: %s", p.pos, f.msg)
		}
	}()
	p.skip()
	for p.pos < len(p.s) {
		rs = append(rs, p.rule())
		p.skip()
	}
	return rs, p.used, nil
}

func (p *refParser) fail(msg string) { panic(refFail{msg}) }

func (p *refParser) rest() string { return p.s[p.pos:] }

func (p *refParser) has(x string) bool { return strings.HasPrefix(p.rest(), x) }

// skip consumes layout and reports whether there was any.
func (p *refParser) skip() bool {
	start := p.pos
	for p.pos < len(p.s) {
		switch c := p.s[p.pos]; {
		case c == ' ' || c == '\t' || c == '\r' || c == '\n':
			p.pos++
		case p.has("//"):
			if i := strings.IndexByte(p.rest(), '\n'); i < 0 {
				p.pos = len(p.s)
			} else {
				p.pos += i
			}
		default:
			return p.pos > start
		}
	}
	return p.pos > start
}

func (p *refParser) expect(x string) {
	if !p.has(x) {
		p.fail("expected " + x)
	}
	p.pos += len(x)
}

func isLower(c byte) bool { return 'a' <= c && c <= 'z' }
func isWord(c byte) bool {
	return isLower(c) || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || c == '_'
}

func (p *refParser) word() string {
	i := p.pos
	for i < len(p.s) && isWord(p.s[i]) {
		i++
	}
	w := p.s[p.pos:i]
	p.pos = i
	return w
}

// try runs f and restores the position if it fails.
func (p *refParser) try(f func()) (ok bool) {
	start := p.pos
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(refFail); !is {
				panic(r)
			}
			p.pos = start
			ok = false
		}
	}()
	f()
	return true
}

func (p *refParser) rule() *Rule {
	r := &Rule{M: p.value()}
	save := p.pos
	if p.skip() && p.has("&&") {
		p.pos += 2
		if p.skip() {
			if i := goTextEnd(p.rest(), "=>"); i > 0 {
				r.Cond = p.cond(p.rest()[:i])
				p.pos += i
			} else {
				p.pos = save
			}
		} else {
			p.pos = save
		}
	} else {
		p.pos = save
	}
	p.skip()
	p.expect("=>")
	p.skip()
	if p.has("@") {
		start := p.pos
		p.pos++
		for p.pos < len(p.s) && !strings.ContainsRune(" \t\r\n", rune(p.s[p.pos])) && !p.has("//") {
			p.pos++
		}
		if p.pos > start+1 {
			r.Block = p.s[start+1 : p.pos]
		} else {
			p.fail("empty block")
		}
	}
	p.skip()
	r.R = p.value()
	return r
}

// cond reads the text of a condition.
func (p *refParser) cond(text string) *GX {
	g, err := refGo(text)
	if p.quirk {
		qg, qerr := refGo(strings.TrimSpace(strings.ReplaceAll(text, "\n", " ")))
		if (err == nil) != (qerr == nil) || err == nil && canonGX(g) != canonGX(qg) {
			p.used = true
		}
		g, err = qg, qerr
	}
	if err != nil {
		p.fail("condition: " + err.Error())
	}
	return g
}

func (p *refParser) value() *Val {
	// S-expression, possibly bound.
	start := p.pos
	bind := ""
	if p.pos < len(p.s) && isLower(p.s[p.pos]) {
		w := p.word()
		if p.has(":(") {
			bind = w
			p.pos++
		} else {
			p.pos = start
		}
	}
	if p.has("(") {
		return &Val{S: p.sexpr(bind)}
	}
	return p.expr()
}

// expr reads a call, variable or placeholder.
func (p *refParser) expr() *Val {
	if p.pos < len(p.s) && isLower(p.s[p.pos]) {
		start := p.pos
		w := p.word()
		end := p.pos
		if p.has("(") {
			if p.callargs() {
				g, err := refGo(p.s[start:p.pos])
				if err != nil {
					p.fail("call: " + err.Error())
				}
				return &Val{E: g}
			}
			p.pos = end
		}
		return &Val{V: w}
	}
	if p.has("_") && !p.has("__") {
		p.pos++
		return &Val{V: "_"}
	}
	p.fail("expected value")
	return nil
}

// callargs reads "(...)" after a name if it is there.
func (p *refParser) callargs() bool {
	return p.try(func() {
		p.expect("(")
		p.skip()
		p.expr()
		for {
			save := p.pos
			p.skip()
			if !p.has(",") {
				p.pos = save
				break
			}
			p.pos++
			p.skip()
			p.expr()
		}
		p.skip()
		p.expect(")")
	})
}

func (p *refParser) sexpr(bind string) *SX {
	p.expect("(")
	p.skip()
	s := &SX{Bind: bind}
	for {
		if w := p.word(); w != "" {
			s.Op = append(s.Op, Part{Lit: w})
			continue
		}
		if alts := p.altgroup(); alts != nil {
			s.Op = append(s.Op, Part{Alts: alts})
			continue
		}
		break
	}
	if len(s.Op) == 0 {
		p.fail("expected operator")
	}
	for {
		save := p.pos
		if !p.skip() {
			break
		}
		if p.pos >= len(p.s) {
			p.pos = save
			break
		}
		if c := p.s[p.pos]; c == '<' {
			i := strings.IndexByte(p.rest(), '>')
			if i < 2 {
				p.fail("bad type")
			}
			s.Type = p.rest()[1:i]
			p.pos += i + 1
			continue
		} else if c == '[' || c == '{' {
			close := "]"
			if c == '{' {
				close = "}"
			}
			i := goTextEnd(p.rest()[1:], close)
			if i < 1 {
				p.fail("bad aux")
			}
			g, err := refGo(p.rest()[1 : 1+i])
			if err != nil {
				p.fail("aux: " + err.Error())
			}
			if c == '[' {
				s.AuxInt = g
			} else {
				s.Aux = g
			}
			p.pos += i + 2
			continue
		} else if c == '(' || isLower(c) || c == '_' && !p.has("__") {
			s.Args = append(s.Args, p.value())
			continue
		}
		p.pos = save
		break
	}
	for i, m := range []string{"...", "___"} {
		save := p.pos
		if p.skip() && p.has(m) {
			p.pos += 3
			if i == 0 {
				s.Ell = true
			} else {
				s.Trail = true
			}
		} else {
			p.pos = save
		}
	}
	p.skip()
	p.expect(")")
	return s
}

func (p *refParser) altgroup() []string {
	start := p.pos
	if !p.has("(") {
		return nil
	}
	p.pos++
	var alts []string
	for {
		w := p.word()
		if w == "" {
			break
		}
		alts = append(alts, w)
		if p.has("|") {
			p.pos++
			continue
		}
		if p.has(")") && len(alts) >= 2 {
			p.pos++
			return alts
		}
		break
	}
	p.pos = start
	return nil
}

// goTextPiece returns the length of the comment or literal at the start of x,
// or 0 if there is none.
func goTextPiece(x string) int {
	switch {
	case strings.HasPrefix(x, "//"):
		if i := strings.IndexByte(x, '\n'); i >= 0 {
			return i
		}
		return len(x)
	case strings.HasPrefix(x, "/*"):
		if i := strings.Index(x[2:], "*/"); i >= 0 {
			return i + 4
		}
	case x[0] == '`':
		if i := strings.IndexByte(x[1:], '`'); i >= 0 {
			return i + 2
		}
	case x[0] == '"' || x[0] == '\'':
		for i := 1; i < len(x) && x[i] != '\n'; i++ {
			if x[i] == x[0] {
				if i == 1 && x[0] == '\'' {
					return 0
				}
				return i + 1
			}
			if x[i] == '\\' {
				i++
				if i < len(x) && x[i] == '\n' {
					return 0
				}
			}
		}
	}
	return 0
}

// goTextEnd finds the first occurrence of end outside comments and literals.
func goTextEnd(x, end string) int {
	for i := 0; i < len(x); {
		if strings.HasPrefix(x[i:], end) {
			return i
		}
		if n := goTextPiece(x[i:]); n > 0 {
			i += n
		} else {
			i++
		}
	}
	return -1
}

// refGo reads a Go expression of the supported kinds.
func refGo(x string) (*GX, error) {
	// Comments and line breaks outside literals only separate tokens.
	var b strings.Builder
	for i := 0; i < len(x); {
		n := goTextPiece(x[i:])
		switch {
		case n > 0 && x[i] == '/':
			b.WriteByte(' ')
			i += n
		case n > 0:
			b.WriteString(x[i : i+n])
			i += n
		case strings.IndexByte("\"'`", x[i]) >= 0 || strings.HasPrefix(x[i:], "/*"):
			return nil, fmt.Errorf("unterminated literal or comment")
		case x[i] == '\n':
			b.WriteByte(' ')
			i++
		default:
			b.WriteByte(x[i])
			i++
		}
	}
	toks, ok := goscan(b.String())
	if !ok {
		return nil, fmt.Errorf("bad token")
	}
	p := &goParser{toks: toks}
	g := p.binary(1)
	if p.err == "" && p.i < len(p.toks) {
		p.err = "text after expression"
	}
	if p.err != "" {
		return nil, fmt.Errorf("%s", p.err)
	}
	return g, nil
}

type goParser struct {
	toks []gotok
	i    int
	err  string
}

func (p *goParser) peek() gotoken.Token {
	if p.i < len(p.toks) {
		return p.toks[p.i].tok
	}
	return gotoken.EOF
}

func (p *goParser) bad(msg string) *GX {
	if p.err == "" {
		p.err = msg
	}
	p.i = len(p.toks)
	return &GX{K: "id", S: "BAD"}
}

func (p *goParser) binary(prec int) *GX {
	l := p.unary()
	for p.err == "" {
		op := p.peek()
		q := op.Precedence()
		if q < prec {
			return l
		}
		p.i++
		r := p.binary(q + 1)
		l = &GX{K: "bin", S: op.String(), X: []*GX{l, r}}
	}
	return l
}

func (p *goParser) unary() *GX {
	switch t := p.peek(); t {
	case gotoken.ADD, gotoken.SUB, gotoken.NOT, gotoken.XOR, gotoken.AND, gotoken.ARROW, gotoken.TILDE:
		p.i++
		return &GX{K: "un", S: t.String(), X: []*GX{p.unary()}}
	case gotoken.MUL:
		p.i++
		return &GX{K: "star", X: []*GX{p.unary()}}
	}
	var x *GX
	switch t := p.peek(); t {
	case gotoken.IDENT:
		x = &GX{K: "id", S: p.toks[p.i].lit}
		p.i++
	case gotoken.INT, gotoken.FLOAT, gotoken.IMAG, gotoken.CHAR, gotoken.STRING:
		x = &GX{K: "lit", S: p.toks[p.i].lit}
		p.i++
	case gotoken.LPAREN:
		p.i++
		x = paren(p.binary(1))
		if p.err == "" && p.peek() != gotoken.RPAREN {
			return p.bad("expected )")
		}
		p.i++
	default:
		return p.bad("unexpected " + t.String())
	}
	for p.err == "" {
		switch p.peek() {
		case gotoken.PERIOD:
			p.i++
			if p.peek() != gotoken.IDENT {
				return p.bad("expected selector")
			}
			x = &GX{K: "sel", S: p.toks[p.i].lit, X: []*GX{x}}
			p.i++
		case gotoken.LPAREN:
			p.i++
			call := &GX{K: "call", X: []*GX{x}}
			for p.err == "" && p.peek() != gotoken.RPAREN {
				call.X = append(call.X, p.binary(1))
				if p.peek() == gotoken.ELLIPSIS {
					call.Ell = true
					p.i++
					if p.peek() == gotoken.COMMA {
						p.i++
					}
					break
				}
				if p.peek() != gotoken.COMMA {
					break
				}
				p.i++
			}
			if p.err == "" && p.peek() != gotoken.RPAREN {
				return p.bad("expected ) after arguments")
			}
			p.i++
			x = call
		default:
			return x
		}
	}
	return x
}
