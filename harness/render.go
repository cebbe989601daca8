package main

// Rendering of models as text with arbitrary layout.

import (
	"strings"
)

// gap says what may separate a token from the one before it.
type gap int

const (
	gNone    gap = iota // nothing
	gOpt                // any layout or nothing
	gReq                // some layout
	gGo                 // layout of a Go expression
	gCond               // layout of a condition, without line comments
	gCondEnd            // layout after a condition
)

type tok struct {
	s   string
	gap gap
}

type renderer struct{ toks []tok }

func (r *renderer) add(gp gap, s string) { r.toks = append(r.toks, tok{s, gp}) }

// rtokens renders rules as tokens. choose picks positions for type, auxint and
// aux among the operands; nil keeps them in printed order.
func rtokens(rs []*Rule, choose func(n int) int) []tok {
	r := &renderer{}
	for i, x := range rs {
		gp := gOpt
		if i > 0 && rs[i-1].R.S == nil && rs[i-1].R.E == nil {
			gp = gReq
		}
		r.value(gp, x.M, choose)
		if x.Cond != nil {
			r.add(gReq, "&&")
			r.gx(gReq, gCond, x.Cond)
			r.add(gCondEnd, "=>")
		} else {
			r.add(gOpt, "=>")
		}
		gp = gOpt
		if x.Block != "" {
			r.add(gOpt, "@"+x.Block)
			gp = gReq
		}
		r.value(gp, x.R, choose)
	}
	r.add(gOpt, "")
	return r.toks
}

func (r *renderer) value(gp gap, v *Val, choose func(n int) int) {
	switch {
	case v.S != nil:
		r.sexpr(gp, v.S, choose)
	case v.E != nil:
		r.callval(gp, v.E)
	default:
		r.add(gp, v.V)
	}
}

func (r *renderer) callval(gp gap, e *GX) {
	if e.K == "id" {
		r.add(gp, e.S)
		return
	}
	r.add(gp, e.X[0].S)
	r.add(gNone, "(")
	for i, a := range e.X[1:] {
		if i > 0 {
			r.add(gOpt, ",")
		}
		r.callval(gOpt, a)
	}
	r.add(gOpt, ")")
}

func opText(op []Part) string {
	var b strings.Builder
	for _, p := range op {
		if p.Alts == nil {
			b.WriteString(p.Lit)
		} else {
			b.WriteString("(" + strings.Join(p.Alts, "|") + ")")
		}
	}
	return b.String()
}

func (r *renderer) sexpr(gp gap, s *SX, choose func(n int) int) {
	if s.Bind != "" {
		r.add(gp, s.Bind+":")
		gp = gNone
	}
	r.add(gp, "(")
	r.add(gOpt, opText(s.Op))
	var operands []func()
	for i := range s.Args {
		a := s.Args[i]
		operands = append(operands, func() { r.value(gReq, a, choose) })
	}
	insert := func(f func()) {
		k := 0
		if choose != nil {
			k = choose(len(operands) + 1)
		}
		operands = append(operands, nil)
		copy(operands[k+1:], operands[k:])
		operands[k] = f
	}
	if s.Aux != nil {
		insert(func() { r.bracket("{", s.Aux, "}") })
	}
	if s.AuxInt != nil {
		insert(func() { r.bracket("[", s.AuxInt, "]") })
	}
	if s.Type != "" {
		insert(func() { r.add(gReq, "<"+s.Type+">") })
	}
	for _, f := range operands {
		f()
	}
	if s.Ell {
		r.add(gReq, "...")
	}
	if s.Trail {
		r.add(gReq, "___")
	}
	r.add(gOpt, ")")
}

func (r *renderer) bracket(open string, e *GX, close string) {
	r.add(gReq, open)
	r.gx(gGo, gGo, e)
	r.add(gGo, close)
}

// gx renders a Go expression: first is the gap before its first token.
func (r *renderer) gx(first, rest gap, e *GX) {
	toks := gxTokens(e, nil)
	for i, t := range toks {
		if i == 0 {
			r.add(first, t)
		} else {
			r.add(rest, t)
		}
	}
}

func gxTokens(e *GX, out []string) []string {
	switch e.K {
	case "id", "lit":
		out = append(out, e.S)
	case "paren":
		out = append(out, "(")
		out = gxTokens(e.X[0], out)
		out = append(out, ")")
	case "un":
		out = append(out, e.S)
		out = gxTokens(e.X[0], out)
	case "star":
		out = append(out, "*")
		out = gxTokens(e.X[0], out)
	case "bin":
		out = gxTokens(e.X[0], out)
		out = append(out, e.S)
		out = gxTokens(e.X[1], out)
	case "sel":
		out = gxTokens(e.X[0], out)
		out = append(out, ".", e.S)
	case "call":
		out = gxTokens(e.X[0], out)
		out = append(out, "(")
		for i, a := range e.X[1:] {
			if i > 0 {
				out = append(out, ",")
			}
			out = gxTokens(a, out)
		}
		if e.Ell {
			out = append(out, "...")
		}
		out = append(out, ")")
	case "text":
		out = append(out, e.S)
	}
	return out
}

var fuseCache = map[[2]string]bool{}

// fused reports whether two Go tokens written without a gap read differently.
func fused(a, b string) bool {
	k := [2]string{a, b}
	if f, ok := fuseCache[k]; ok {
		return f
	}
	toks, ok := goscan(a + b)
	text := func(t gotok) string {
		if t.lit != "" {
			return t.lit
		}
		return t.tok.String()
	}
	f := !ok || len(toks) != 2 || text(toks[0]) != a || text(toks[1]) != b
	if len(fuseCache) < 100000 {
		fuseCache[k] = f
	}
	return f
}

// plainLayout writes tokens with the least layout of single spaces.
func plainLayout(toks []tok) string {
	var b strings.Builder
	prev := ""
	for i, t := range toks {
		sp := ""
		switch t.gap {
		case gReq:
			sp = " "
		case gGo, gCond:
			if fused(prev, t.s) {
				sp = " "
			}
		}
		if i == 0 {
			sp = ""
		}
		b.WriteString(sp)
		b.WriteString(t.s)
		prev = t.s
	}
	return b.String()
}

var commentPool = []string{
	"", " c", " => y", " (A x) => y", " && d", " \"", " `", " ]", " }", " */", " /*", "/", " é世", " \x00",
	"line x:0", "line foo.go:1:0", " (((", " )))", "\t", " '", " ...", " @b", " ___", "\r", " <t", " >", " a => b\r", " \ufeff", "export f", "go:build x", " %s%d",
}

// skip draws a piece of layout. line says whether line comments are allowed,
// block whether block comments are.
func (g *G) skip(b *strings.Builder, line, block bool) {
	for {
		switch g.n(8) {
		case 0, 1, 2:
			b.WriteString(" ")
		case 3:
			b.WriteString("\n")
		case 4:
			b.WriteString("\t")
		case 5:
			b.WriteString("\r\n")
		case 6:
			switch {
			case line:
				b.WriteString("//" + g.comment() + "\n")
			case block:
				b.WriteString("/*" + strings.ReplaceAll(g.comment(), "*/", "") + "*/")
			default:
				b.WriteString("  ")
			}
		default:
			if block {
				b.WriteString("/*" + strings.ReplaceAll(g.comment(), "*/", "") + "*/")
			} else {
				b.WriteString("\r")
			}
		}
		if !g.chance(2) {
			return
		}
	}
}

func (g *G) comment() string {
	if g.chance(2) {
		return " " + g.word("abcxyz=>&@(){}[]<>_/\"'`", 12) + g.pick(commentPool)
	}
	if g.chance(1) {
		return g.noise(10, func(r rune) bool { return r != '\n' })
	}
	return g.pick(commentPool)
}

// layout writes tokens with random layout. density is how often optional gaps
// are filled: about once in 2^density.
func (g *G) layout(toks []tok, density int) string {
	var b strings.Builder
	prev := ""
	for i, t := range toks {
		start := b.Len()
		var sk strings.Builder
		req := false
		fill := g.chance(density)
		switch t.gap {
		case gNone:
		case gOpt:
			if fill {
				g.skip(&sk, true, false)
			}
		case gReq:
			req = i > 0
			if fill {
				g.skip(&sk, true, false)
			}
		case gGo:
			req = fused(prev, t.s)
			if fill {
				g.skip(&sk, true, true)
			}
		case gCond:
			req = fused(prev, t.s)
			if fill {
				g.skip(&sk, false, true)
			}
		case gCondEnd:
			if fill {
				g.skip(&sk, false, true)
				if g.chance(1) {
					sk.WriteString(" //" + g.comment() + "\n")
				}
			}
		}
		s := sk.String()
		if s == "" && req {
			s = " "
		}
		if strings.HasSuffix(prev, "/") && strings.HasPrefix(s, "/") {
			s = " " + s
		}
		b.WriteString(s)
		if i == len(toks)-1 && t.s == "" && b.Len() > start && strings.HasSuffix(s, "\n") && g.chance(1) {
			// The text may end in a comment.
			text := b.String()
			b.Reset()
			b.WriteString(text[:len(text)-1])
		}
		b.WriteString(t.s)
		prev = t.s
	}
	return b.String()
}

// source renders rules with random layout and operand order.
func (g *G) source(rs []*Rule) string {
	var choose func(n int) int
	if g.chance(1) {
		choose = g.n
	}
	toks := rtokens(rs, choose)
	switch g.n(4) {
	case 0:
		return plainLayout(toks)
	case 1:
		return g.layout(toks, 4)
	case 2:
		return g.layout(toks, 2)
	default:
		return g.layout(toks, 1)
	}
}
