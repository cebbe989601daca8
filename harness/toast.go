package main

// Building the data structures of the code under test from models, without
// its parser.

import (
	goast "go/ast"
	gotoken "go/token"

	"github.com/mmcloughlin/ssarules/ast"
)

func toFile(rs []*Rule) *ast.File {
	f := &ast.File{}
	for _, r := range rs {
		f.Rules = append(f.Rules, toRule(r))
	}
	return f
}

func toRule(r *Rule) *ast.Rule {
	a := &ast.Rule{Match: toValue(r.M), Block: r.Block, Result: toValue(r.R)}
	if r.Cond != nil {
		a.Condition = &ast.Expr{Expr: toGo(r.Cond)}
	}
	return a
}

func toValue(v *Val) ast.Value {
	switch {
	case v.S != nil:
		return toSExpr(v.S)
	case v.E != nil:
		return &ast.Expr{Expr: toGo(v.E)}
	}
	return ast.Variable(v.V)
}

func toOp(op []Part) ast.Op {
	if len(op) == 1 && op[0].Alts == nil {
		return ast.Opcode(op[0].Lit)
	}
	var parts ast.OpcodeParts
	for _, p := range op {
		if p.Alts == nil {
			parts = append(parts, ast.Opcode(p.Lit))
			continue
		}
		alt := ast.OpcodeAlt{}
		for _, a := range p.Alts {
			alt = append(alt, ast.Opcode(a))
		}
		parts = append(parts, alt)
	}
	return parts
}

func toSExpr(s *SX) *ast.SExpr {
	a := &ast.SExpr{Binding: ast.Variable(s.Bind), Op: toOp(s.Op), Type: ast.Type(s.Type), Ellipsis: s.Ell, Trailing: s.Trail}
	if s.AuxInt != nil {
		a.AuxInt = &ast.Expr{Expr: toGo(s.AuxInt)}
	}
	if s.Aux != nil {
		a.Aux = &ast.Expr{Expr: toGo(s.Aux)}
	}
	for _, x := range s.Args {
		a.Args = append(a.Args, toValue(x))
	}
	return a
}

var goOps = map[string]gotoken.Token{}

func init() {
	for t := gotoken.ADD; t <= gotoken.TILDE; t++ {
		goOps[t.String()] = t
	}
}

func toGo(g *GX) goast.Expr {
	switch g.K {
	case "id":
		return &goast.Ident{Name: g.S}
	case "lit":
		toks, _ := goscan(g.S)
		return &goast.BasicLit{Kind: toks[0].tok, Value: g.S}
	case "paren":
		return &goast.ParenExpr{X: toGo(g.X[0])}
	case "un":
		return &goast.UnaryExpr{Op: goOps[g.S], X: toGo(g.X[0])}
	case "star":
		return &goast.StarExpr{X: toGo(g.X[0])}
	case "bin":
		return &goast.BinaryExpr{X: toGo(g.X[0]), Op: goOps[g.S], Y: toGo(g.X[1])}
	case "sel":
		return &goast.SelectorExpr{X: toGo(g.X[0]), Sel: &goast.Ident{Name: g.S}}
	case "call":
		c := &goast.CallExpr{Fun: toGo(g.X[0])}
		for _, x := range g.X[1:] {
			c.Args = append(c.Args, toGo(x))
		}
		if g.Ell {
			c.Ellipsis = 1
		}
		return c
	}
	panic("bad GX kind " + g.K)
}

func (g *GX) clone() *GX {
	if g == nil {
		return nil
	}
	c := *g
	c.X = nil
	for _, x := range g.X {
		c.X = append(c.X, x.clone())
	}
	return &c
}

// deepClone copies the rule with its Go expressions.
func (r *Rule) deepClone() *Rule {
	c := *r
	c.M, c.R, c.Cond = r.M.deepClone(), r.R.deepClone(), r.Cond.clone()
	return &c
}

func (v *Val) deepClone() *Val {
	c := *v
	c.E = v.E.clone()
	if v.S != nil {
		s := *v.S
		s.Op = nil
		for _, p := range v.S.Op {
			if p.Alts != nil {
				p.Alts = append([]string{}, p.Alts...)
			}
			s.Op = append(s.Op, p)
		}
		s.AuxInt, s.Aux = v.S.AuxInt.clone(), v.S.Aux.clone()
		s.Args = nil
		for _, a := range v.S.Args {
			s.Args = append(s.Args, a.deepClone())
		}
		c.S = &s
	}
	return &c
}

// vals lists the values of the rule, each with its place.
func (r *Rule) vals() []*Val {
	var out []*Val
	var rec func(v *Val)
	rec = func(v *Val) {
		out = append(out, v)
		if v.S != nil {
			for _, a := range v.S.Args {
				rec(a)
			}
		}
	}
	rec(r.M)
	rec(r.R)
	return out
}

// gos lists the Go expressions of the rule. Those of call values are not
// included: they are limited to what the language allows there.
func (r *Rule) gos() []*GX {
	var out []*GX
	if r.Cond != nil {
		out = append(out, r.Cond)
	}
	r.walkS(func(s *SX) {
		if s.AuxInt != nil {
			out = append(out, s.AuxInt)
		}
		if s.Aux != nil {
			out = append(out, s.Aux)
		}
	})
	return out
}
