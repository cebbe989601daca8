package main

// The model of a rule file: what the generators produce, what the renderer
// writes down as text, and what every oracle is stated against. It is
// independent of the data structures of the code under test.

import (
	"fmt"
	goscanner "go/scanner"
	gotoken "go/token"
	"strings"
)

// Part of an operator: a literal part (Alts empty) or an alternation group.
type Part struct {
	Lit  string   `json:"lit,omitempty"`
	Alts []string `json:"alts,omitempty"`
}

// GX is a Go expression.
type GX struct {
	K   string `json:"k"` // id lit paren un bin call star sel
	S   string `json:"s,omitempty"`
	X   []*GX  `json:"x,omitempty"`
	Ell bool   `json:"ell,omitempty"`
}

// Val is a value: an s-expression, a call expression or a variable.
type Val struct {
	S *SX    `json:"s,omitempty"`
	E *GX    `json:"e,omitempty"`
	V string `json:"v,omitempty"`
}

// SX is an s-expression.
type SX struct {
	Bind   string `json:"bind,omitempty"`
	Op     []Part `json:"op"`
	Type   string `json:"type,omitempty"`
	AuxInt *GX    `json:"auxint,omitempty"`
	Aux    *GX    `json:"aux,omitempty"`
	Args   []*Val `json:"args,omitempty"`
	Ell    bool   `json:"ell,omitempty"`
	Trail  bool   `json:"trail,omitempty"`
}

// Rule is one rule.
type Rule struct {
	M     *Val   `json:"m"`
	Cond  *GX    `json:"cond,omitempty"`
	Block string `json:"block,omitempty"`
	R     *Val   `json:"r"`
}

// ---- canonical text of a model

func canonRules(rs []*Rule) string {
	var b strings.Builder
	for i, r := range rs {
		fmt.Fprintf(&b, "rule %d\n", i)
		r.canon(&b)
	}
	return b.String()
}

func canonRule(r *Rule) string {
	var b strings.Builder
	r.canon(&b)
	return b.String()
}

func (r *Rule) canon(b *strings.Builder) {
	b.WriteString(" match ")
	r.M.canon(b)
	b.WriteString("\n")
	if r.Cond != nil {
		b.WriteString(" cond ")
		r.Cond.canon(b)
		b.WriteString("\n")
	}
	if r.Block != "" {
		fmt.Fprintf(b, " block %q\n", r.Block)
	}
	b.WriteString(" result ")
	r.R.canon(b)
	b.WriteString("\n")
}

func (v *Val) canon(b *strings.Builder) {
	switch {
	case v.S != nil:
		v.S.canon(b)
	case v.E != nil:
		b.WriteString("expr{")
		v.E.canon(b)
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "var:%q", v.V)
	}
}

func canonOp(b *strings.Builder, op []Part) {
	if len(op) == 1 && op[0].Alts == nil {
		fmt.Fprintf(b, "op:%q", op[0].Lit)
		return
	}
	b.WriteString("parts[")
	for i, p := range op {
		if i > 0 {
			b.WriteString(" ")
		}
		if p.Alts == nil {
			fmt.Fprintf(b, "%q", p.Lit)
		} else {
			fmt.Fprintf(b, "alt%q", p.Alts)
		}
	}
	b.WriteString("]")
}

func (s *SX) canon(b *strings.Builder) {
	b.WriteString("sexpr(")
	canonOp(b, s.Op)
	if s.Bind != "" {
		fmt.Fprintf(b, " bind:%q", s.Bind)
	}
	if s.Type != "" {
		fmt.Fprintf(b, " type:%q", s.Type)
	}
	if s.AuxInt != nil {
		b.WriteString(" auxint{")
		s.AuxInt.canon(b)
		b.WriteString("}")
	}
	if s.Aux != nil {
		b.WriteString(" aux{")
		s.Aux.canon(b)
		b.WriteString("}")
	}
	for _, a := range s.Args {
		b.WriteString(" ")
		a.canon(b)
	}
	if s.Ell {
		b.WriteString(" ELLIPSIS")
	}
	if s.Trail {
		b.WriteString(" TRAILING")
	}
	b.WriteString(")")
}

func (g *GX) canon(b *strings.Builder) {
	switch g.K {
	case "id":
		fmt.Fprintf(b, "%q", g.S)
	case "lit":
		fmt.Fprintf(b, "%s:%q", litKind(g.S), g.S)
	case "paren":
		b.WriteString("paren(")
		g.X[0].canon(b)
		b.WriteString(")")
	case "un":
		fmt.Fprintf(b, "un%q(", g.S)
		g.X[0].canon(b)
		b.WriteString(")")
	case "bin":
		fmt.Fprintf(b, "bin%q(", g.S)
		g.X[0].canon(b)
		b.WriteString(", ")
		g.X[1].canon(b)
		b.WriteString(")")
	case "call":
		b.WriteString("call(")
		for i, x := range g.X {
			if i > 0 {
				b.WriteString(", ")
			}
			x.canon(b)
		}
		if g.Ell {
			b.WriteString(" ...")
		}
		b.WriteString(")")
	case "star":
		b.WriteString("star(")
		g.X[0].canon(b)
		b.WriteString(")")
	case "sel":
		b.WriteString("sel(")
		g.X[0].canon(b)
		fmt.Fprintf(b, ", %q)", g.S)
	default:
		panic("bad GX kind " + g.K)
	}
}

func canonGX(g *GX) string {
	var b strings.Builder
	g.canon(&b)
	return b.String()
}

type gotok struct {
	tok gotoken.Token
	lit string
}

// goscan splits Go text into tokens, newline semicolons and comments removed.
func goscan(x string) (toks []gotok, ok bool) {
	fset := gotoken.NewFileSet()
	var s goscanner.Scanner
	s.Init(fset.AddFile("", fset.Base(), len(x)), []byte(x), nil, 0)
	for {
		_, tok, lit := s.Scan()
		if tok == gotoken.EOF {
			return toks, s.ErrorCount == 0
		}
		if tok == gotoken.SEMICOLON && lit == "\n" {
			continue
		}
		toks = append(toks, gotok{tok, lit})
	}
}

var litKinds = map[string]string{}

func litKind(v string) string {
	if k, ok := litKinds[v]; ok {
		return k
	}
	toks, ok := goscan(v)
	k := "BAD"
	if ok && len(toks) == 1 {
		k = toks[0].tok.String()
	}
	if len(litKinds) < 10000 {
		litKinds[v] = k
	}
	return k
}

// ---- helpers over models

func (v *Val) walkS(f func(*SX)) {
	if v.S == nil {
		return
	}
	f(v.S)
	for _, a := range v.S.Args {
		a.walkS(f)
	}
}

func (r *Rule) walkS(f func(*SX)) {
	r.M.walkS(f)
	r.R.walkS(f)
}

func (v *Val) clone() *Val {
	c := *v
	if v.S != nil {
		s := *v.S
		s.Op = append([]Part(nil), v.S.Op...)
		s.Args = nil
		for _, a := range v.S.Args {
			s.Args = append(s.Args, a.clone())
		}
		c.S = &s
	}
	return &c
}

// clone copies the rule; embedded Go expressions are shared.
func (r *Rule) clone() *Rule {
	c := *r
	c.M, c.R = r.M.clone(), r.R.clone()
	return &c
}

// altCounts lists the sizes of all alternation groups of the rule.
func (r *Rule) altCounts() []int {
	var ns []int
	r.walkS(func(s *SX) {
		for _, p := range s.Op {
			if p.Alts != nil {
				ns = append(ns, len(p.Alts))
			}
		}
	})
	return ns
}

// alternatives is the specification of expansion for one rule: the rules
// obtained by choosing the i-th alternative everywhere, or false if the groups
// disagree in size.
func (r *Rule) alternatives() ([]*Rule, bool) {
	n := 1
	for _, m := range r.altCounts() {
		if n != 1 && m != n {
			return nil, false
		}
		n = m
	}
	if n == 1 {
		return []*Rule{r}, true
	}
	var out []*Rule
	for i := 0; i < n; i++ {
		c := r.clone()
		c.walkS(func(s *SX) {
			name := ""
			for _, p := range s.Op {
				if p.Alts != nil {
					name += p.Alts[i]
				} else {
					name += p.Lit
				}
			}
			s.Op = []Part{{Lit: name}}
		})
		out = append(out, c)
	}
	return out, true
}

func expandModel(rs []*Rule) ([]*Rule, bool) {
	var out []*Rule
	for _, r := range rs {
		e, ok := r.alternatives()
		if !ok {
			return nil, false
		}
		out = append(out, e...)
	}
	return out, true
}

// size counts the nodes of a rule, a rough measure for classification.
func (r *Rule) size() (nodes, depth int) {
	var rec func(v *Val, d int)
	rec = func(v *Val, d int) {
		nodes++
		if d > depth {
			depth = d
		}
		if v.S != nil {
			for _, a := range v.S.Args {
				rec(a, d+1)
			}
		}
	}
	rec(r.M, 1)
	rec(r.R, 1)
	return
}

// features of a rule, by the model.
type features struct{ binding, typ, aux, auxint, ellipsis, trailing bool }

func (r *Rule) features() (f features) {
	r.walkS(func(s *SX) {
		f.binding = f.binding || s.Bind != ""
		f.typ = f.typ || s.Type != ""
		f.aux = f.aux || s.Aux != nil
		f.auxint = f.auxint || s.AuxInt != nil
		f.ellipsis = f.ellipsis || s.Ell
		f.trailing = f.trailing || s.Trail
	})
	return
}

// simple reports whether the command translates the rule rather than drop it.
func (r *Rule) simple() bool {
	return r.Cond == nil && r.Block == "" && r.features() == features{}
}
