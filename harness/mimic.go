package main

// Rules whose parts are like each other.

import (
	gotoken "go/token"
	"strconv"
	"strings"
)

// textslot is a part of a rule that another part may be copied to.
type textslot struct {
	get func() string
	set func(string) bool // false if it does not fit
}

func textSlot(p *string, ok func(string) bool) textslot {
	return textslot{func() string { return *p }, func(w string) bool {
		if w == "" || !ok(w) {
			return false
		}
		*p = w
		return true
	}}
}

// okTypeText reports whether a type may read so.
func okTypeText(s string) bool { return !strings.ContainsAny(s, "<>") }

// slots lists the texts of the rule that can be exchanged for others.
func (r *Rule) slots() []textslot {
	var out []textslot
	add := func(p *string, ok func(string) bool) {
		if *p != "" {
			out = append(out, textSlot(p, ok))
		}
	}
	var gx func(e *GX, id func(string) bool)
	gx = func(e *GX, id func(string) bool) {
		if e == nil {
			return
		}
		switch e.K {
		case "id":
			add(&e.S, id)
		case "sel":
			add(&e.S, func(w string) bool { return okIdent(w) })
		case "lit":
			out = append(out, textslot{func() string { return e.S }, func(w string) bool {
				// Other texts, which may hold spaces and comments as well, only
				// within quotes.
				if toks, ok := goscan(w); !ok || len(toks) != 1 || toks[0].lit != w || toks[0].tok == gotoken.IDENT || w[0] == '`' {
					w = strconv.Quote(w)
				}
				if k := litKind(w); k != "INT" && k != "FLOAT" && k != "IMAG" && k != "CHAR" && k != "STRING" || strings.Contains(w, "\n") {
					return false
				}
				e.S = w
				return true
			}})
		}
		for _, x := range e.X {
			gx(x, id)
		}
	}
	for _, v := range r.vals() {
		switch {
		case v.S != nil:
			s := v.S
			add(&s.Bind, okVariable)
			add(&s.Type, okTypeText)
			for i := range s.Op {
				add(&s.Op[i].Lit, okOpword)
				for j := range s.Op[i].Alts {
					add(&s.Op[i].Alts[j], okOpword)
				}
			}
			gx(s.AuxInt, okIdent)
			gx(s.Aux, okIdent)
		case v.E != nil:
			gx(v.E, okFn)
		case v.V != "_":
			add(&v.V, okVariable)
		}
	}
	gx(r.Cond, okIdent)
	add(&r.Block, okBlock)
	return out
}

// mimic copies parts of the rule over others, at times: names, texts, whole Go
// expressions, operators or runs of alternatives. Nothing is added to the rule
// that it has not, and alternation groups keep their sizes.
func (g *G) mimic(r *Rule) *Rule {
	if g.n(5) < 4 {
		return r
	}
	r = r.deepClone()
	for k := 1 + g.n(3); k > 0; k-- {
		switch g.n(8) {
		case 0:
			if es := r.gos(); len(es) > 1 {
				a, b := es[g.n(len(es))], es[g.n(len(es))]
				// Raw strings may span lines, which conditions cannot.
				if a != b && (b != r.Cond || !strings.Contains(strings.Join(gxTokens(a, nil), " "), "\n")) {
					*b = *a.clone()
				}
			}
		case 1:
			var groups [][]string
			var ops []*SX
			r.walkS(func(s *SX) {
				ops = append(ops, s)
				for _, p := range s.Op {
					if len(p.Alts) > 1 {
						groups = append(groups, p.Alts)
					}
				}
			})
			if len(groups) > 0 {
				// A run of equal alternatives, or the same group again.
				as := groups[g.n(len(groups))]
				if bs := groups[g.n(len(groups))]; g.chance(2) && len(as) == len(bs) {
					copy(bs, as)
				} else {
					from := g.n(len(as))
					for n, j := g.size(2, len(as)), from+1; n > 0 && j < len(as); n, j = n-1, j+1 {
						as[j] = as[from]
					}
				}
			} else if len(ops) > 1 {
				ops[g.n(len(ops))].Op = append([]Part(nil), ops[g.n(len(ops))].Op...)
			}
		case 2:
			// The same text and expression in all the features there are.
			var ss []*SX
			r.walkS(func(s *SX) { ss = append(ss, s) })
			if len(ss) > 0 {
				s := ss[g.n(len(ss))]
				t := ss[g.n(len(ss))]
				if s.Bind != "" && t.Bind != "" {
					t.Bind = s.Bind
				}
				if s.Type != "" && t.Type != "" {
					t.Type = s.Type
				}
				if s.Aux != nil && t.AuxInt != nil {
					t.AuxInt = s.Aux.clone()
				}
			}
		default:
			ss := r.slots()
			if len(ss) < 2 {
				continue
			}
			from := ss[g.n(len(ss))]
			if g.n(3) == 0 {
				from = ss[len(ss)-1] // the block or the result
			}
			for try := 0; try < 4; try++ {
				to := ss[g.n(len(ss))]
				if g.n(4) == 0 {
					to = ss[len(ss)-1]
				}
				if to.set(from.get()) {
					break
				}
			}
		}
	}
	return r
}

// irregular gives operators forms that no text has, though trees may have them:
// literal parts next to each other, empty parts, groups of one or none.
func (g *G) irregular(r *Rule) *Rule {
	r = r.deepClone()
	r.walkS(func(s *SX) {
		if g.n(3) > 0 {
			return
		}
		switch i := g.n(len(s.Op)); g.n(5) {
		case 0, 1, 2:
			k := g.n(len(s.Op) + 1)
			op := append([]Part{}, s.Op[:k]...)
			for n := 1 + g.n(2); n > 0; n-- {
				op = append(op, Part{Lit: g.partword()})
			}
			s.Op = append(op, s.Op[k:]...)
		case 3:
			s.Op[i] = Part{Alts: []string{g.partword()}}
		default:
			s.Op = append(s.Op, Part{})
		}
	})
	return r
}

// noise draws text of all kinds of characters that ok allows.
func (g *G) noise(max int, ok func(rune) bool) string {
	var b strings.Builder
	for k := 1 + g.n(max); k > 0; k-- {
		var c rune
		switch g.n(8) {
		case 0, 1:
			c = rune("xyzabcABC0189_"[g.n(14)])
		case 2, 3, 4:
			c = rune(' ' + g.n(95))
		case 5:
			c = rune(g.n(33))
		case 6:
			c = []rune{0x7f, 0x80, 0x85, 0xa0, 0xad, 0xe9, 0xff, 0x300, 0x37e, 0x3a9, 0x6f0, 0x7ff, 0x800, 0x200b, 0x2028, 0x2029, 0x202e, 0x3000, 0x4e16, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff}[g.n(28)]
		default:
			c = rune(g.pickN([]int{'\r', '\n', '\t', '"', '\'', '`', '\\', '/', '*', '=', '>', '&', '@', ')', ']', '}', '%', 0}))
		}
		if ok(c) {
			b.WriteRune(c)
		}
	}
	return b.String()
}
