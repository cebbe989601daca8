package main

// Material for the generators beyond their own pools: the words, expressions
// and rules of the bundled rule files, and, as fuzzers do with the constants
// they find in the program under test, the literals in its source. Words that
// the pinned source does not have are drawn more often. They only steer what
// is generated; no oracle looks at the source.

import (
	_ "embed"
	goscanner "go/scanner"
	gotoken "go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

//go:embed corpus/words.txt
var knownWordsText string

type material struct {
	rules                              []*Rule
	ops, parts, vars, ids, fns, types_ []string
	blocks                             []string
	conds, auxs                        []*GX
	words                              []string // fresh
	ints                               []int    // fresh
}

var (
	reVariable = regexp.MustCompile(`^[a-z][_a-zA-Z0-9]*$`)
	reOpword   = regexp.MustCompile(`^[_a-zA-Z0-9]+$`)
	reGoIdent  = regexp.MustCompile(`^[\p{L}_][\p{L}\p{Nd}_]*$`)
	reType     = regexp.MustCompile(`^[^<>]+$`)
	reBlock    = regexp.MustCompile(`^[^ \t\r\n]+$`)
)

func okVariable(s string) bool { return reVariable.MatchString(s) }
func okOpword(s string) bool   { return reOpword.MatchString(s) }
func okIdent(s string) bool    { return reGoIdent.MatchString(s) && !goKeywords[s] }
func okFn(s string) bool       { return reVariable.MatchString(s) && !goKeywords[s] }
func okType(s string) bool     { return reType.MatchString(s) }
func okBlock(s string) bool    { return reBlock.MatchString(s) && !strings.Contains(s, "//") }

var mat = sync.OnceValue(func() *material {
	m := &material{}
	set := func() (map[string]bool, func(string, func(string) bool)) {
		s := map[string]bool{}
		return s, func(w string, ok func(string) bool) {
			if ok(w) {
				s[w] = true
			}
		}
	}
	sorted := func(s map[string]bool) (out []string) {
		for w := range s {
			out = append(out, w)
		}
		sort.Strings(out)
		return
	}
	ops, addOp := set()
	parts, addPart := set()
	vars, addVar := set()
	ids, addID := set()
	fns, addFn := set()
	types, addType := set()
	blocks, addBlock := set()
	var gx func(x *GX)
	gx = func(x *GX) {
		switch x.K {
		case "id":
			addID(x.S, okIdent)
		case "sel":
			addID(x.S, okIdent)
		case "call":
			if x.X[0].K == "id" {
				addFn(x.X[0].S, okFn)
			}
		}
		for _, y := range x.X {
			gx(y)
		}
	}
	var val func(v *Val)
	val = func(v *Val) {
		switch {
		case v.S != nil:
			s := v.S
			for _, p := range s.Op {
				if p.Alts == nil && len(s.Op) == 1 {
					addOp(p.Lit, okOpword)
				} else if p.Alts == nil {
					addPart(p.Lit, okOpword)
				}
				for _, a := range p.Alts {
					addPart(a, okOpword)
				}
			}
			if s.Bind != "" {
				addVar(s.Bind, okVariable)
			}
			if s.Type != "" {
				addType(s.Type, okType)
			}
			for _, x := range []*GX{s.AuxInt, s.Aux} {
				if x != nil {
					gx(x)
					m.auxs = append(m.auxs, x)
				}
			}
			for _, a := range s.Args {
				val(a)
			}
		case v.E != nil:
			gx(v.E)
		default:
			addVar(v.V, okVariable)
		}
	}
	for _, line := range corpus {
		rs, _, err := refParse(line, false)
		if err != nil || len(rs) != 1 {
			continue
		}
		r := rs[0]
		m.rules = append(m.rules, r)
		val(r.M)
		val(r.R)
		if r.Cond != nil {
			gx(r.Cond)
			m.conds = append(m.conds, r.Cond)
		}
		if r.Block != "" {
			addBlock(r.Block, okBlock)
		}
	}
	m.ops, m.parts, m.vars, m.ids, m.fns, m.types_, m.blocks = sorted(ops), sorted(parts), sorted(vars), sorted(ids), sorted(fns), sorted(types), sorted(blocks)

	known := map[string]bool{}
	for _, l := range strings.Split(knownWordsText, "\n") {
		if w, err := strconv.Unquote(l); err == nil {
			known[w] = true
		}
	}
	for _, w := range harvest() {
		if !known[w] {
			if n, err := strconv.ParseInt(w, 0, 32); err == nil && n >= 2 && n <= 5000 {
				m.ints = append(m.ints, int(n))
			}
			m.words = append(m.words, w)
		}
	}
	return m
})

// harvest lists the literals in the source of the code under test.
func harvest() (out []string) {
	seen := map[string]bool{}
	add := func(w string) {
		if w != "" && len(w) <= 40 && utf8.ValidString(w) && !seen[w] {
			seen[w] = true
			out = append(out, w)
		}
	}
	nonword := regexp.MustCompile(`[^\p{L}\p{Nd}_]+`)
	filepath.Walk("/repo", func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") || fi.Size() > 1<<20 {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		var s goscanner.Scanner
		fset := gotoken.NewFileSet()
		s.Init(fset.AddFile("", fset.Base(), len(b)), b, nil, 0)
		for {
			_, tok, lit := s.Scan()
			switch tok {
			case gotoken.EOF:
				return nil
			case gotoken.STRING, gotoken.CHAR:
				w, err := strconv.Unquote(lit)
				if err != nil {
					continue
				}
				add(w)
				for _, p := range nonword.Split(w, -1) {
					add(p)
				}
			case gotoken.INT, gotoken.FLOAT:
				add(lit)
			}
		}
	})
	sort.Strings(out)
	return
}

// listWords prints the known words, for corpus/words.txt.
func listWords() string {
	var b strings.Builder
	for _, w := range harvest() {
		b.WriteString(strconv.Quote(w) + "\n")
	}
	return b.String()
}

var glue = []string{"x", "8", "16", "32", "64", "A", "_", "is", "Add", "1", "0", "b"}

// special draws a word of the source, or of the bundled rules; mostly none.
func (g *G) special(real []string, ok func(string) bool) (string, bool) {
	m := mat()
	if len(m.words) > 0 && g.chance(3) {
		for try := 0; try < 4; try++ {
			w := g.pick(m.words)
			if g.chance(1) {
				for k := 1 + g.n(2); k > 0; k-- {
					p := g.pick(glue)
					if g.chance(2) {
						p = g.pick(m.words)
					}
					if g.chance(1) {
						w += p
					} else {
						w = p + w
					}
				}
			}
			if ok(w) {
				return w, true
			}
		}
	}
	if len(real) > 0 && g.chance(3) {
		return g.pick(real), true
	}
	return "", false
}

// specialInt draws a number near one in the source; mostly none.
func (g *G) specialInt(max int) (int, bool) {
	m := mat()
	if len(m.ints) > 0 && g.chance(4) {
		if n := m.ints[g.n(len(m.ints))] + g.n(3) - 1; n <= max {
			return n, true
		}
	}
	return 0, false
}

// edge draws a number up to max, mostly near a round one.
func (g *G) edge(max int) int {
	if n, ok := g.specialInt(max); ok {
		return n
	}
	for g.n(8) < 7 {
		n := g.pickN([]int{10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000}) + g.n(3) - 1
		if n <= max {
			return n
		}
	}
	return g.n(max + 1)
}

// count draws how many of something cheap there are.
func (g *G) count(small, big int) int {
	if n, ok := g.specialInt(300); ok {
		return n
	}
	return g.size(small, big)
}

// realRule is a bundled rule with a few changes to its structure.
func (g *G) realRule(o ruleopts) *Rule {
	m := mat()
	r := m.rules[g.n(len(m.rules))].clone()
	for k := g.n(5); k > 0; k-- {
		var ss []*SX
		var slots []**Val
		r.walkS(func(s *SX) {
			ss = append(ss, s)
			for i := range s.Args {
				slots = append(slots, &s.Args[i])
			}
		})
		slots = append(slots, &r.M, &r.R)
		if len(ss) == 0 {
			r.M = &Val{S: g.sexpr(o, 1)}
			continue
		}
		s := ss[g.n(len(ss))]
		switch g.n(16) {
		case 0:
			*slots[g.n(len(slots))] = g.value(o, 1)
		case 1:
			*slots[g.n(len(slots))] = (*slots[g.n(len(slots))]).clone()
		case 2:
			s.Args = append(s.Args, g.value(o, 1))
		case 3:
			if len(s.Args) > 0 {
				i := g.n(len(s.Args))
				s.Args = append(append([]*Val(nil), s.Args[:i]...), s.Args[i+1:]...)
			}
		case 4:
			s.Ell = !s.Ell
		case 5:
			s.Trail = !s.Trail
		case 6:
			s.Bind = g.variable()
		case 7:
			s.Type = g.typ()
		case 8:
			s.AuxInt = m.auxs[g.n(len(m.auxs))]
		case 9:
			s.Aux = m.auxs[g.n(len(m.auxs))]
		case 10:
			r.Cond = m.conds[g.n(len(m.conds))]
		case 11:
			r.Block = g.block()
		case 12:
			r.M, r.R = r.R, r.M
		case 13:
			if c := r.altCounts(); len(c) > 0 {
				s.Op = g.op(0, c[0])
			} else {
				s.Op = g.op(0, 2+g.n(3))
			}
		case 14:
			if len(s.Args) > 1 {
				i, j := g.n(len(s.Args)), g.n(len(s.Args))
				s.Args[i], s.Args[j] = s.Args[j], s.Args[i]
			}
		default:
			o := m.rules[g.n(len(m.rules))]
			*slots[g.n(len(slots))] = o.R.clone()
		}
	}
	return r
}
