package main

// Generators of models. Every random choice is drawn from rapid, so failures
// shrink and a run is a function of the code and the seed.

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// G draws random values.
type G struct {
	t      *rapid.T
	tape   *tape    // in place of t
	list   []choice // drawn so far
	spans  []span   // of list
	recent []string // words of this case
	vals   []*Val   // values of this rule
}

var intGens = map[int]*rapid.Generator[int]{}

// n draws from 0..max-1; rapid favours small values mildly.
func (g *G) n(max int) int {
	if max <= 1 {
		return 0
	}
	v := 0
	if g.tape != nil {
		v = g.tape.draw(max)
	} else {
		gen, ok := intGens[max]
		if !ok {
			gen = rapid.IntRange(0, max-1)
			intGens[max] = gen
		}
		v = gen.Draw(g.t, "n")
	}
	if len(g.list) <= maxChoices {
		g.list = append(g.list, choice{max, v})
	}
	return v
}

// chance is true about once in 2^k times.
func (g *G) chance(k int) bool { return g.n(1<<k) == (1<<k)-1 }

func (g *G) pick(ss []string) string { return ss[g.n(len(ss))] }

// size draws a size with a heavy tail: mostly below small, at times up to big.
func (g *G) size(small, big int) int {
	if g.chance(4) {
		return g.n(big + 1)
	}
	return g.n(small + 1)
}

var (
	varPool   = []string{"x", "y", "z", "c", "d", "mem", "ptr", "val", "a1", "x_y", "iNT", "_"}
	fnPool    = []string{"f", "isPowerOfTwo", "typ_", "log2", "x", "newRuneX"}
	opPool    = []string{"A", "Add64", "MOVDstore", "Const8", "x86", "_", "ADDQconst", "b", "64", "Op_1", "___", "__"}
	partPool  = []string{"Add", "MOV", "load", "const", "Q", "32", "_", "B", "8", "xx", "ZX"}
	typePool  = []string{"t", "typ.UInt64", "types.TypeMem", "*t", "t.Elem()", "typ.Ptr To", "a\tb", "(x|y)", "[]int", "{}", "// c", "é", "x y\n z", " t ", "=", "\"", "t.Key", "...", "___", "_", "=&", "%d", "%!s", "\\n", " ", "\n", "\t \r", "<", "t<u", "-", "nil", "t,u", "\u00a0", "\\"}
	idPool    = []string{"x", "c", "t", "config", "true", "nil", "_", "Foo", "isU8Bit", "typ", "é", "Ω1", "x_1", "v", "int64", "e", "E1", "false", "iota", "0"}
	blockPool = []string{"b", "x", "c.Block", "b.Preds[0]", "1", "@", "(x)", "é", "_", "x=>y", "{}", "\"s", "/", "a/b", "...", "%s", "%d%%", "&&", "`", "&"}
	intLits   = []string{"0", "1", "42", "0x1F", "0XaB", "0b101", "0o17", "017", "1_000", "9223372036854775808", "255"}
	fltLits   = []string{"1.5", ".5", "1.", "1e9", "0x1p-2", "1E+5", "6.02e23"}
	miscLits  = []string{"2i", "1.5i", "0x1p2i"}
	charLits  = []string{"'a'", `'\n'`, `'\''`, "']'", "'}'", "'世'", `'"'`, "'`'", `'\\'`, `'\u00e9'`, "'/'", "'%'"}
	strLits   = []string{`""`, `"a"`, `"a b"`, `"=>"`, `"//x"`, `"]"`, `"}"`, `"\""`, `"&&"`, `"/*"`, `"*/"`, `"\\"`, `"%d"`, `"%!v(x)"`, `"'"`, "\"`\"", `"世界"`, `"\x00\n"`, `"x => y // z"`, `"@b"`, `">"`, `"("`, `")"`}
	rawLits   = []string{"`raw`", "``", "`a\\`", "`\"`", "`=>`", "`]}`", "`//`", "`  x`", "`/*`", "`'`"}
	rawNLLits = []string{"`a\nb`", "`\n`", "`// x\n`", "`]\n}`"}
	unOps     = []string{"-", "!", "^", "&", "+", "<-"}
	binOps    = []string{"+", "&&", "==", "-", "||", "!=", "<", "<=", ">", ">=", "*", "/", "%", "&", "|", "^", "<<", ">>", "&^"}
)

var binPrec = map[string]int{
	"||": 1, "&&": 2,
	"==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3,
	"+": 4, "-": 4, "|": 4, "^": 4,
	"*": 5, "/": 5, "%": 5, "<<": 5, ">>": 5, "&": 5, "&^": 5,
}

var goKeywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("break case chan const continue default defer else fallthrough for func go goto if import interface map package range return select struct switch type var") {
		goKeywords[k] = true
	}
}

const wordChars = "abcxyzABCXYZ0189_qwertuiopsdfghjklvnmQWERTUIOPSDFGHJKLVNM234567"

func (g *G) word(first string, max int) string {
	b := []byte{first[g.n(len(first))]}
	for k := g.n(max); k > 0; k-- {
		b = append(b, wordChars[g.n(len(wordChars))])
	}
	return string(b)
}

const lower = "xyabcdefghijklmnopqrstuvwz"

// related draws a word that is like one drawn before: the same, or different
// in one character, in case, in length, or only far from its start or end.
func (g *G) related(ok func(string) bool) (string, bool) {
	if len(g.recent) == 0 || g.n(12) != 11 {
		if g.n(100) == 99 {
			w := strings.Repeat(g.pick([]string{"a", "x1", "m_"}), 20+g.n(130))
			if g.chance(1) {
				w += g.word(lower, 3)
			}
			return w, ok(w)
		}
		return "", false
	}
	w := g.recent[g.n(len(g.recent))]
	c := string(wordChars[g.n(len(wordChars))])
	switch i := g.n(len(w)); g.n(10) {
	case 0:
	case 1:
		w = w[:len(w)-1] + c
	case 2:
		w = c + w[1:]
	case 3:
		w = w[:i] + c + w[i+1:]
	case 4:
		w += c
	case 5:
		w = w[:i] + w[i+1:]
	case 6:
		w = w[:i] + g.pick([]string{"_", "0", "x"}) + w[i:]
	case 7:
		w = w[:i] + swapCase(w[i:i+1]) + w[i+1:]
	case 8:
		w = swapCase(w)
	default:
		w = c + w
	}
	return w, ok(w)
}

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
			b[i] = c ^ 32
		}
	}
	return string(b)
}

// remember keeps a word for related.
func (g *G) remember(w string) string {
	if len(g.recent) < 40 && okOpword(w) {
		g.recent = append(g.recent, w)
	}
	return w
}

// variable draws a rule variable that is not the placeholder.
func (g *G) variable() string {
	defer g.end(g.begin(spanWord))
	if w, ok := g.related(okVariable); ok {
		return w
	}
	return g.remember(g.variable1())
}

func (g *G) variable1() string {
	if w, ok := g.special(mat().vars, okVariable); ok {
		return w
	}
	switch g.n(6) {
	case 0, 1, 2:
		return varPool[g.n(len(varPool)-1)]
	case 3, 4:
		return g.word(lower, 8)
	default:
		if g.chance(1) {
			return g.pick([]string{"type", "range", "for", "map", "func", "let", "true", "false", "assert", "bvadd", "not", "go"})
		}
		return g.word(lower, 40)
	}
}

func (g *G) ident() string {
	defer g.end(g.begin(spanWord))
	if w, ok := g.related(okIdent); ok {
		return w
	}
	return g.remember(g.ident1())
}

func (g *G) ident1() string {
	if w, ok := g.special(mat().ids, okIdent); ok {
		return w
	}
	switch g.n(5) {
	case 0, 1, 2:
		return idPool[g.n(len(idPool)-1)]
	default:
		for {
			w := g.word("xyzabcABCXYZ_", 10)
			if !goKeywords[w] {
				return w
			}
		}
	}
}

func (g *G) callident() string {
	if w, ok := g.special(mat().fns, okFn); ok {
		return w
	}
	if g.chance(1) {
		return g.pick(fnPool)
	}
	for {
		w := g.word(lower, 8)
		if !goKeywords[w] {
			return w
		}
	}
}

func (g *G) opword() string {
	defer g.end(g.begin(spanWord))
	if w, ok := g.related(okOpword); ok {
		return w
	}
	return g.remember(g.opword1())
}

func (g *G) opword1() string {
	if w, ok := g.special(mat().ops, okOpword); ok {
		return w
	}
	if g.n(3) > 0 {
		return g.word("ABCxyzM0129_", 12)
	}
	return g.pick(opPool)
}

func (g *G) partword() string {
	defer g.end(g.begin(spanWord))
	if w, ok := g.related(okOpword); ok {
		return w
	}
	return g.remember(g.partword1())
}

func (g *G) partword1() string {
	if w, ok := g.special(mat().parts, okOpword); ok {
		return w
	}
	if g.chance(2) {
		return g.word("ABCxyzM0129_", 6)
	}
	return g.pick(partPool)
}

// op draws an operator; groups have n alternatives (any number if n is 0).
func (g *G) op(altk int, n int) []Part {
	defer g.end(g.begin(spanOp))
	if n == 1 || !g.chance(altk) {
		return []Part{{Lit: g.opword()}}
	}
	var parts []Part
	k := 1 + g.size(3, 6)
	needAlt := true
	lastLit := false
	for i := 0; i < k; i++ {
		if (lastLit || g.chance(1)) || (needAlt && i == k-1) {
			m := n
			if m == 0 {
				m = 2 + g.count(2, 20)
			}
			p := Part{Alts: []string{}}
			for j := 0; j < m; j++ {
				p.Alts = append(p.Alts, g.partword())
			}
			parts = append(parts, p)
			needAlt, lastLit = false, false
		} else {
			parts = append(parts, Part{Lit: g.partword()})
			lastLit = true
		}
	}
	return parts
}

// gxctx says which literals may appear in a Go expression.
type gxctx struct{ rawNL bool }

func (g *G) lit(c gxctx) *GX {
	defer g.end(g.begin(spanGX))
	if w, ok := g.special(nil, func(w string) bool { return len(w) < 100 }); ok {
		if litKind(w) == "INT" || litKind(w) == "FLOAT" {
			return &GX{K: "lit", S: w}
		}
		return &GX{K: "lit", S: strconv.Quote(w)}
	}
	var pool []string
	switch g.n(10) {
	case 8, 9:
		return &GX{K: "lit", S: g.anyLit(c)}
	case 0, 1, 2:
		pool = intLits
	case 3:
		pool = fltLits
	case 4:
		pool = miscLits
	case 5:
		pool = charLits
	case 6:
		pool = strLits
	default:
		pool = rawLits
		if c.rawNL && g.chance(1) {
			pool = rawNLLits
		}
	}
	return &GX{K: "lit", S: g.pick(pool)}
}

// anyLit draws a literal of random digits or characters.
func (g *G) anyLit(c gxctx) string {
	digits := func(set string, max int) string {
		b := []byte{set[g.n(len(set))]}
		for k := g.size(4, max); k > 0; k-- {
			if g.chance(4) {
				b = append(b, '_')
			}
			b = append(b, set[g.n(len(set))])
		}
		return string(b)
	}
	const dec, hex = "0123456789", "0123456789abcdefABCDEF"
	in := func(not string) func(rune) bool {
		return func(r rune) bool { return r != 0 && r != 0xfeff && !strings.ContainsRune(not, r) }
	}
	w := "0"
	switch g.n(8) {
	case 0:
		w = string("123456789"[g.n(9)]) + digits(dec, 60)
	case 1:
		w = g.pick([]string{"0x", "0X", "0x_"}) + digits(hex, 60)
	case 2:
		w = g.pick([]string{"0", "0o", "0O", "0_"}) + digits("01234567", 40)
	case 3:
		w = g.pick([]string{"0b", "0B"}) + digits("01", 80)
	case 4:
		w = digits(dec, 20) + "." + digits(dec, 20)
		if g.chance(1) {
			w += g.pick([]string{"e", "E", "e+", "E-"}) + digits(dec, 3)
		}
	case 5:
		w = "'" + g.noise(1, in("'\\\n")) + "'"
	case 6:
		not := "`\r\n"
		if c.rawNL {
			not = "`\r"
		}
		w = "`" + g.noise(12, in(not)) + "`"
	default:
		w = `"`
		for k := g.n(4); k >= 0; k-- {
			w += g.noise(6, in("\"\\\n"))
			if g.chance(1) {
				w += g.pick([]string{`\"`, `\\`, `\n`, `\x00`, `\u1234`, `\U0010ffff`, `\377`, `\r`, `\t`})
			}
		}
		w += `"`
	}
	if litKind(w) == "BAD" {
		return g.pick(intLits)
	}
	return w
}

func paren(x *GX) *GX { return &GX{K: "paren", X: []*GX{x}} }

// gx draws a Go expression tree that its own text denotes: parentheses are
// explicit nodes wherever the language requires them.
func (g *G) gx(depth int, c gxctx) *GX {
	defer g.end(g.begin(spanGX))
	if depth <= 0 {
		if g.chance(1) {
			return g.lit(c)
		}
		return &GX{K: "id", S: g.ident()}
	}
	switch g.n(9) {
	case 0:
		return &GX{K: "id", S: g.ident()}
	case 1:
		return g.lit(c)
	case 2, 3, 4:
		op := g.pick(binOps)
		l, r := g.gx(depth-1, c), g.gx(depth-1, c)
		if l.K == "bin" && binPrec[l.S] < binPrec[op] {
			l = paren(l)
		}
		if r.K == "bin" && binPrec[r.S] <= binPrec[op] {
			r = paren(r)
		}
		return &GX{K: "bin", S: op, X: []*GX{l, r}}
	case 5:
		x := g.gx(depth-1, c)
		if x.K == "bin" {
			x = paren(x)
		}
		if g.chance(2) {
			return &GX{K: "star", X: []*GX{x}}
		}
		return &GX{K: "un", S: g.pick(unOps), X: []*GX{x}}
	case 6:
		f := g.primary(g.gx(depth-1, c))
		if g.n(3) > 0 {
			f = &GX{K: "id", S: g.ident()}
		}
		call := &GX{K: "call", X: []*GX{f}}
		for k := g.size(3, 8); k > 0; k-- {
			call.X = append(call.X, g.gx(depth-1, c))
		}
		call.Ell = len(call.X) > 1 && g.chance(3)
		return call
	case 7:
		x := g.primary(g.gx(depth-1, c))
		return &GX{K: "sel", X: []*GX{x}, S: g.ident()}
	default:
		return paren(g.gx(depth-1, c))
	}
}

func (g *G) primary(x *GX) *GX {
	switch x.K {
	case "bin", "un", "star":
		return paren(x)
	}
	return x
}

// callval draws a call value as the rules language allows it: calls of plain
// names whose arguments are calls, variables and placeholders.
func (g *G) callval(depth int) *GX {
	defer g.end(g.begin(spanCall))
	call := &GX{K: "call", X: []*GX{{K: "id", S: g.callident()}}}
	for k := 1 + g.size(2, 8); k > 0; k-- {
		if depth > 0 && g.chance(2) {
			call.X = append(call.X, g.callval(depth-1))
		} else if g.chance(3) {
			call.X = append(call.X, &GX{K: "id", S: "_"})
		} else {
			call.X = append(call.X, &GX{K: "id", S: g.callident()})
		}
	}
	return call
}

// ruleopts shape generated rules.
type ruleopts struct {
	altk    int // about one operator in 2^altk has alternation groups
	nalt    int // size of groups; 0 for any
	featk   int // about one s-expression in 2^featk has each feature
	condk   int // about one rule in 2^condk has a condition / a block
	maxargs int
	depth   int
	rawNL   bool
	chain   int // how deep a chain of s-expressions may be, if more than usual
}

var fullopts = ruleopts{altk: 2, featk: 3, condk: 1, maxargs: 40, depth: 4, rawNL: true}

// deepopts are for checks that do no more than linear work.
var deepopts = func() ruleopts { o := fullopts; o.chain = 1500; return o }()

func (g *G) value(o ruleopts, depth int) *Val {
	defer g.end(g.begin(spanVal))
	k := g.n(8)
	if depth <= 0 && k >= 4 {
		k -= 4
	}
	switch {
	case k >= 4:
		v := &Val{S: g.sexpr(o, depth)}
		if len(v.S.Args) < 5 && depth <= 2 && len(g.vals) < 4 {
			g.vals = append(g.vals, v)
		}
		return v
	case k == 3:
		return &Val{E: g.callval(2)}
	case k == 2:
		return &Val{V: "_"}
	case len(g.vals) > 0 && g.chance(2):
		return g.vals[g.n(len(g.vals))].deepClone()
	default:
		return &Val{V: g.variable()}
	}
}

func (g *G) sexpr(o ruleopts, depth int) *SX {
	defer g.end(g.begin(spanVal))
	s := &SX{Op: g.op(o.altk, o.nalt)}
	if g.chance(o.featk) {
		s.Bind = g.variable()
	}
	if g.chance(o.featk) {
		s.Type = g.typ()
	}
	if g.chance(o.featk) {
		s.AuxInt = g.gx(g.size(2, 4), gxctx{rawNL: o.rawNL})
	}
	if g.chance(o.featk) {
		s.Aux = g.gx(g.size(2, 4), gxctx{rawNL: o.rawNL})
	}
	maxargs := o.maxargs
	if depth < o.depth-1 && maxargs > 8 {
		maxargs = 8
	}
	for k := g.count(3, maxargs); k > 0; k-- {
		s.Args = append(s.Args, g.value(o, depth-1))
	}
	s.Ell = g.chance(o.featk)
	s.Trail = g.chance(o.featk)
	return s
}

func (g *G) typ() string {
	defer g.end(g.begin(spanText))
	if w, ok := g.special(mat().types_, okType); ok {
		return w
	}
	if g.chance(2) {
		return g.word(lower+"*", 6)
	}
	if g.chance(2) {
		if w := g.noise(8, func(r rune) bool { return r != '<' && r != '>' }); w != "" {
			return w
		}
	}
	return g.pick(typePool)
}

func (g *G) block() string {
	defer g.end(g.begin(spanText))
	if w, ok := g.special(mat().blocks, okBlock); ok {
		return w
	}
	if g.chance(2) {
		return g.word(lower, 8)
	}
	if g.chance(2) {
		if w := g.noise(8, func(r rune) bool { return true }); okBlock(w) {
			return w
		}
	}
	return g.pick(blockPool)
}

func (g *G) rule(o ruleopts) *Rule {
	defer g.end(g.begin(spanRule))
	if o.featk <= 4 && o.nalt == 0 && g.chance(3) {
		return g.mimic(g.realRule(o))
	}
	g.vals = nil
	depth := g.n(o.depth + 1)
	r := &Rule{M: g.top(o, depth), R: g.top(o, depth)}
	if g.chance(o.condk) {
		r.Cond = g.gx(g.size(3, 5), gxctx{})
	}
	if g.chance(o.condk + 1) {
		r.Block = g.block()
	}
	if g.chance(6) {
		// A deep chain on one side.
		v := &Val{V: "x"}
		deep := g.n(60)
		if o.chain > 0 && g.chance(2) {
			deep = g.edge(o.chain)
		}
		for ; deep > 0; deep-- {
			v = &Val{S: &SX{Op: []Part{{Lit: g.opword()}}, Args: []*Val{v}}}
		}
		r.M = v
	}
	return g.mimic(r)
}

// top draws the match or result of a rule, mostly an s-expression.
func (g *G) top(o ruleopts, depth int) *Val {
	if depth > 0 && g.n(4) < 3 {
		return &Val{S: g.sexpr(o, depth)}
	}
	return g.value(o, depth)
}

func (g *G) rules(o ruleopts, max int) []*Rule {
	var rs []*Rule
	for k := 1 + g.count(2, max-1); k > 0; k-- {
		rs = append(rs, g.rule(o))
	}
	return g.echoes(rs)
}

// echoes puts rules among the others, at times, that are like one of them: the
// same, one of its alternatives, or with a part left out, exchanged or taken
// from another rule. They have no alternation groups of other sizes.
func (g *G) echoes(rs []*Rule) []*Rule {
	if len(rs) == 0 || g.n(5) < 4 {
		return rs
	}
	for k := 1 + g.n(3); k > 0; k-- {
		i := g.n(len(rs))
		r := rs[i]
		if alts, ok := r.alternatives(); ok && g.n(4) < 3 {
			switch g.n(3) {
			case 0:
				r = alts[0]
			case 1:
				r = alts[len(alts)-1]
			default:
				r = alts[g.n(len(alts))]
			}
		}
		r = r.deepClone()
		other := rs[g.n(len(rs))].deepClone()
		same := true
		if a, b := other.altCounts(), r.altCounts(); len(a) > 0 && len(b) > 0 && a[0] != b[0] {
			same = false
		}
		for m := g.size(1, 3); m > 0; m-- {
			var ss []*SX
			r.walkS(func(s *SX) { ss = append(ss, s) })
			var s *SX
			if len(ss) > 0 {
				s = ss[g.n(len(ss))]
			}
			switch what := g.n(12); {
			case what == 0:
				r.Cond = nil
			case what == 1:
				r.Block = ""
			case what == 10 && r.Cond != nil:
				r.Cond = g.gx(g.size(2, 4), gxctx{})
			case what == 11 && r.Block != "":
				r.Block = g.block()
			case what == 2:
				r.M, r.R = r.R, r.M
			case what == 3 && same:
				r.R = other.R
			case what == 4 && same:
				r.M = other.M
			case what == 5:
				r.Cond = other.Cond
			case what == 6:
				r.Block = other.Block
			case what == 7 && s != nil && len(s.Args) > 1:
				a, b := g.n(len(s.Args)), g.n(len(s.Args))
				s.Args[a], s.Args[b] = s.Args[b], s.Args[a]
			case what == 8 && s != nil:
				s.Bind, s.Type, s.Aux, s.AuxInt = "", "", nil, nil
			case what == 9 && s != nil && len(s.Args) > 0:
				s.Args = s.Args[:len(s.Args)-1]
			}
		}
		if _, ok := r.alternatives(); !ok {
			if _, ok := rs[i].alternatives(); ok || !rs[i].simple() && r.simple() {
				continue
			}
		}
		at := g.n(len(rs) + 1)
		if g.n(3) < 2 {
			at = i + g.n(2)
		}
		rs = append(rs, nil)
		copy(rs[at+1:], rs[at:])
		rs[at] = r
	}
	return rs
}

// consistent makes all alternation groups of the rule n alternatives long.
func (g *G) consistentRule(o ruleopts) *Rule {
	if o.featk <= 4 && g.chance(3) {
		r := g.mimic(g.realRule(o))
		if _, ok := r.alternatives(); ok {
			return r
		}
	}
	o.nalt = 2 + g.count(2, 12)
	if g.chance(2) {
		o.nalt = 1
	}
	return g.rule(o)
}
