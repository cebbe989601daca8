package main

// An SMT-LIB reader, sort checker and evaluator for the fragment that scripts
// about fixed-width bit vectors use, written from the SMT-LIB 2.6 standard.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

type sx struct {
	atom string
	list []*sx
	kind byte // '(' list, 'a' symbol, '|' quoted symbol, 'k' keyword, 'n' numeral, 'd' decimal, '#' constant, '"' string
}

func (s *sx) String() string {
	if s.kind != '(' {
		return s.atom
	}
	var p []string
	for _, x := range s.list {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func (s *sx) is(atom string) bool { return s.kind == 'a' && s.atom == atom }

// head is the symbol a list starts with.
func (s *sx) head() string {
	if s.kind == '(' && len(s.list) > 0 && s.list[0].kind == 'a' {
		return s.list[0].atom
	}
	return ""
}

const smtSymbolChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789~!@$%^&*_-+=<>.?/"

type unsupportedErr struct{ msg string }

func (e unsupportedErr) Error() string { return e.msg }

// readSMT splits a script into commands and the text of its comments.
func readSMT(src string) (cmds []*sx, comments []string, err error) {
	var stack []*sx
	i := 0
	put := func(s *sx) error {
		if len(stack) > 0 {
			t := stack[len(stack)-1]
			t.list = append(t.list, s)
			return nil
		}
		if s.kind != '(' {
			return fmt.Errorf("%q outside of a command", s.atom)
		}
		cmds = append(cmds, s)
		return nil
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == ';':
			j := strings.IndexAny(src[i:], "\n\r")
			if j < 0 {
				j = len(src) - i
			}
			comments = append(comments, src[i+1:i+j])
			i += j
		case c == '(':
			stack = append(stack, &sx{kind: '('})
			i++
		case c == ')':
			if len(stack) == 0 {
				return nil, nil, fmt.Errorf("unbalanced ) at %d", i)
			}
			s := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if err := put(s); err != nil {
				return nil, nil, err
			}
			i++
		case c == '|':
			j := strings.IndexByte(src[i+1:], '|')
			if j < 0 || strings.Contains(src[i+1:i+1+j], "\\") {
				return nil, nil, fmt.Errorf("bad quoted symbol at %d", i)
			}
			if err := put(&sx{kind: '|', atom: src[i+1 : i+1+j]}); err != nil {
				return nil, nil, err
			}
			i += j + 2
		case c == '"':
			j := i + 1
			for {
				if j >= len(src) {
					return nil, nil, fmt.Errorf("unterminated string at %d", i)
				}
				if src[j] == '"' {
					if j+1 < len(src) && src[j+1] == '"' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if err := put(&sx{kind: '"', atom: src[i : j+1]}); err != nil {
				return nil, nil, err
			}
			i = j + 1
		default:
			j := i
			if c == ':' || c == '#' {
				j++
			}
			for j < len(src) && strings.IndexByte(smtSymbolChars, src[j]) >= 0 {
				j++
			}
			tok := src[i:j]
			if j == i || tok == ":" || tok == "#" {
				return nil, nil, fmt.Errorf("bad character %q at %d", c, i)
			}
			kind := byte('a')
			switch {
			case c == ':':
				kind = 'k'
			case c == '#':
				kind = '#'
				if len(tok) < 3 || tok[1] != 'b' && tok[1] != 'x' {
					return nil, nil, fmt.Errorf("bad constant %s", tok)
				}
				for _, d := range tok[2:] {
					if tok[1] == 'b' && d != '0' && d != '1' || tok[1] == 'x' && !strings.ContainsRune("0123456789abcdefABCDEF", d) {
						return nil, nil, fmt.Errorf("bad constant %s", tok)
					}
				}
			case '0' <= c && c <= '9':
				kind = 'n'
				dots := 0
				for k, d := range tok {
					if d == '.' && k > 0 && k < len(tok)-1 {
						dots++
						kind = 'd'
					} else if d < '0' || d > '9' {
						return nil, nil, fmt.Errorf("bad numeral %s", tok)
					}
				}
				if dots > 1 || len(tok) > 1 && tok[0] == '0' && dots == 0 {
					return nil, nil, fmt.Errorf("bad numeral %s", tok)
				}
			}
			if err := put(&sx{kind: kind, atom: tok}); err != nil {
				return nil, nil, err
			}
			i = j
		}
	}
	if len(stack) > 0 {
		return nil, nil, fmt.Errorf("unbalanced (")
	}
	return cmds, comments, nil
}

var smtReserved = map[string]bool{}
var smtTheory = map[string]bool{}

func init() {
	for _, w := range strings.Fields("BINARY DECIMAL HEXADECIMAL NUMERAL STRING _ ! as let exists forall match par assert check-sat check-sat-assuming declare-const declare-datatype declare-datatypes declare-fun declare-sort define-fun define-fun-rec define-funs-rec define-sort echo exit get-assertions get-assignment get-info get-model get-option get-proof get-unsat-assumptions get-unsat-core get-value pop push reset reset-assertions set-info set-logic set-option") {
		smtReserved[w] = true
	}
	for _, w := range strings.Fields("true false not => and or xor = distinct ite concat extract bvnot bvand bvor bvneg bvadd bvmul bvudiv bvurem bvshl bvlshr bvult bvnand bvnor bvxor bvxnor bvcomp bvsub bvsdiv bvsrem bvsmod bvashr repeat zero_extend sign_extend rotate_left rotate_right bvule bvugt bvuge bvslt bvsle bvsgt bvsge Bool BitVec") {
		smtTheory[w] = true
	}
}

// smtValue is a Bool (w = 0) or a bit vector of w bits.
type smtValue struct {
	w int
	v uint64
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func smtBool(b bool) smtValue {
	if b {
		return smtValue{0, 1}
	}
	return smtValue{0, 0}
}

// term is a compiled, well-sorted term over the declared constants.
type term struct {
	op   string
	w    int    // sort: 0 for Bool
	k    int    // constant index, for op "const"
	v    uint64 // literal value
	args []*term
}

type smtConst struct {
	name string
	w    int
}

// script is a checked SMT-LIB script.
type script struct {
	consts   []smtConst
	asserts  []*term
	comments []string
	checks   int
}

type binding struct {
	t *term
	k int // constant, if t is nil
}

// checkSMT reads and checks a script strictly.
func checkSMT(src string) (*script, error) {
	cmds, comments, err := readSMT(src)
	if err != nil {
		return nil, err
	}
	s := &script{comments: comments}
	scope := map[string]binding{}
	logic, exited := false, false
	name := func(x *sx) (string, error) {
		switch {
		case x.kind != 'a' && x.kind != '|':
			return "", fmt.Errorf("%s is not a symbol", x)
		case x.kind == 'a' && smtReserved[x.atom]:
			return "", fmt.Errorf("%s is a reserved word", x)
		case smtTheory[x.atom]:
			return "", fmt.Errorf("%s is a symbol of the theory", x)
		case strings.HasPrefix(x.atom, "@") || strings.HasPrefix(x.atom, "."):
			return "", fmt.Errorf("%s is reserved for solvers", x)
		case x.kind == 'a' && strings.HasPrefix(x.atom, "bv") && allDigits(x.atom[2:]):
			// (_ bv1 8) is how literals look; legal, but keep apart.
			return "", fmt.Errorf("%s looks like a literal", x)
		}
		if _, ok := scope[x.atom]; ok {
			return "", fmt.Errorf("%s is declared twice", x)
		}
		return x.atom, nil
	}
	for i, c := range cmds {
		if exited {
			return nil, fmt.Errorf("command %s after exit", c)
		}
		h := c.head()
		switch h {
		case "set-info", "set-option":
			if len(c.list) < 2 || c.list[1].kind != 'k' {
				return nil, fmt.Errorf("bad %s", c)
			}
			if c.list[1].atom == ":smt-lib-version" && i != 0 {
				return nil, fmt.Errorf("%s is not the first command", c)
			}
			if c.list[1].atom == ":smt-lib-version" && (len(c.list) != 3 || c.list[2].atom != "2.6") {
				return nil, fmt.Errorf("%s", c)
			}
			if h == "set-option" {
				return nil, unsupportedErr{"set-option"}
			}
		case "set-logic":
			if logic || len(c.list) != 2 || !c.list[1].is("QF_BV") {
				return nil, fmt.Errorf("bad %s", c)
			}
			logic = true
		case "declare-const", "declare-fun":
			if !logic {
				return nil, fmt.Errorf("%s before set-logic", c)
			}
			n := 3
			if h == "declare-fun" {
				n = 4
			}
			if len(c.list) != n {
				return nil, fmt.Errorf("bad %s", c)
			}
			if h == "declare-fun" && (c.list[2].kind != '(' || len(c.list[2].list) > 0) {
				return nil, fmt.Errorf("%s is not in QF_BV", c)
			}
			nm, err := name(c.list[1])
			if err != nil {
				return nil, err
			}
			w, err := sortOf(c.list[n-1])
			if err != nil {
				return nil, err
			}
			scope[nm] = binding{nil, len(s.consts)}
			s.consts = append(s.consts, smtConst{nm, w})
		case "define-fun", "define-const":
			if !logic {
				return nil, fmt.Errorf("%s before set-logic", c)
			}
			if h == "define-const" || len(c.list) != 5 || len(c.list[2].list) > 0 {
				return nil, unsupportedErr{c.String()}
			}
			nm, err := name(c.list[1])
			if err != nil {
				return nil, err
			}
			w, err := sortOf(c.list[3])
			if err != nil {
				return nil, err
			}
			t, err := s.compile(c.list[4], scope)
			if err != nil {
				return nil, err
			}
			if t.w != w {
				return nil, fmt.Errorf("%s: wrong sort", c)
			}
			scope[nm] = binding{t, 0}
		case "assert":
			if !logic || len(c.list) != 2 {
				return nil, fmt.Errorf("bad %s", c)
			}
			if s.checks > 0 {
				return nil, fmt.Errorf("assert after check-sat")
			}
			t, err := s.compile(c.list[1], scope)
			if err != nil {
				return nil, err
			}
			if t.w != 0 {
				return nil, fmt.Errorf("%s: not of sort Bool", c)
			}
			s.asserts = append(s.asserts, t)
		case "check-sat":
			if !logic || len(c.list) != 1 {
				return nil, fmt.Errorf("bad %s", c)
			}
			s.checks++
		case "exit":
			if len(c.list) != 1 {
				return nil, fmt.Errorf("bad %s", c)
			}
			exited = true
		case "get-model", "get-info", "echo", "push", "pop", "reset", "get-value":
			return nil, unsupportedErr{c.String()}
		default:
			return nil, fmt.Errorf("unknown command %s", c)
		}
	}
	switch {
	case !logic:
		return nil, fmt.Errorf("no set-logic")
	case len(s.asserts) != 1:
		return nil, fmt.Errorf("%d assertions", len(s.asserts))
	case s.checks != 1:
		return nil, fmt.Errorf("%d check-sat commands", s.checks)
	case !exited:
		return nil, fmt.Errorf("no exit")
	}
	return s, nil
}

func allDigits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

func sortOf(x *sx) (int, error) {
	if x.is("Bool") {
		return 0, nil
	}
	if x.kind == '(' && len(x.list) == 3 && x.list[0].is("_") && x.list[1].is("BitVec") && x.list[2].kind == 'n' {
		n, err := strconv.Atoi(x.list[2].atom)
		if err == nil && n > 64 {
			return 0, unsupportedErr{x.String()}
		}
		if err == nil && n > 0 {
			return n, nil
		}
	}
	return 0, fmt.Errorf("bad sort %s", x)
}

// compile checks the sorts of a term.
func (s *script) compile(x *sx, scope map[string]binding) (*term, error) {
	switch x.kind {
	case 'a', '|':
		if b, ok := scope[x.atom]; ok {
			if b.t != nil {
				return b.t, nil
			}
			return &term{op: "const", w: s.consts[b.k].w, k: b.k}, nil
		}
		if x.is("true") {
			return &term{op: "lit", v: 1}, nil
		}
		if x.is("false") {
			return &term{op: "lit"}, nil
		}
		return nil, fmt.Errorf("%s is not declared", x)
	case '#':
		base, w := 2, len(x.atom)-2
		if x.atom[1] == 'x' {
			base, w = 16, 4*w
		}
		if w > 64 {
			return nil, unsupportedErr{x.atom}
		}
		v, err := strconv.ParseUint(x.atom[2:], base, 64)
		if err != nil {
			return nil, err
		}
		return &term{op: "lit", w: w, v: v}, nil
	case '(':
	default:
		return nil, fmt.Errorf("%s has no sort in QF_BV", x)
	}
	if len(x.list) == 0 {
		return nil, fmt.Errorf("empty term")
	}
	if x.list[0].is("_") {
		// (_ bvN w)
		if len(x.list) == 3 && x.list[1].kind == 'a' && strings.HasPrefix(x.list[1].atom, "bv") && allDigits(x.list[1].atom[2:]) && x.list[2].kind == 'n' {
			w, err := sortOf(&sx{kind: '(', list: []*sx{x.list[0], {kind: 'a', atom: "BitVec"}, x.list[2]}})
			if err != nil {
				return nil, err
			}
			v, err := strconv.ParseUint(x.list[1].atom[2:], 10, 64)
			if err != nil || v&^mask(w) != 0 {
				return nil, fmt.Errorf("bad literal %s", x)
			}
			return &term{op: "lit", w: w, v: v}, nil
		}
		return nil, fmt.Errorf("bad term %s", x)
	}
	h := x.head()
	if h == "let" {
		if len(x.list) != 3 || x.list[1].kind != '(' || len(x.list[1].list) == 0 {
			return nil, fmt.Errorf("bad %s", x)
		}
		inner := map[string]binding{}
		for k, v := range scope {
			inner[k] = v
		}
		for _, b := range x.list[1].list {
			if b.kind != '(' || len(b.list) != 2 || b.list[0].kind != 'a' && b.list[0].kind != '|' || smtReserved[b.list[0].atom] || smtTheory[b.list[0].atom] {
				return nil, fmt.Errorf("bad %s", x)
			}
			t, err := s.compile(b.list[1], scope)
			if err != nil {
				return nil, err
			}
			inner[b.list[0].atom] = binding{t, 0}
		}
		return s.compile(x.list[2], inner)
	}
	if h == "!" || h == "forall" || h == "exists" || h == "match" || h == "as" {
		return nil, unsupportedErr{x.String()}
	}
	if h == "" {
		return nil, unsupportedErr{"indexed operator " + x.list[0].String()}
	}
	var args []*term
	for _, a := range x.list[1:] {
		t, err := s.compile(a, scope)
		if err != nil {
			return nil, err
		}
		args = append(args, t)
	}
	bad := fmt.Errorf("%s: wrong number or sorts of arguments", x)
	same := func() bool {
		for _, a := range args {
			if a.w != args[0].w {
				return false
			}
		}
		return true
	}
	n := len(args)
	switch h {
	case "not":
		if n != 1 || args[0].w != 0 {
			return nil, bad
		}
		return &term{op: h, args: args}, nil
	case "and", "or", "xor", "=>":
		if n < 2 || !same() || args[0].w != 0 {
			return nil, bad
		}
		return &term{op: h, args: args}, nil
	case "=", "distinct":
		if n < 2 || !same() {
			return nil, bad
		}
		return &term{op: h, args: args}, nil
	case "ite":
		if n != 3 || args[0].w != 0 || args[1].w != args[2].w {
			return nil, bad
		}
		return &term{op: h, w: args[1].w, args: args}, nil
	case "bvnot", "bvneg":
		if n != 1 || args[0].w == 0 {
			return nil, bad
		}
		return &term{op: h, w: args[0].w, args: args}, nil
	case "bvand", "bvor", "bvxor", "bvadd", "bvmul":
		if n < 2 || !same() || args[0].w == 0 {
			return nil, bad
		}
		return &term{op: h, w: args[0].w, args: args}, nil
	case "bvsub", "bvnand", "bvnor", "bvxnor", "bvshl", "bvlshr", "bvashr":
		if n != 2 || !same() || args[0].w == 0 {
			return nil, bad
		}
		return &term{op: h, w: args[0].w, args: args}, nil
	case "bvult", "bvule", "bvugt", "bvuge":
		if n != 2 || !same() || args[0].w == 0 {
			return nil, bad
		}
		return &term{op: h, args: args}, nil
	}
	if smtTheory[h] {
		return nil, unsupportedErr{h}
	}
	return nil, fmt.Errorf("unknown function %s", h)
}

func (t *term) eval(env []uint64) uint64 {
	switch t.op {
	case "const":
		return env[t.k]
	case "lit":
		return t.v
	}
	m := mask(t.w)
	if t.w == 0 {
		m = 1
	}
	a := t.args[0].eval(env)
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case "not":
		return 1 - a
	case "bvnot":
		return ^a & m
	case "bvneg":
		return -a & m
	case "ite":
		if a == 1 {
			return t.args[1].eval(env)
		}
		return t.args[2].eval(env)
	case "distinct":
		vs := []uint64{a}
		for _, x := range t.args[1:] {
			v := x.eval(env)
			for _, y := range vs {
				if v == y {
					return 0
				}
			}
			vs = append(vs, v)
		}
		return 1
	case "=>":
		// Right associative.
		r := t.args[len(t.args)-1].eval(env)
		for i := len(t.args) - 2; i >= 0; i-- {
			r = b2u(t.args[i].eval(env) == 0 || r == 1)
		}
		return r
	case "=":
		for _, x := range t.args[1:] {
			if x.eval(env) != a {
				return 0
			}
		}
		return 1
	}
	for _, x := range t.args[1:] {
		b := x.eval(env)
		w := uint64(t.args[0].w)
		switch t.op {
		case "and", "bvand":
			a &= b
		case "or", "bvor":
			a |= b
		case "xor", "bvxor":
			a ^= b
		case "bvadd":
			a = (a + b) & m
		case "bvmul":
			a = (a * b) & m
		case "bvsub":
			a = (a - b) & m
		case "bvnand":
			a = ^(a & b) & m
		case "bvnor":
			a = ^(a | b) & m
		case "bvxnor":
			a = ^(a ^ b) & m
		case "bvshl":
			if b >= w {
				a = 0
			} else {
				a = a << b & m
			}
		case "bvlshr":
			if b >= w {
				a = 0
			} else {
				a >>= b
			}
		case "bvashr":
			s := int64(a<<(64-w)) >> (64 - w)
			if b >= w {
				b = 63
			}
			a = uint64(s>>b) & m
		case "bvult":
			a = b2u(a < b)
		case "bvule":
			a = b2u(a <= b)
		case "bvugt":
			a = b2u(a > b)
		case "bvuge":
			a = b2u(a >= b)
		default:
			panic("no evaluation for " + t.op)
		}
	}
	return a
}

// ---- the compiler's opcodes

type opcode struct {
	name  string
	w     int // operand and result width, 0 for Bool
	arity int
	eval  func(a, b uint64) uint64 // results are masked by the caller
}

var smtOps = map[string]*opcode{}
var smtOpsByWidth = map[int][]*opcode{}

func init() {
	add := func(name string, w, arity int, f func(a, b uint64) uint64) {
		o := &opcode{name, w, arity, f}
		smtOps[name] = o
		smtOpsByWidth[w] = append(smtOpsByWidth[w], o)
	}
	for _, w := range []int{8, 16, 32, 64} {
		s := strconv.Itoa(w)
		add("Add"+s, w, 2, func(a, b uint64) uint64 {
			sum, _ := bits.Add64(a, b, 0)
			return sum
		})
		add("Sub"+s, w, 2, func(a, b uint64) uint64 {
			d, _ := bits.Sub64(a, b, 0)
			return d
		})
		add("And"+s, w, 2, func(a, b uint64) uint64 { return a & b })
		add("Or"+s, w, 2, func(a, b uint64) uint64 { return a | b })
		add("Xor"+s, w, 2, func(a, b uint64) uint64 { return a ^ b })
		add("Neg"+s, w, 1, func(a, b uint64) uint64 { return -a })
		add("Com"+s, w, 1, func(a, b uint64) uint64 { return ^a })
	}
	add("AndB", 0, 2, func(a, b uint64) uint64 { return a & b })
	add("OrB", 0, 2, func(a, b uint64) uint64 { return a | b })
	add("EqB", 0, 2, func(a, b uint64) uint64 { return ^(a ^ b) })
	add("NeqB", 0, 2, func(a, b uint64) uint64 { return a ^ b })
	add("Not", 0, 1, func(a, b uint64) uint64 { return ^a })
}

// symbol is a value a rule takes: a variable or one placeholder.
type slot struct {
	name string // "_" for a placeholder
	w    int
}

// ruleTerm is a rule side compiled to slots.
type ruleTerm struct {
	op   *opcode
	slot int
	args []*ruleTerm
}

func (t *ruleTerm) eval(env []uint64) uint64 {
	if t.op == nil {
		return env[t.slot]
	}
	a := t.args[0].eval(env)
	var b uint64
	if len(t.args) > 1 {
		b = t.args[1].eval(env)
	}
	m := mask(t.op.w)
	if t.op.w == 0 {
		m = 1
	}
	return t.op.eval(a, b) & m
}

// compileRule is the specification of which rules can be translated. It
// returns the two sides over common slots, or why the rule is refused.
func compileRule(r *Rule) (m, res *ruleTerm, slots []slot, err error) {
	if r.Cond != nil {
		return nil, nil, nil, fmt.Errorf("condition")
	}
	if r.Block != "" {
		return nil, nil, nil, fmt.Errorf("block")
	}
	if r.M.S == nil {
		return nil, nil, nil, fmt.Errorf("type of match")
	}
	index := map[string]int{}
	var comp func(v *Val, w int) (*ruleTerm, error)
	comp = func(v *Val, w int) (*ruleTerm, error) {
		switch {
		case v.E != nil:
			return nil, fmt.Errorf("call value")
		case v.S == nil:
			k, ok := index[v.V]
			if !ok || v.V == "_" {
				k = len(slots)
				slots = append(slots, slot{v.V, w})
				if v.V != "_" {
					index[v.V] = k
				}
			}
			if slots[k].w != w {
				return nil, fmt.Errorf("width of %s", v.V)
			}
			return &ruleTerm{slot: k}, nil
		}
		s := v.S
		if s.Bind != "" || s.Type != "" || s.AuxInt != nil || s.Aux != nil || s.Ell || s.Trail {
			return nil, fmt.Errorf("feature")
		}
		if len(s.Op) != 1 || s.Op[0].Alts != nil {
			return nil, fmt.Errorf("unexpanded operator")
		}
		o := smtOps[s.Op[0].Lit]
		if o == nil {
			return nil, fmt.Errorf("unknown opcode")
		}
		if len(s.Args) != o.arity {
			return nil, fmt.Errorf("number of arguments")
		}
		if w >= 0 && o.w != w {
			return nil, fmt.Errorf("width")
		}
		t := &ruleTerm{op: o}
		for _, a := range s.Args {
			x, err := comp(a, o.w)
			if err != nil {
				return nil, err
			}
			t.args = append(t.args, x)
		}
		return t, nil
	}
	if m, err = comp(r.M, -1); err != nil {
		return nil, nil, nil, err
	}
	if res, err = comp(r.R, m.op.w); err != nil {
		return nil, nil, nil, err
	}
	return m, res, slots, nil
}

// encode writes a rule side as an SMT-LIB term in another way than the code
// under test does: fewer primitives, own names.
func (t *ruleTerm) encode(b *strings.Builder) {
	if t.op == nil {
		fmt.Fprintf(b, "v%d", t.slot)
		return
	}
	var a []string
	for _, x := range t.args {
		var s strings.Builder
		x.encode(&s)
		a = append(a, s.String())
	}
	family := strings.TrimRight(t.op.name, "0123456789")
	switch family {
	case "Add":
		fmt.Fprintf(b, "(bvsub %s (bvneg %s))", a[0], a[1])
	case "Sub":
		fmt.Fprintf(b, "(bvadd %s (bvneg %s))", a[0], a[1])
	case "And":
		fmt.Fprintf(b, "(bvnot (bvor (bvnot %s) (bvnot %s)))", a[0], a[1])
	case "Or":
		fmt.Fprintf(b, "(bvnot (bvand (bvnot %s) (bvnot %s)))", a[0], a[1])
	case "Xor":
		fmt.Fprintf(b, "(bvor (bvand %s (bvnot %s)) (bvand (bvnot %s) %s))", a[0], a[1], a[0], a[1])
	case "Neg":
		fmt.Fprintf(b, "(bvadd (bvnot %s) (_ bv1 %d))", a[0], t.op.w)
	case "Com":
		fmt.Fprintf(b, "(bvsub (bvneg %s) (_ bv1 %d))", a[0], t.op.w)
	case "AndB":
		fmt.Fprintf(b, "(ite %s %s false)", a[0], a[1])
	case "OrB":
		fmt.Fprintf(b, "(ite %s true %s)", a[0], a[1])
	case "EqB":
		fmt.Fprintf(b, "(not (xor %s %s))", a[0], a[1])
	case "NeqB":
		fmt.Fprintf(b, "(xor %s %s)", a[0], a[1])
	case "Not":
		fmt.Fprintf(b, "(ite %s false true)", a[0])
	default:
		panic("no encoding of " + t.op.name)
	}
}

// encodeRule is a reference script for the rule.
func encodeRule(m, r *ruleTerm, slots []slot) string {
	var b strings.Builder
	b.WriteString("(set-logic QF_BV)\n")
	for i, s := range slots {
		sort := "Bool"
		if s.w > 0 {
			sort = fmt.Sprintf("(_ BitVec %d)", s.w)
		}
		fmt.Fprintf(&b, "(declare-const v%d %s)\n", i, sort)
	}
	b.WriteString("(assert (distinct ")
	m.encode(&b)
	b.WriteString(" ")
	r.encode(&b)
	b.WriteString("))\n(check-sat)\n")
	return b.String()
}
