package main

// C12-C14: the SMT translation.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"time"

	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/smt2"
)

// smtNames are rule variables that mean something in SMT-LIB.
var smtNames = strings.Fields("let par as match forall exists assert exit echo pop push reset true false not and or xor distinct ite concat extract repeat bvadd bvsub bvand bvor bvxor bvneg bvnot bvmul bv1 bv0 zero_extend x0 x1 a_0 model sat unsat unknown define const bool int2bv bv2nat b x_1 v0 lambda seq select store is declare")

type smtGen struct {
	g     *G
	w     int
	vars  []string
	ph    int // about one leaf in 2^ph is a placeholder; 0 for none
	depth int
}

func (s *smtGen) leaf() *Val {
	if s.ph > 0 && s.g.chance(s.ph) {
		return &Val{V: "_"}
	}
	return &Val{V: s.g.pick(s.vars)}
}

func (s *smtGen) op(o *opcode, args ...*Val) *Val {
	return &Val{S: &SX{Op: []Part{{Lit: o.name}}, Args: args}}
}

func (s *smtGen) term(depth int) *Val {
	if depth <= 0 || s.g.chance(3) {
		return s.leaf()
	}
	ops := smtOpsByWidth[s.w]
	o := ops[s.g.n(len(ops))]
	var args []*Val
	for k := 0; k < o.arity; k++ {
		args = append(args, s.term(depth-1))
	}
	return s.op(o, args...)
}

func (s *smtGen) named(name string) *opcode {
	if s.w == 0 {
		switch name {
		case "Com":
			return smtOps["Not"]
		case "Xor":
			return smtOps["NeqB"]
		}
		return smtOps[name+"B"]
	}
	return smtOps[fmt.Sprintf("%s%d", name, s.w)]
}

// rewrite returns a term of equal meaning, as long as there are no placeholders.
func (s *smtGen) rewrite(v *Val, times int) *Val {
	v = v.clone()
	for ; times > 0; times-- {
		var all []*Val
		var rec func(v *Val)
		rec = func(v *Val) {
			all = append(all, v)
			if v.S != nil {
				for _, a := range v.S.Args {
					rec(a)
				}
			}
		}
		rec(v)
		t := all[s.g.n(len(all))]
		name := ""
		if t.S != nil {
			name = strings.TrimRight(t.S.Op[0].Lit, "0123456789B")
		}
		arg := func(i int) *Val { return t.S.Args[i].clone() }
		com := func(v *Val) *Val { return s.op(s.named("Com"), v) }
		switch {
		case (name == "Add" || name == "And" || name == "Or" || name == "Xor" || name == "Eq" || name == "Neq") && s.g.chance(1):
			*t = *s.op(smtOps[t.S.Op[0].Lit], arg(1), arg(0))
		case name == "Sub":
			*t = *s.op(s.named("Add"), arg(0), s.op(s.named("Neg"), arg(1)))
		case name == "And":
			*t = *com(s.op(s.named("Or"), com(arg(0)), com(arg(1))))
		case name == "Or":
			*t = *com(s.op(s.named("And"), com(arg(0)), com(arg(1))))
		case name == "Xor" || name == "Neq":
			*t = *s.op(s.named("Or"), s.op(s.named("And"), arg(0), com(arg(1))), s.op(s.named("And"), com(arg(0)), arg(1)))
		case name == "Eq":
			*t = *com(s.op(smtOps["NeqB"], arg(0), arg(1)))
		case name == "Add" && t.S.Args[1].S != nil && strings.HasPrefix(t.S.Args[1].S.Op[0].Lit, "Add"):
			y := t.S.Args[1].S
			*t = *s.op(s.named("Add"), s.op(s.named("Add"), arg(0), y.Args[0].clone()), y.Args[1].clone())
		case name == "Neg":
			x := arg(0)
			if s.g.chance(1) {
				*t = *s.op(s.named("Sub"), s.op(s.named("Xor"), x, x.clone()), x.clone())
			} else {
				*t = *s.op(s.named("Sub"), s.op(s.named("Sub"), x, x.clone()), x.clone())
			}
		default:
			x := t.clone()
			switch s.g.n(4) {
			case 0:
				*t = *com(com(x))
			case 1:
				*t = *s.op(s.named("And"), x, x.clone())
			case 2:
				*t = *s.op(s.named("Or"), x, x.clone())
			default:
				if s.w == 0 {
					*t = *s.op(smtOps["EqB"], x, s.op(smtOps["EqB"], x.clone(), x.clone()))
				} else {
					*t = *s.op(s.named("Neg"), s.op(s.named("Neg"), x))
				}
			}
		}
	}
	return v
}

// tweak changes one operator, variable or order of arguments.
func (s *smtGen) tweak(v *Val) {
	var all []*Val
	var rec func(v *Val)
	rec = func(v *Val) {
		all = append(all, v)
		if v.S != nil {
			for _, a := range v.S.Args {
				rec(a)
			}
		}
	}
	rec(v)
	t := all[s.g.n(len(all))]
	switch {
	case t.S == nil:
		*t = *s.leaf()
	case len(t.S.Args) == 2 && s.g.chance(1):
		t.S.Args[0], t.S.Args[1] = t.S.Args[1], t.S.Args[0]
	default:
		ops := smtOpsByWidth[s.w]
		for i := 0; i < 5; i++ {
			o := ops[s.g.n(len(ops))]
			if o.arity == len(t.S.Args) && o.name != t.S.Op[0].Lit {
				t.S.Op = []Part{{Lit: o.name}}
				return
			}
		}
	}
}

// smtRule draws a rule that can be translated.
func (g *G) smtRule(depth, nvars int) *Rule {
	s := &smtGen{g: g, w: []int{8, 0, 16, 32, 64}[g.n(5)], ph: []int{0, 0, 2, 4}[g.n(4)]}
	pool := [][]string{{"x", "y", "z", "a", "b", "c", "d", "p", "q", "r"}, smtNames}[g.n(2)]
	seen := map[string]bool{}
	for k := 1 + g.n(nvars); k > 0; k-- {
		v := g.pick(pool)
		if g.chance(3) {
			v = g.variable()
		}
		if !seen[v] {
			seen[v] = true
			s.vars = append(s.vars, v)
		}
	}
	ops := smtOpsByWidth[s.w]
	o := ops[g.n(len(ops))]
	var args []*Val
	for k := 0; k < o.arity; k++ {
		args = append(args, s.term(g.n(depth)))
	}
	m := s.op(o, args...)
	r := &Rule{M: m}
	switch g.n(5) {
	case 0:
		r.R = s.term(g.n(depth + 1))
	case 1, 2:
		r.R = s.rewrite(m, 1+g.n(4))
	case 3:
		r.R = s.rewrite(m, g.n(4))
		s.tweak(r.R)
	default:
		r.M = s.rewrite(m, 1+g.n(3))
		r.R = m
		if r.M.S == nil {
			r.M, r.R = r.R, r.M
		}
	}
	if r.M.S == nil {
		r.M = m
	}
	if g.chance(3) {
		// A variable on the right only.
		s.vars = append(s.vars, g.variable())
		r.R = s.op(s.named("And"), r.R, &Val{V: s.vars[len(s.vars)-1]})
	}
	return r
}

// run starts a solver on a script. out is its output, timeout if it took long.
func runSolver(src string, argv ...string) (out string, code int, timeout bool, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(src)
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	err = cmd.Run()
	if ctx.Err() != nil {
		return b.String(), -1, true, nil
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		return b.String(), ee.ExitCode(), false, nil
	}
	return b.String(), 0, false, err
}

func z3(src string) (string, int, bool, error) {
	return runSolver(src, "z3", "-in", "-smt2", "-T:20")
}

func cvc5(src string) (string, int, bool, error) {
	return runSolver(src, "cvc5", "--lang=smt2", "--strict-parsing", "--tlimit=20000", "-")
}

// matchConsts finds which declared constant stands for which slot of the
// rule. Candidates are tried until one makes the formula agree with the rule
// on all the given assignments.
func matchConsts(sc *script, slots []slot, differ func(env []uint64) bool, envs [][]uint64) (perm []int, ok bool, first string) {
	n := len(slots)
	test := func(perm []int) (bool, string) {
		env := make([]uint64, n)
		for _, e := range envs {
			for i, k := range perm {
				env[k] = e[i]
			}
			if (sc.asserts[0].eval(env) == 1) != differ(e) {
				var b strings.Builder
				for i, s := range slots {
					fmt.Fprintf(&b, " %s=%#x", s.name, e[i])
				}
				return false, fmt.Sprintf("at%s the sides differ: %v, the formula is %v", b.String(), differ(e), sc.asserts[0].eval(env) == 1)
			}
		}
		return true, ""
	}
	// By order of declaration, which is that of first use.
	perm = make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	ok, first = test(perm)
	if ok {
		return perm, true, ""
	}
	// By order of use in the formula.
	used := make([]bool, n)
	k := 0
	var walk func(t *term)
	walk = func(t *term) {
		if t.op == "const" && !used[t.k] {
			used[t.k] = true
			perm[k] = t.k
			k++
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(sc.asserts[0])
	if k == n {
		if ok, _ := test(perm); ok {
			return perm, true, ""
		}
	}
	// By name: the constants whose names hold the names of the slots.
	used = make([]bool, n)
	byName := make([]int, n)
	order := make([]int, n)
	for i := range order {
		order[i] = i
		byName[i] = -1
	}
	sort.SliceStable(order, func(a, b int) bool { return len(slots[order[a]].name) > len(slots[order[b]].name) })
	for _, i := range order {
		best := -1
		for k, c := range sc.consts {
			if !used[k] && strings.Contains(c.name, slots[i].name) && (best < 0 || len(c.name) < len(sc.consts[best].name)) {
				best = k
			}
		}
		if best >= 0 {
			byName[i] = best
			used[best] = true
		}
	}
	k = 0
	for i := range byName {
		if byName[i] < 0 {
			for used[k] {
				k++
			}
			byName[i] = k
			used[k] = true
		}
	}
	if ok, msg := test(byName); ok {
		return byName, true, ""
	} else if first == "" || n > 6 {
		first = msg
	}
	if n > 6 {
		return nil, false, first
	}
	// All permutations.
	for i := range perm {
		perm[i] = i
	}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			ok, _ := test(perm)
			return ok
		}
		for i := k; i < n; i++ {
			perm[k], perm[i] = perm[i], perm[k]
			if rec(k + 1) {
				return true
			}
			perm[k], perm[i] = perm[i], perm[k]
		}
		return false
	}
	if rec(0) {
		return perm, true, ""
	}
	return nil, false, first
}

func init() {
	type smtCase struct {
		Rule *Rule    `json:"rule"`
		Seed []uint64 `json:"seed"` // for assignments
	}
	assignments := func(slots []slot, seed []uint64, count int) (envs [][]uint64, exhaustive bool) {
		w := 0
		if len(slots) > 0 {
			w = slots[0].w
		}
		n := len(slots)
		width := w
		if w == 0 {
			width = 1
		}
		if n*width <= 12 || n*width <= 16 && count > 200 {
			total := 1 << uint(n*width)
			for i := 0; i < total; i++ {
				e := make([]uint64, n)
				for j := range e {
					e[j] = uint64(i) >> uint(j*width) & mask(width)
				}
				envs = append(envs, e)
			}
			return envs, true
		}
		m := mask(width)
		corners := []uint64{0, 1, m, m >> 1, m ^ m>>1, 2 & m, m - 1, 0x5555555555555555 & m, 0xaaaaaaaaaaaaaaaa & m}
		x := uint64(0x9e3779b97f4a7c15)
		for _, s := range seed {
			x ^= s
			x *= 0xff51afd7ed558ccd
			x ^= x >> 33
		}
		next := func() uint64 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			return x * 0x2545f4914f6cdd1d
		}
		for i := 0; i < count; i++ {
			e := make([]uint64, n)
			for j := range e {
				switch next() >> 60 % 3 {
				case 0:
					e[j] = corners[next()>>32%uint64(len(corners))]
				case 1:
					e[j] = next() >> 7 & m
				default:
					e[j] = next() >> 40 & 7 & m
				}
			}
			envs = append(envs, e)
		}
		return envs, false
	}
	generate := func(r *Rule) (string, error, string) {
		b, err := smt2.Generate(toRule(r))
		if err != nil {
			if b != nil {
				return "", err, "error and a script"
			}
			return "", err, ""
		}
		return string(b), nil, ""
	}
	// semantic compares the formula with the rule.
	semantic := func(c smtCase, count int) (out Outcome, script_ string, sat, decided bool) {
		m, res, slots, cerr := compileRule(c.Rule)
		if cerr != nil {
			return Outcome{Infra: "generator: rule outside the fragment: " + cerr.Error()}, "", false, false
		}
		src, err, bad := generate(c.Rule)
		if err != nil || bad != "" {
			return fail("supported rule refused: %v %s\n%s", err, bad, ruleText(c.Rule)), "", false, false
		}
		sc, err := checkSMT(src)
		if err != nil {
			var u unsupportedErr
			if errors.As(err, &u) {
				return Outcome{Infra: "SMT reader: " + err.Error() + "\n" + src}, "", false, false
			}
			return fail("script is not valid: %v\n%s", err, src), "", false, false
		}
		if len(sc.consts) != len(slots) {
			return fail("%d constants for %d values\n%s", len(sc.consts), len(slots), src), "", false, false
		}
		for _, k := range sc.consts {
			if k.w != slots[0].w {
				return fail("constant %s has the wrong sort\n%s", k.name, src), "", false, false
			}
		}
		envs, exhaustive := assignments(slots, c.Seed, count)
		differ := func(e []uint64) bool { return m.eval(e) != res.eval(e) }
		_, ok, why := matchConsts(sc, slots, differ, envs)
		if !ok {
			return fail("formula and rule disagree %s\n%s", why, src), "", false, false
		}
		for _, e := range envs {
			if differ(e) {
				sat = true
				break
			}
		}
		out = Outcome{}
		if exhaustive {
			out.Labels = append(out.Labels, "exhaustive")
		}
		if sat {
			out.Labels = append(out.Labels, "differ")
		} else {
			out.Labels = append(out.Labels, "agree")
		}
		ph := 0
		for _, s := range slots {
			if s.name == "_" {
				ph++
			}
		}
		if ph > 0 {
			out.Labels = append(out.Labels, "placeholder")
		}
		if ph > 1 {
			out.Labels = append(out.Labels, "placeholders>=2")
		}
		out.Labels = append(out.Labels, fmt.Sprintf("width %d", slots[0].w))
		n, _ := c.Rule.size()
		out.Trivial = n < 4
		return out, src, sat, sat || exhaustive
	}
	drawSeed := func(g *G) []uint64 { return []uint64{uint64(g.n(1 << 30)), uint64(g.n(1 << 30))} }
	register(&Prop{
		ID: "C12", Level: "exploration",
		Rule: "random rules of the supported fragment (all opcodes and widths, shared variables, placeholders), the result unrelated to the match, rewritten from it by identities, or rewritten and then changed at one place; the asserted formula, read and evaluated by an own SMT-LIB reader, is compared with an own interpreter of the opcodes on corner and random assignments (all of them where at most 16 bits of input), and z3's answer with exhaustion or with z3's answer to an independent encoding. Non-trivial: at least four values.",
		Subs: []*Sub{
			mk("formula", 24000, 1200000, func(g *G) smtCase {
				return smtCase{g.smtRule(4, 5), drawSeed(g)}
			}, func(c smtCase) Outcome { o, _, _, _ := semantic(c, 64); return o }),
			mk("exhaustive", 240, 12000, func(g *G) smtCase {
				for {
					r := g.smtRule(3, 2)
					if _, _, slots, err := compileRule(r); err == nil && len(slots) <= 2 {
						return smtCase{r, drawSeed(g)}
					}
				}
			}, func(c smtCase) Outcome { o, _, _, _ := semantic(c, 400); return o }),
			mk("large", 400, 20000, func(g *G) smtCase {
				r := g.smtRule(2, 12)
				w := compileWidth(r)
				ops := smtOpsByWidth[w]
				for k := g.n(150); k > 0; k-- {
					o := ops[g.n(len(ops))]
					x := &Val{S: &SX{Op: []Part{{Lit: o.name}}, Args: []*Val{r.M}}}
					if o.arity == 2 {
						x.S.Args = append(x.S.Args, &Val{V: g.pick([]string{"_", "x", "y", "z", "q", g.variable()})})
						if g.chance(1) {
							x.S.Args[0], x.S.Args[1] = x.S.Args[1], x.S.Args[0]
						}
					}
					r.M = x
				}
				return smtCase{r, drawSeed(g)}
			}, func(c smtCase) Outcome { o, _, _, _ := semantic(c, 40); return o }),
			mk("solver", 640, 20000, func(g *G) smtCase {
				return smtCase{g.smtRule(2, 3), drawSeed(g)}
			}, func(c smtCase) Outcome {
				out, src, sat, decided := semantic(c, 200)
				if out.Fail != "" || out.Infra != "" {
					return out
				}
				got, _, timeout, err := z3(src)
				if err != nil {
					return Outcome{Infra: "z3: " + err.Error()}
				}
				got = strings.TrimSpace(got)
				if timeout || got == "timeout" || got == "unknown" {
					out.Labels = append(out.Labels, "solver undecided")
					return out
				}
				want := "unsat"
				if sat {
					want = "sat"
				}
				how := "exhaustion"
				if !decided {
					m, res, slots, _ := compileRule(c.Rule)
					ref, _, timeout, err := z3(encodeRule(m, res, slots))
					if err != nil {
						return Outcome{Infra: "z3: " + err.Error()}
					}
					ref = strings.TrimSpace(ref)
					if timeout || ref == "timeout" || ref == "unknown" {
						out.Labels = append(out.Labels, "solver undecided")
						return out
					}
					if ref != "sat" && ref != "unsat" {
						return Outcome{Infra: "z3 on the reference encoding: " + ref}
					}
					want, how = ref, "the reference encoding"
				}
				if got != want {
					return fail("z3 says %q, by %s it is %s\n%s", got, how, want, src)
				}
				out.Labels = append(out.Labels, "solver "+want)
				return out
			}),
		},
	})

	// ---- C13

	strict := func(c smtCase) (Outcome, string) {
		_, _, slots, cerr := compileRule(c.Rule)
		if cerr != nil {
			return Outcome{Infra: "generator: rule outside the fragment: " + cerr.Error()}, ""
		}
		src, err, bad := generate(c.Rule)
		if err != nil || bad != "" {
			return fail("supported rule refused: %v %s\n%s", err, bad, ruleText(c.Rule)), ""
		}
		sc, err := checkSMT(src)
		if err != nil {
			var u unsupportedErr
			if errors.As(err, &u) {
				return Outcome{Infra: "SMT reader: " + err.Error() + "\n" + src}, ""
			}
			return fail("script is not valid: %v\n%s", err, src), ""
		}
		if len(sc.consts) != len(slots) {
			return fail("%d constants declared for %d variables and placeholders\n%s", len(sc.consts), len(slots), src), ""
		}
		for _, k := range sc.consts {
			if k.w != slots[0].w {
				return fail("constant %s has the wrong sort\n%s", k.name, src), ""
			}
		}
		// The rule is in the comments.
		b, err := printer.Bytes(toRule(c.Rule))
		if err != nil {
			return fail("rule does not print: %v", err), ""
		}
		squash := func(s string) string { return strings.Join(strings.Fields(s), " ") }
		if !strings.Contains(squash(strings.Join(sc.comments, " ")), squash(string(b))) {
			return fail("no comment holds the rule %s\n%s", b, src), ""
		}
		nasty := false
		for _, s := range slots {
			nasty = nasty || smtReserved[s.name] || smtTheory[s.name]
		}
		out := Outcome{Labels: []string{fmt.Sprintf("width %d", slots[0].w)}}
		if nasty {
			out.Labels = append(out.Labels, "nasty name")
		}
		n, _ := c.Rule.size()
		out.Trivial = n < 4
		return out, src
	}
	register(&Prop{
		ID: "C13", Level: "exploration",
		Rule: "random supported rules whose variables have ordinary, random or SMT-LIB names; each script is read by an own strict SMT-LIB reader and sort checker, some by cvc5 --strict-parsing and z3 as well. Non-trivial: at least four values.",
		Subs: []*Sub{
			mk("reader", 32000, 1600000, func(g *G) smtCase {
				return smtCase{Rule: g.smtRule(4, 8)}
			}, func(c smtCase) Outcome { o, _ := strict(c); return o }),
			mk("names", 400, 16000, func(g *G) smtCase {
				// Every name in turn, on its own and together.
				w := []int{8, 0, 64}[g.n(3)]
				s := &smtGen{g: g, w: w}
				v := g.pick(smtNames)
				if g.chance(2) {
					v = g.variable()
				}
				u := g.pick([]string{v + "_", v + "0", "x", "_", v})
				return smtCase{Rule: &Rule{M: s.op(s.named("And"), &Val{V: v}, &Val{V: u}), R: s.op(s.named("Or"), &Val{V: u}, &Val{V: v})}}
			}, func(c smtCase) Outcome { o, _ := strict(c); return o }),
			mk("solvers", 480, 16000, func(g *G) smtCase {
				return smtCase{Rule: g.smtRule(2, 6)}
			}, func(c smtCase) Outcome {
				out, src := strict(c)
				if out.Fail != "" || out.Infra != "" {
					return out
				}
				for _, run := range []func(string) (string, int, bool, error){cvc5, z3} {
					got, code, timeout, err := run(src)
					if err != nil {
						return Outcome{Infra: "solver: " + err.Error()}
					}
					got = strings.TrimSpace(got)
					switch {
					case timeout || got == "timeout" || got == "unknown" || strings.Contains(got, "interrupted by timeout"):
						out.Labels = append(out.Labels, "solver undecided")
					case got == "sat" || got == "unsat":
						out.Labels = append(out.Labels, "solver accepts")
					default:
						return fail("a solver says %q (exit status %d)\n%s", got, code, src)
					}
				}
				return out
			}),
		},
	})

	// ---- C14

	type refuseCase struct {
		Rule *Rule  `json:"rule"`
		What string `json:"what"`
	}
	checkRefuse := func(c refuseCase) Outcome {
		_, _, _, cerr := compileRule(c.Rule)
		src, err, bad := generate(c.Rule)
		if bad != "" {
			return fail("%s\n%s", bad, ruleText(c.Rule))
		}
		if cerr != nil && err == nil {
			return fail("rule with %s (%v) translated\n%s\n%s", c.What, cerr, ruleText(c.Rule), src)
		}
		if cerr == nil && err != nil {
			return fail("supported rule refused: %v\n%s", err, ruleText(c.Rule))
		}
		if err == nil {
			return Outcome{Labels: []string{"accepted"}}
		}
		return Outcome{Labels: []string{"refused: " + cerr.Error()}}
	}
	register(&Prop{
		ID: "C14", Level: "exploration",
		Rule: "supported rules with one or two defects injected at random places (condition, block, each s-expression feature, alternation, unknown opcode, call value, wrong number of arguments, other width or sort, match without a type), and rules put together from opcodes of any width, any rules, and trees with a value or operator of no known type; translation must succeed exactly when an own checker accepts the rule, and refusal must come without a script. All cases count.",
		Subs: []*Sub{
			mk("defects", 40000, 2000000, func(g *G) refuseCase {
				r := g.smtRule(4, 4)
				var what []string
				for k := []int{1, 1, 1, 2, 0}[g.n(5)]; k > 0; k-- {
					what = append(what, g.smtDefect(r))
				}
				return refuseCase{r, strings.Join(what, ", ")}
			}, checkRefuse),
			mk("mixed", 16000, 800000, func(g *G) refuseCase {
				// Operators of any width, with the right number of arguments mostly.
				var names []string
				for n := range smtOps {
					names = append(names, n)
				}
				sort.Strings(names)
				few := []string{g.pick(names), g.pick(names), g.pick(names)}
				var term func(d int) *Val
				term = func(d int) *Val {
					if d <= 0 || g.chance(2) {
						return &Val{V: g.pick([]string{"x", "y", "_", "x"})}
					}
					o := smtOps[g.pick(few)]
					n := o.arity
					if g.chance(5) {
						n = g.n(4)
					}
					s := &SX{Op: []Part{{Lit: o.name}}}
					for ; n > 0; n-- {
						s.Args = append(s.Args, term(d-1))
					}
					return &Val{S: s}
				}
				return refuseCase{&Rule{M: term(3), R: term(3)}, "mixed"}
			}, checkRefuse),
			mk("unsupported", 2000, 100000, func(g *G) oddCase {
				return oddCase{[]*Rule{g.smtRule(3, 4)}, g.n(300), g.pick(oddities)}
			}, func(c oddCase) Outcome {
				f := toFile(c.Rules)
				plantOddity(f, c.Place, c.What)
				b, err := smt2.Generate(f.Rules[0])
				if err == nil || b != nil {
					return fail("%s: script %q, error %v\n%s", c.What, b, err, ruleText(c.Rules[0]))
				}
				return Outcome{Labels: []string{c.What}}
			}),
			mk("any", 8000, 400000, func(g *G) refuseCase {
				o := fullopts
				o.maxargs, o.depth = 4, 2
				return refuseCase{g.rule(o), "any rule"}
			}, checkRefuse),
		},
	})
}

func ruleText(r *Rule) string { return plainLayout(rtokens([]*Rule{r}, nil)) }

func compileWidth(r *Rule) int {
	m, _, _, err := compileRule(r)
	if err != nil {
		return 8
	}
	return m.op.w
}

// smtDefect puts something unsupported into the rule.
func (g *G) smtDefect(r *Rule) string {
	var ss []*SX
	r.walkS(func(s *SX) { ss = append(ss, s) })
	vs := r.vals()
	if len(ss) == 0 {
		r.Block = g.block()
		return "block"
	}
	s := ss[g.n(len(ss))]
	v := vs[g.n(len(vs))]
	switch g.n(18) {
	case 0:
		r.Cond = g.gx(g.n(3), gxctx{})
		return "condition"
	case 1:
		r.Block = g.block()
		return "block"
	case 2:
		s.Bind = g.variable()
		return "binding"
	case 3:
		s.Type = g.typ()
		return "type"
	case 4:
		s.AuxInt = g.gx(g.n(2), gxctx{})
		return "auxint"
	case 5:
		s.Aux = g.gx(g.n(2), gxctx{})
		return "aux"
	case 6:
		s.Ell = true
		return "ellipsis"
	case 7:
		s.Trail = true
		return "trailing"
	case 8:
		name := s.Op[0].Lit
		if len(name) < 2 || s.Op[0].Alts != nil {
			s.Op = []Part{{Alts: []string{"Add8", "Sub8"}}}
			return "alternation"
		}
		k := 1 + g.n(len(name)-1)
		s.Op = []Part{{Lit: name[:k]}, {Alts: []string{name[k:], g.pick([]string{name[k:], "8", "64"})}}}
		return "alternation"
	case 9:
		name := s.Op[0].Lit
		s.Op = []Part{{Lit: g.pick([]string{"Add128", "Add7", "add8", "AddB", "Add", "SubB", "NegB", "ComB", "Eq", "NotB", "Not8", "Not64", "And1", "ADD64", "Foo", "_", "Xor", name + "_", name + "8", name + "x", "x" + name, strings.ToLower(name)})}}
		return "unknown opcode"
	case 10, 11:
		*v = Val{E: g.callval(1)}
		return "call value"
	case 12:
		if len(s.Args) > 0 {
			s.Args = s.Args[:len(s.Args)-1]
		}
		return "missing argument"
	case 13:
		s.Args = append(s.Args, &Val{V: "x"})
		return "extra argument"
	case 14:
		s.Args = nil
		return "no arguments"
	case 15, 16:
		// An operator of another width.
		name := s.Op[0].Lit
		base := strings.TrimRight(name, "0123456789B")
		if smtOps[name] == nil {
			return "nothing"
		}
		w := g.pick([]string{"8", "16", "32", "64", "B", "64"})
		if smtOps[base+w] != nil {
			s.Op = []Part{{Lit: base + w}}
		} else {
			s.Op = []Part{{Lit: "And" + w}}
			for len(s.Args) < 2 {
				s.Args = append(s.Args, &Val{V: "x"})
			}
		}
		return "other width"
	default:
		r.M = &Val{V: g.pick([]string{"x", "_"})}
		return "match without a type"
	}
}
