package main

// C01-C06: parsing and printing.

import (
	"bytes"
	"fmt"
	goparser "go/parser"
	"os"
	"os/exec"
	"sort"
	"strings"
	"syscall"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
)

// Known findings, by their ids in known_findings.txt.
const (
	knownCondComment = "cond-comment"
	knownCondRaw     = "cond-newline"
	knownDeep        = "deep-nesting"
)

func diff(got, want string) string {
	gl, wl := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range gl {
		if i >= len(wl) || gl[i] != wl[i] {
			w := "<end>"
			if i < len(wl) {
				w = wl[i]
			}
			return fmt.Sprintf("got:  %s\nwant: %s", gl[i], w)
		}
	}
	if len(wl) > len(gl) {
		return fmt.Sprintf("got:  <end>\nwant: %s", wl[len(gl)])
	}
	return "(equal)"
}

func labelsOf(rs []*Rule) (labels []string, trivial bool) {
	set := map[string]bool{}
	nodes, depth, maxargs, maxalts := 0, 0, 0, 0
	var f features
	for _, r := range rs {
		n, d := r.size()
		nodes += n
		if d > depth {
			depth = d
		}
		rf := r.features()
		f.binding = f.binding || rf.binding
		f.typ = f.typ || rf.typ
		f.aux = f.aux || rf.aux
		f.auxint = f.auxint || rf.auxint
		f.ellipsis = f.ellipsis || rf.ellipsis
		f.trailing = f.trailing || rf.trailing
		if r.Cond != nil {
			set["condition"] = true
		}
		if r.Block != "" {
			set["block"] = true
		}
		r.walkS(func(s *SX) {
			if len(s.Args) > maxargs {
				maxargs = len(s.Args)
			}
			for _, p := range s.Op {
				if len(p.Alts) > maxalts {
					maxalts = len(p.Alts)
				}
				if p.Alts != nil {
					set["alternation"] = true
				}
			}
		})
	}
	for k, v := range map[string]bool{
		"binding": f.binding, "type": f.typ, "aux": f.aux, "auxint": f.auxint, "ellipsis": f.ellipsis, "trailing": f.trailing,
		"depth>=4": depth >= 4, "depth>=20": depth >= 20, "args>=8": maxargs >= 8, "args>=30": maxargs >= 30, "alts>=8": maxalts >= 8, "rules>=3": len(rs) >= 3, "nodes>=40": nodes >= 40,
	} {
		if v {
			set[k] = true
		}
	}
	for k := range set {
		labels = append(labels, k)
	}
	return labels, nodes < 4 && len(set) == 0
}

func mustExpr(v ast.Value) *ast.SExpr { s, _ := v.(*ast.SExpr); return s }

func init() {
	type ruleCase struct {
		Rules []*Rule `json:"rules"`
		Src   string  `json:"src"`
	}
	checkC01 := func(c ruleCase) Outcome {
		f, err := parse.String(c.Src)
		if err != nil {
			return fail("valid text rejected: %v\ntext: %q", err, c.Src)
		}
		want := canonRules(c.Rules)
		if got := canonFile(f); got != want {
			return fail("text: %q\n%s", c.Src, diff(got, want))
		}
		l, triv := labelsOf(c.Rules)
		return Outcome{Labels: l, Trivial: triv}
	}
	register(&Prop{
		ID: "C01", Level: "exploration",
		Rule: "random rule trees (heavy-tailed numbers of rules, arguments, alternatives and nesting levels; all operand kinds) rendered as text with random layout and operand order; the parse is compared with the tree. Non-trivial: at least four values, or any feature besides plain s-expressions and variables; counted once per distinct case.",
		Subs: []*Sub{
			mk("rules", 48000, 2000000, func(g *G) ruleCase {
				rs := g.rules(deepopts, 12)
				return ruleCase{rs, g.source(rs)}
			}, checkC01),
			mk("large", 160, 6000, func(g *G) ruleCase {
				o := deepopts
				var rs []*Rule
				switch g.n(4) {
				case 0: // many rules
					o.depth, o.maxargs = 2, 4
					for k := 20 + g.n(400); k > 0; k-- {
						rs = append(rs, g.rule(o))
					}
				case 1: // many arguments
					r := g.rule(o)
					s := &SX{Op: g.op(2, 0)}
					for k := 20 + g.n(600); k > 0; k-- {
						s.Args = append(s.Args, g.value(o, g.n(2)))
					}
					r.M = &Val{S: s}
					rs = append(rs, r)
				case 2: // many alternatives
					r := g.rule(o)
					var p []Part
					for k := 1 + g.n(4); k > 0; k-- {
						a := Part{}
						for j := 2 + g.n(300); j > 0; j-- {
							a.Alts = append(a.Alts, g.partword())
						}
						p = append(p, a)
					}
					r.M = &Val{S: &SX{Op: p, Args: []*Val{{V: "x"}}}}
					rs = append(rs, r)
				default: // deep nesting
					o.depth = 2
					v := g.value(o, 1)
					for k := 20 + g.n(300); k > 0; k-- {
						s := g.sexpr(o, 0)
						s.Args = append(s.Args, v)
						v = &Val{S: s}
					}
					r := g.rule(o)
					if g.chance(1) {
						r.M = v
					} else {
						r.R = v
					}
					rs = append(rs, r)
				}
				return ruleCase{rs, g.source(rs)}
			}, checkC01),
		},
	})

	// ---- C02

	type layoutCase struct {
		A string `json:"a"`
		B string `json:"b"`
	}
	type condCase struct {
		Src   string `json:"src"`
		Want  string `json:"want"`
		Quirk string `json:"quirk"` // what the known finding makes of it; "error" if an error
		Known string `json:"known"`
	}
	checkKnown := func(c condCase) Outcome {
		f, err := parse.String(c.Src)
		got := "error"
		if err == nil {
			got = canonFile(f)
		}
		switch {
		case got == c.Want:
			return Outcome{}
		case got == c.Quirk:
			return Outcome{Known: []string{c.Known}, Labels: []string{"known finding"}}
		}
		return fail("text: %q\n%s", c.Src, diff(got, c.Want))
	}
	quirkOf := func(src string) string {
		rs, _, err := refParse(src, true)
		if err != nil {
			return "error"
		}
		return canonRules(rs)
	}
	register(&Prop{
		ID: "C02", Level: "exploration",
		Rule: "one sequence of tokens of random rules written with two different random layouts (spaces, tabs, carriage returns, line breaks, comments with hostile text, comments at the end of the file; for Go expressions also block comments), and short rules with one comment or piece of layout put at every possible place; the two parses must be deeply equal. Non-trivial: the texts differ in more than spaces.",
		Subs: []*Sub{
			mk("layouts", 40000, 1600000, func(g *G) layoutCase {
				rs := g.rules(deepopts, 8)
				var choose func(n int) int
				if g.chance(1) {
					choose = g.n
				}
				toks := rtokens(rs, choose)
				a := plainLayout(toks)
				if g.chance(2) {
					a = g.layout(toks, 1)
				}
				return layoutCase{a, g.layout(toks, g.n(3))}
			}, func(c layoutCase) Outcome {
				fa, err := parse.String(c.A)
				if err != nil {
					return fail("rejected: %v\ntext: %q\nother layout: %q", err, c.A, c.B)
				}
				fb, err := parse.String(c.B)
				if err != nil {
					return fail("rejected: %v\ntext: %q\nother layout: %q", err, c.B, c.A)
				}
				if ca, cb := canonFile(fa), canonFile(fb); ca != cb {
					return fail("layouts %q and %q parse differently:\n%s", c.A, c.B, diff(cb, ca))
				}
				if m := positions(fb); m != "" {
					return fail("a source position remains: %s\ntext: %q", m, c.B)
				}
				if !sameTree(fa, fb) {
					return fail("layouts %q and %q parse to rules that are not deeply equal (positions?)", c.A, c.B)
				}
				var l []string
				for _, x := range []string{"//", "/*", "\r", "\t", "\n"} {
					if strings.Contains(c.B, x) && !strings.Contains(c.A, x) {
						l = append(l, fmt.Sprintf("adds %q", x))
					}
				}
				return Outcome{Labels: l, Trivial: len(l) == 0}
			}),
			// One comment at each place in turn.
			mk("everygap", 1200, 40000, func(g *G) layoutCase {
				// Small, as every gap takes a parse of the whole.
				o := fullopts
				o.maxargs, o.depth = 3, 2
				rs := []*Rule{g.rule(o)}
				if g.chance(1) {
					rs = append(rs, g.rule(o))
				}
				toks := rtokens(rs, nil)
				text := "//" + g.comment() + "\n"
				if g.chance(1) {
					text = g.pick([]string{"\n", "\r\n", "\t", " \r", "\n\n"})
				}
				// The case holds all variants, separated by a byte that is not UTF-8.
				var variants []string
				for i := range toks {
					if i == 0 && g.chance(3) || len(variants) > 400 {
						continue
					}
					t := text
					switch toks[i].gap {
					case gNone:
						continue
					case gCond:
						if strings.HasPrefix(text, "//") {
							continue
						}
					}
					ins := append([]tok(nil), toks...)
					b := plainLayout(ins[:i])
					prev := ""
					if i > 0 {
						prev = ins[i-1].s
					}
					if strings.HasSuffix(prev, "/") {
						t = " " + t
					}
					rest := plainLayout(ins[i:])
					variants = append(variants, b+t+rest)
				}
				return layoutCase{plainLayout(toks), strings.Join(variants, "\xff")}
			}, func(c layoutCase) Outcome {
				fa, err := parse.String(c.A)
				if err != nil {
					return fail("rejected: %v\ntext: %q", err, c.A)
				}
				vs := strings.Split(c.B, "\xff")
				for _, v := range vs {
					fb, err := parse.String(v)
					if err != nil {
						return fail("rejected: %v\ntext: %q\nother layout: %q", err, v, c.A)
					}
					if !sameTree(fa, fb) {
						return fail("layouts %q and %q parse differently:\n%s", c.A, v, diff(canonFile(fb), canonFile(fa)))
					}
				}
				return Outcome{Trivial: len(vs) < 4, Labels: []string{"gaps"}}
			}),
			// Comments inside conditions: the known finding.
			mk("condcomments", 800, 16000, func(g *G) condCase {
				o := deepopts
				o.maxargs, o.depth = 3, 2
				r := g.rule(o)
				r.Cond = g.gx(1+g.n(3), gxctx{})
				rest := g.rules(o, 2)
				rs := append([]*Rule{r}, rest...)
				toks := rtokens(rs, nil)
				var at []int
				for i, t := range toks {
					if t.gap == gCond || t.gap == gCondEnd {
						at = append(at, i)
					}
				}
				i := at[g.n(len(at))]
				c := "//" + g.comment() + "\n"
				src := plainLayout(toks[:i]) + " " + c + plainLayout(toks[i:])
				return condCase{src, canonRules(rs), quirkOf(src), knownCondComment}
			}, checkKnown),
		},
	})

	// ---- C03

	checkRef := func(src string) Outcome {
		f, err := parse.String(src)
		if (err == nil) == (f == nil) {
			return fail("text: %q\nreturned file %v and error %v", src, f != nil, err)
		}
		got := "error"
		if err == nil {
			got = canonFile(f)
		}
		want := "error"
		rs, _, rerr := refParse(src, false)
		if rerr == nil {
			want = canonRules(rs)
		}
		out := Outcome{Labels: []string{"rejected"}}
		if rerr == nil {
			out.Labels = []string{"accepted"}
			if len(rs) == 0 {
				out.Trivial = true
			}
		}
		if got == want {
			return out
		}
		if _, quirky, _ := refParse(src, true); quirky && got == quirkOf(src) {
			out.Known = []string{knownCondComment}
			if !strings.Contains(src, "//") {
				out.Known = []string{knownCondRaw}
			}
			out.Labels = append(out.Labels, "known finding")
			return out
		}
		detail := ""
		if rerr != nil {
			detail = "\nreference: " + rerr.Error()
		}
		if err != nil {
			detail += "\nparser: " + err.Error()
		}
		return fail("text: %q\n%s%s", src, diff(got, want), detail)
	}
	type textCase struct {
		Src []byte `json:"src"` // bytes, not always UTF-8
	}
	text := func(gen func(g *G) string) func(g *G) textCase {
		return func(g *G) textCase { return textCase{[]byte(gen(g))} }
	}
	checkText := func(c textCase) Outcome { return checkRef(string(c.Src)) }
	type placeCase struct {
		Src string `json:"src"`
		At  int    `json:"at"`  // where something is put
		Old int    `json:"old"` // in place of so many bytes
	}
	oddTexts := []string{"\ufeff", "\u00a0", "\u0085", "\u2028", "\u2029", "\u200b", "\u3000", "\ufffd", "\u00ad", "\r\n", "\n\x1a", "\n\x00", "\n\x04", "\x00\x00", "\n\n", "\v", "\n#", "\n;", "\n//", "\n/*", "*/", "/**/", "--", "\\\n", "\n%", "=>", "&&", "___", "...", "\n=>", "\n.", "\n)", "()", "\xef\xbb", "é", "\U0001f600", "ſ", "K"}
	type deepCase struct {
		Kind  string `json:"kind"`
		Depth int    `json:"depth"`
	}
	findings := mk[textCase]("findings", 0, 0, nil, checkText)
	findings.Fixed = func() []any {
		return []any{
			textCase{[]byte("(A x) && a // c\n&& b => y\n")},
			textCase{[]byte("(A x) && s == `a\nb` => y\n")},
		}
	}
	c03 := &Prop{
		ID: "C03", Level: "exploration",
		Rule: "random edits of rendered rules and of sampled compiler rules, rule skeletons with holes filled by hostile fragments, token soup, raw bytes, deep nesting; acceptance and the resulting rules are compared with an independent reference parser. Non-trivial: rejected, or accepted with at least one rule; counted once per distinct text.",
		Subs: []*Sub{
			mk("mutants", 40000, 2000000, text(func(g *G) string { return g.mutate(g.seedText()) }), checkText),
			mk("shaped", 40000, 2000000, text(func(g *G) string { return g.shaped() }), checkText),
			mk("soup", 16000, 600000, text(func(g *G) string { return g.soup() }), checkText),
			mk("bytes", 8000, 300000, func(g *G) textCase {
				b := make([]byte, 0, 64)
				ascii := g.chance(1)
				for k := g.size(12, 60); k > 0; k-- {
					if ascii {
						b = append(b, hostile[g.n(len(hostile))])
					} else {
						b = append(b, byte(g.n(256)))
					}
				}
				return textCase{b}
			}, checkText),
			mk("utf8", 4000, 100000, func(g *G) textCase {
				// A bad byte anywhere, comments and literals included, is an error.
				s := g.seedText()
				i := g.n(len(s) + 1)
				if g.chance(1) {
					// Prefer the inside of comments.
					if j := strings.Index(s, "//"); j >= 0 {
						i = j + 2
					} else {
						s += "// c"
						i = len(s)
					}
				}
				return textCase{[]byte(s[:i] + g.pick([]string{"\xff", "\x80", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\ufffd", "é"}) + s[i:])}
			}, checkText),
			mk("everybyte", 64, 2400, func(g *G) placeCase {
				// Every byte, and characters that editors leave, at one place.
				o := fullopts
				o.maxargs, o.depth, o.chain = 3, 2, 20
				c := placeCase{Src: g.pick([]string{"", "(A x) => x\n", "// c", "// c\n"})}
				if g.n(4) > 0 {
					c.Src = plainLayout(rtokens([]*Rule{g.rule(o)}, nil))
				}
				if g.chance(1) {
					c.Src += g.pick([]string{"\n", "\n\n", " ", "\r\n", "// c", " // c\n", "\t"})
				}
				switch g.n(4) {
				case 0:
					c.At = len(c.Src)
				case 1:
					c.Old = g.n(2)
				default:
					c.At = g.n(len(c.Src) + 1)
					c.Old = g.n(2)
				}
				c.Old = min(c.Old, len(c.Src)-c.At)
				return c
			}, func(c placeCase) Outcome {
				out := Outcome{}
				seen := map[string]bool{}
				try := func(x string) bool {
					o := checkRef(c.Src[:c.At] + x + c.Src[c.At+c.Old:])
					if o.Fail != "" {
						out = o
						return false
					}
					for _, l := range o.Labels {
						seen[l] = true
					}
					out.Known = append(out.Known, o.Known...)
					return true
				}
				for b := 0; b < 256; b++ {
					if !try(string([]byte{byte(b)})) {
						return out
					}
				}
				for _, x := range oddTexts {
					if !try(x) {
						return out
					}
				}
				for l := range seen {
					out.Labels = append(out.Labels, l)
				}
				sort.Strings(out.Labels)
				return out
			}),
			mk("deep", 48, 800, func(g *G) deepCase {
				k := g.pick([]string{"sexpr", "unclosed", "call", "callunclosed", "paren", "unary", "sum", "alts", "args", "rules", "comments", "aux", "binding", "andand", "selectors"})
				n := 1 + g.n(6000)
				if strings.HasPrefix(k, "call") {
					n = 1 + g.n(400)
				}
				return deepCase{k, n}
			}, func(c deepCase) Outcome { return checkRef(deepText(c.Kind, c.Depth)) }),
		},
	}
	verydeep := mk[deepCase]("verydeep", 0, 0, nil, func(c deepCase) Outcome {
		// In a process of its own: the known finding ends it.
		self, err := os.Executable()
		if err != nil {
			return Outcome{Infra: err.Error()}
		}
		cmd := exec.Command(self, "deep", c.Kind, fmt.Sprint(c.Depth))
		var errb bytes.Buffer
		cmd.Stderr = &errb
		err = cmd.Run()
		if err == nil {
			return Outcome{Labels: []string{"survived"}}
		}
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return Outcome{Infra: err.Error()}
		}
		ws := ee.Sys().(syscall.WaitStatus)
		e := errb.String()
		if ws.Exited() && ws.ExitStatus() == 2 && strings.Contains(e, "stack overflow") && strings.Contains(e, "mmcloughlin/ssarules/parse") {
			return Outcome{Known: []string{knownDeep}, Labels: []string{"known finding"}}
		}
		if ws.Exited() && ws.ExitStatus() == 1 {
			return fail("%s nested %d deep: %s", c.Kind, c.Depth, e)
		}
		return Outcome{Infra: fmt.Sprintf("%v: %s", err, tail(e, 500))}
	})
	verydeep.Fixed = func() []any { return []any{deepCase{"sexpr", 1000000}} }
	c03.Subs = append(c03.Subs, findings, verydeep)
	register(c03)

	// ---- C04

	roundtrip := func(f *ast.File) string {
		b, err := printer.Bytes(f)
		if err != nil {
			return fmt.Sprintf("parsed rules do not print: %v", err)
		}
		f2, err := parse.String(string(b))
		if err != nil {
			return fmt.Sprintf("printed rules do not parse: %v\nprinted: %q", err, b)
		}
		if a, b2 := canonFile(f), canonFile(f2); a != b2 {
			return fmt.Sprintf("round trip differs, printed %q\n%s", b, diff(b2, a))
		}
		if !sameTree(f, f2) {
			return fmt.Sprintf("round trip is not deeply equal, printed %q", b)
		}
		for _, r := range f.Rules {
			b, err := printer.Bytes(r)
			if err != nil {
				return fmt.Sprintf("parsed rule does not print: %v", err)
			}
			f3, err := parse.String(string(b))
			if err != nil {
				return fmt.Sprintf("printed rule does not parse: %v\nprinted: %q", err, b)
			}
			if len(f3.Rules) != 1 || !sameTree(f3.Rules[0], r) {
				return fmt.Sprintf("rule round trip differs, printed %q\n%s", b, diff(canonFile(f3), canonAstRules([]*ast.Rule{r})))
			}
		}
		return ""
	}
	checkC04 := func(src string) Outcome {
		f, err := parse.String(src)
		if err != nil {
			return Outcome{Trivial: true, Labels: []string{"rejected"}}
		}
		if m := roundtrip(f); m != "" {
			return fail("text: %q\n%s", src, m)
		}
		out := Outcome{Labels: []string{"accepted"}, Trivial: len(f.Rules) == 0}
		n := len(f.Rules)
		e := &ast.File{Rules: append([]*ast.Rule(nil), f.Rules...)}
		if err := pass.ExpandAlternates(e); err == nil {
			if len(e.Rules) != n {
				out.Labels = append(out.Labels, "expanded")
			}
			if m := roundtrip(e); m != "" {
				return fail("text: %q\nafter expansion: %s", src, m)
			}
		}
		return out
	}
	register(&Prop{
		ID: "C04", Level: "exploration",
		Rule: "texts rendered from random rules, rule skeletons and mutated rules that the parser accepts; printing and parsing again must give deeply equal rules, for the file, each rule, and the file after expansion. Non-trivial: accepted, with at least one rule; counted once per distinct text.",
		Subs: []*Sub{
			mk("rules", 24000, 1200000, text(func(g *G) string {
				var rs []*Rule
				for k := 1 + g.size(2, 6); k > 0; k-- {
					if g.chance(1) {
						rs = append(rs, g.consistentRule(deepopts))
					} else {
						rs = append(rs, g.rule(deepopts))
					}
				}
				return g.source(rs)
			}), func(c textCase) Outcome { return checkC04(string(c.Src)) }),
			mk("shaped", 24000, 1200000, text(func(g *G) string { return g.shaped() }), func(c textCase) Outcome { return checkC04(string(c.Src)) }),
			mk("mutants", 24000, 1200000, text(func(g *G) string { return g.mutate(g.seedText()) }), func(c textCase) Outcome { return checkC04(string(c.Src)) }),
			mk("exprs", 24000, 1200000, text(func(g *G) string {
				// Rules that are mostly Go expressions.
				r := &Rule{M: &Val{S: &SX{Op: []Part{{Lit: "A"}}, AuxInt: g.gx(g.n(6), gxctx{rawNL: true})}}, R: &Val{S: &SX{Op: []Part{{Lit: "B"}}, Aux: g.gx(g.n(4), gxctx{rawNL: true})}}}
				r.Cond = g.gx(g.n(6), gxctx{})
				return plainLayout(rtokens([]*Rule{r}, nil))
			}), func(c textCase) Outcome { return checkC04(string(c.Src)) }),
		},
	})

	// ---- C05

	type exprCase struct {
		Src  string `json:"src"`  // rule text
		Ctx  string `json:"ctx"`  // where the expression is: cond auxint aux call
		Go   string `json:"go"`   // the expression on its own
		Want string `json:"want"` // canonical, "" to ask go/parser
	}
	wrap := func(ctx, text string) string {
		switch ctx {
		case "cond":
			return "(A x) && " + text + " => y"
		case "auxint":
			return "(A [" + text + "] x) => y"
		case "aux":
			return "(A {" + text + "} x) => y"
		default:
			return "(A " + text + ") => y"
		}
	}
	extract := func(ctx string, f *ast.File) *ast.Expr {
		if len(f.Rules) != 1 {
			return nil
		}
		r := f.Rules[0]
		s := mustExpr(r.Match)
		switch {
		case ctx == "cond":
			return r.Condition
		case s == nil:
			return nil
		case ctx == "auxint":
			return s.AuxInt
		case ctx == "aux":
			return s.Aux
		case len(s.Args) == 1:
			e, _ := s.Args[0].(*ast.Expr)
			return e
		}
		return nil
	}
	checkExpr := func(c exprCase) Outcome {
		oracle, gerr := goparser.ParseExpr(c.Go)
		want := c.Want
		if gerr == nil && canonKinds(oracle) != "" {
			gerr = fmt.Errorf("unsupported kind of expression")
		}
		if want == "" && gerr == nil {
			want = canonGoExpr(oracle)
		}
		if c.Want != "" && (gerr != nil || canonGoExpr(oracle) != c.Want) {
			return Outcome{Infra: fmt.Sprintf("generator: %q is not the tree it was rendered from: %v", c.Go, gerr)}
		}
		if gerr != nil && c.Ctx == "cond" && strings.Contains(c.Go, "=>") {
			// The condition may end early, and be good up to there.
			return Outcome{Trivial: true, Labels: []string{"arrow"}}
		}
		f, err := parse.String(c.Src)
		if gerr != nil {
			if err == nil || f != nil {
				return fail("text %q accepted as\n%s\nalthough the expression is not Go of the supported kinds: %v", c.Src, canonFile(f), gerr)
			}
			return Outcome{Labels: []string{"refused " + c.Ctx}}
		}
		if err != nil {
			return fail("text %q rejected: %v", c.Src, err)
		}
		e := extract(c.Ctx, f)
		if e == nil {
			return fail("text %q parsed to\n%s", c.Src, canonFile(f))
		}
		if got := canonGoExpr(e.Expr); got != want {
			return fail("text %q: expression read as\n%s\nGo reads it as\n%s", c.Src, got, want)
		}
		b, err := printer.Bytes(e)
		if err != nil {
			return fail("text %q: expression does not print: %v", c.Src, err)
		}
		back, err := goparser.ParseExpr(string(b))
		if err != nil {
			return fail("text %q: printed expression %q is not Go: %v", c.Src, b, err)
		}
		if got := canonGoExpr(back); got != want {
			return fail("text %q: printed expression %q reads as\n%s\nwant\n%s", c.Src, b, got, want)
		}
		// The printed rule holds the printed expression, which Go reads the same.
		return Outcome{Labels: []string{"kept " + c.Ctx}, Trivial: len(want) < 20}
	}
	goText := func(toks []string) string {
		var b strings.Builder
		prev := ""
		for i, t := range toks {
			if i > 0 && fused(prev, t) {
				b.WriteString(" ")
			}
			b.WriteString(t)
			prev = t
		}
		return b.String()
	}
	unsupported := []string{"a[0]", "a[i:j]", "T{}", "T{1, 2}", "func() {}", "func() int { return 1 }", "x.(T)", "[]int{1}", "[]byte(x)", "map[string]int{}", "[4]int{}", "struct{}{}", "interface{}(x)", "chan int(x)", "(<-chan int)(x)", "a[1:2:3]", "G[int](x)", "G[int, string]", "&T{x: 1}", "[...]int{}", "(func(int))(nil)", "make(chan int)", "make([]int, 3)", "x.(*T)", "func(x int) int { return x }(1)", "new(map[int]int)", "f(a[0]...)", "m[k].x", "(struct{ x int })(y)"}
	broken := []string{"", "a b", "a +", "+", ")", "a)", "(a", "f(a", "a..b", "a.", ".a", "a,b", "a:=b", "a=b", "a;b", "a++", "1_", "0x", "08", "'ab'", "\"a", "`a", "if", "a.type", "f(,)", "f(a,,b)", "f(...)", "f(a..., b)", "a ? b : c", "a !", "!", "a <> b", "a === b", "#", "$a", "a\\b", "/* c", "/*/", "x y", "()", "f()g()", "a.(", "type", "a->b", "'", "''", "1.2.3", "0b2", "a?", "a@b", "\"\\z\"", "'\\'", "a b // c"}
	ctxs := []string{"aux", "cond", "auxint"}
	register(&Prop{
		ID: "C05", Level: "exploration",
		Rule: "random Go expression trees of the supported kinds in all contexts, calls as values, trees with an unsupported construct put inside, and random sequences of Go tokens; compared with go/parser on the same text, before and after printing. Non-trivial: more than a name or literal, or refused.",
		Subs: []*Sub{
			mk("trees", 40000, 2000000, func(g *G) exprCase {
				ctx := g.pick(ctxs)
				x := g.gx(1+g.size(3, 6), gxctx{rawNL: ctx != "cond"})
				text := goText(gxTokens(x, nil))
				src := wrap(ctx, text)
				if g.chance(1) {
					r := &renderer{}
					gp := gGo
					if ctx == "cond" {
						gp = gCond
					}
					r.gx(gp, gp, x)
					src = wrap(ctx, g.layout(r.toks, 2))
				}
				return exprCase{src, ctx, text, canonGX(x)}
			}, checkExpr),
			mk("calls", 8000, 300000, func(g *G) exprCase {
				x := g.callval(4)
				text := goText(gxTokens(x, nil))
				r := &renderer{}
				r.callval(gNone, x)
				return exprCase{wrap("call", g.layout(r.toks, 2)), "call", text, canonGX(x)}
			}, checkExpr),
			mk("unsupported", 16000, 600000, func(g *G) exprCase {
				ctx := g.pick(ctxs)
				bad := g.pick(unsupported)
				x := &GX{K: "text", S: bad}
				if strings.HasPrefix(bad, "[") || strings.HasPrefix(bad, "&") || strings.HasPrefix(bad, "func") {
					x = paren(x)
				}
				for k := g.n(4); k > 0; k-- {
					other := g.gx(g.n(2), gxctx{})
					if other.K == "bin" {
						other = paren(other)
					}
					switch g.n(7) {
					case 0:
						x = paren(x)
					case 1:
						x = &GX{K: "un", S: "!", X: []*GX{paren(x)}}
					case 2:
						x = &GX{K: "call", X: []*GX{{K: "id", S: "f"}, other, x}}
					case 3:
						x = &GX{K: "bin", S: g.pick(binOps), X: []*GX{other, paren(x)}}
					case 4:
						x = &GX{K: "bin", S: g.pick(binOps), X: []*GX{paren(x), other}}
					case 5:
						x = &GX{K: "sel", S: "m", X: []*GX{paren(x)}}
					default:
						x = &GX{K: "star", X: []*GX{paren(x)}}
					}
				}
				var parts []string
				for _, t := range gxTokens(x, nil) {
					parts = append(parts, t)
				}
				text := strings.Join(parts, " ")
				return exprCase{wrap(ctx, text), ctx, text, ""}
			}, checkExpr),
			mk("tokens", 24000, 1200000, func(g *G) exprCase {
				ctx := g.pick([]string{"aux", "cond"})
				var toks []string
				operand := func() {
					switch g.n(10) {
					case 0:
						toks = append(toks, "(", g.ident(), ")")
					case 1:
						toks = append(toks, g.lit(gxctx{}).S)
					case 2:
						toks = append(toks, "f", "(", g.ident(), ")")
					case 3:
						toks = append(toks, g.pick([]string{"-", "!", "*", "&", "^", "+", "<-", "~"}), g.ident())
					case 4:
						toks = append(toks, g.ident(), ".", g.ident())
					case 5:
						toks = append(toks, g.pick([]string{"(", ")", "[", "]", ",", "...", ".", ";", ":", "=", "++", ":=", "type", "func", "x", "1", "f", "{"}))
					default:
						toks = append(toks, g.ident())
					}
				}
				operand()
				for k := g.size(4, 12); k > 0; k-- {
					if g.n(12) > 0 {
						toks = append(toks, g.pick(binOps))
					}
					operand()
				}
				if g.chance(3) {
					toks = []string{g.pick(broken)}
				}
				text := strings.Join(toks, " ")
				if g.chance(1) {
					text = goText(toks)
				}
				src := wrap(ctx, text)
				return exprCase{src, ctx, text, ""}
			}, func(c exprCase) Outcome {
				out := checkExpr(c)
				return out
			}),
			mk("rawstrings", 100, 2000, func(g *G) condCase {
				lit := g.pick(rawNLLits)
				x := &GX{K: "bin", S: "==", X: []*GX{{K: "id", S: g.ident()}, {K: "lit", S: lit}}}
				rs := []*Rule{{M: &Val{S: &SX{Op: []Part{{Lit: "A"}}}}, Cond: x, R: &Val{V: "y"}}}
				src := plainLayout(rtokens(rs, nil))
				return condCase{src, canonRules(rs), quirkOf(src), knownCondRaw}
			}, checkKnown),
		},
	})

	// ---- C06

	// compose is the printed form of a node, put together from the printed
	// forms of its parts.
	var compose func(n ast.Node) (string, error)
	prt := func(n ast.Node) (string, error) {
		b, err := printer.Bytes(n)
		return string(b), err
	}
	var firstErr error
	sub := func(n ast.Node) string {
		s, err := compose(n)
		if err != nil && firstErr == nil {
			firstErr = err
		}
		return s
	}
	compose = func(n ast.Node) (string, error) {
		got, err := prt(n)
		if err != nil {
			return "", fmt.Errorf("%T does not print: %v", n, err)
		}
		want := got
		switch x := n.(type) {
		case *ast.File:
			want = ""
			for _, r := range x.Rules {
				want += sub(r) + "\n"
			}
		case *ast.Rule:
			want = sub(x.Match)
			if x.Condition != nil {
				want += " && " + sub(x.Condition)
			}
			want += " => "
			if x.Block != "" {
				want += "@" + x.Block + " "
			}
			want += sub(x.Result)
		case *ast.SExpr:
			want = ""
			if x.Binding != "" {
				want = sub(x.Binding) + ":"
			}
			want += "(" + sub(x.Op)
			if x.Type != "" {
				want += " <" + string(x.Type) + ">"
			}
			if x.AuxInt != nil {
				want += " [" + sub(x.AuxInt) + "]"
			}
			if x.Aux != nil {
				want += " {" + sub(x.Aux) + "}"
			}
			for _, a := range x.Args {
				want += " " + sub(a)
			}
			if x.Ellipsis {
				want += " ..."
			}
			if x.Trailing {
				want += " ___"
			}
			want += ")"
		case ast.Variable:
			want = string(x)
		case ast.Opcode:
			want = string(x)
		case ast.OpcodeParts:
			want = ""
			for _, p := range x {
				switch q := p.(type) {
				case ast.Opcode:
					want += string(q)
				case ast.OpcodeAlt:
					ss := []string{}
					for _, a := range q {
						ss = append(ss, string(a))
					}
					want += "(" + strings.Join(ss, "|") + ")"
				}
			}
		}
		if firstErr != nil {
			return got, firstErr
		}
		if got != want {
			return got, fmt.Errorf("%T prints as %q, its parts as %q", n, got, want)
		}
		return got, nil
	}
	checkC06 := func(c layoutCase) Outcome {
		fa, err := parse.String(c.A)
		if err != nil {
			return Outcome{Trivial: true, Labels: []string{"rejected"}}
		}
		pa, err := prt(fa)
		if err != nil {
			return fail("%q does not print: %v", c.A, err)
		}
		if c.B != "" {
			fb, err := parse.String(c.B)
			if err != nil {
				return Outcome{Trivial: true, Labels: []string{"rejected"}}
			}
			pb, err := prt(fb)
			if err != nil {
				return fail("%q does not print: %v", c.B, err)
			}
			if pa != pb {
				return fail("two layouts print differently\ntext: %q\nprints as %q\ntext: %q\nprints as %q", c.A, pa, c.B, pb)
			}
		}
		again, err := parse.String(pa)
		if err != nil {
			return fail("printed text %q does not parse: %v", pa, err)
		}
		p2, err := prt(again)
		if err != nil || p2 != pa {
			return fail("printing is not stable (%v)\nfirst:  %q\nsecond: %q", err, pa, p2)
		}
		firstErr = nil
		if _, err := compose(fa); err != nil {
			return fail("text %q: %v", c.A, err)
		}
		return Outcome{Labels: []string{"accepted"}, Trivial: len(fa.Rules) == 0}
	}
	register(&Prop{
		ID: "C06", Level: "exploration",
		Rule: "the same random rules in two layouts, rule skeletons and mutated rules; both layouts must print alike, printed text must print itself after parsing, and every file, rule and s-expression must print as the composition of its parts. Non-trivial: accepted with at least one rule.",
		Subs: []*Sub{
			mk("layouts", 24000, 1200000, func(g *G) layoutCase {
				o := deepopts
				o.chain = 300 // every part is printed on its own
				rs := g.rules(o, 6)
				return layoutCase{g.source(rs), g.source(rs)}
			}, checkC06),
			mk("shaped", 16000, 800000, func(g *G) layoutCase { return layoutCase{A: g.shaped()} }, checkC06),
			mk("mutants", 16000, 800000, func(g *G) layoutCase { return layoutCase{A: strings.ToValidUTF8(g.mutate(g.seedText()), "?")} }, checkC06),
		},
	})
}

const hostile = "()[]{}<>=&_.:@,|/\"'`\\ \n\tx1A-!*"

// deepText builds deeply nested or very long text.
func deepText(kind string, n int) string {
	rep := strings.Repeat
	switch kind {
	case "sexpr":
		return rep("(A ", n) + "x" + rep(")", n) + " => y"
	case "unclosed":
		return rep("(A ", n)
	case "call":
		return rep("f(", n) + "x" + rep(")", n) + " => y"
	case "callunclosed":
		return rep("f(", n)
	case "paren":
		return "x && " + rep("(", n) + "x" + rep(")", n) + " => y"
	case "unary":
		return "x && " + rep("!", n) + "x => y"
	case "sum":
		return "x && x" + rep("+x", n) + " => y"
	case "alts":
		return "((A" + rep("|A", n) + ") x) => y"
	case "args":
		return "(A" + rep(" x", n) + ") => y"
	case "rules":
		return rep("x => y\n", n)
	case "comments":
		return rep("// c\n", n)
	case "aux":
		return "(A {f(" + rep("a, ", n) + "b)}) => y"
	case "binding":
		return rep("x:(A ", n) + "y" + rep(")", n) + " => y"
	case "andand":
		return "x" + rep(" && x", n) + " => y"
	case "selectors":
		return "x && x" + rep(".x", n) + " => y"
	}
	panic("bad kind " + kind)
}

// runDeep parses deep text in this process; a stack overflow ends it.
func runDeep(kind string, n int) {
	src := deepText(kind, n)
	f, err := parse.String(src)
	if (f == nil) == (err == nil) {
		fmt.Fprintln(os.Stderr, "file and error, or neither")
		os.Exit(1)
	}
}
