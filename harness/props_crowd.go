package main

// Files of far more rules than any at hand, made of a few rules.

import (
	"fmt"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
)

type crowdCase struct {
	Pool []*Rule `json:"pool"`
	Bad  *Rule   `json:"bad,omitempty"` // cannot be expanded
	N    int     `json:"n"`             // rules
	At   int     `json:"at"`            // of the bad one
	Step int     `json:"step"`          // from a rule of the pool to the next
}

// rule is which of the pool rule i is; -1 for the bad one.
func (c crowdCase) rule(i int) int {
	if c.Bad != nil && i == c.At {
		return -1
	}
	return (i*c.Step + i/97) % len(c.Pool)
}

func (c crowdCase) rules() []*Rule {
	rs := make([]*Rule, c.N)
	for i := range rs {
		if k := c.rule(i); k < 0 {
			rs[i] = c.Bad
		} else {
			rs[i] = c.Pool[k]
		}
	}
	return rs
}

func (c crowdCase) labels() []string {
	switch {
	case c.N > 10000:
		return []string{"over 10000 rules"}
	case c.N > 1000:
		return []string{"over 1000 rules"}
	}
	return []string{"up to 1000 rules"}
}

func genCrowd(bits int, bad bool) func(g *G) crowdCase {
	return func(g *G) crowdCase {
		o := fullopts
		o.depth, o.maxargs, o.nalt = 2, 4, 2+g.n(3)
		c := crowdCase{Step: 1 + g.n(30)}
		for k := 1 + g.n(6); k > 0; k-- {
			o.altk, o.condk = 1+g.n(4), g.n(3)
			c.Pool = append(c.Pool, g.consistentRule(o))
		}
		c.N = 1 << g.n(bits)
		if g.n(3) > 0 {
			c.N += g.n(c.N + 1)
		}
		if bad && g.chance(1) {
			c.Bad = &Rule{M: &Val{S: &SX{Op: []Part{{Alts: []string{"A", "B"}}, {Alts: []string{"1", "2", "3"}}}}}, R: &Val{V: "x"}}
			c.At = g.n(c.N)
			if g.n(3) == 0 {
				c.At = c.N - 1
			}
		}
		return c
	}
}

func addCrowd() {
	prints := func(rs []*Rule) ([]string, string) {
		var ts []string
		for _, r := range rs {
			b, err := printer.Bytes(toFile([]*Rule{r}).Rules[0])
			if err != nil {
				return nil, fmt.Sprintf("rule does not print: %v", err)
			}
			ts = append(ts, string(b)+"\n")
		}
		return ts, ""
	}
	// expansions of the pool, alone
	expand := func(rs []*Rule) ([][]*Rule, bool) {
		var es [][]*Rule
		for _, r := range rs {
			e, ok := expandModel([]*Rule{r})
			if !ok {
				return nil, false
			}
			es = append(es, e)
		}
		return es, true
	}
	crowdOf := map[string]*Sub{
		"C06": mk("crowd", 96, 4000, genCrowd(15, false), func(c crowdCase) Outcome {
			ts, msg := prints(c.Pool)
			if msg != "" {
				return fail("%s", msg)
			}
			var want strings.Builder
			for i := 0; i < c.N; i++ {
				want.WriteString(ts[c.rule(i)])
			}
			b, err := printer.Bytes(toFile(c.rules()))
			if err != nil {
				return fail("%d rules do not print: %v", c.N, err)
			}
			if string(b) != want.String() {
				return fail("%d rules do not print as one after the other\n%s", c.N, diff(string(b), want.String()))
			}
			return Outcome{Labels: c.labels()}
		}),
		"C01": mk("crowd", 64, 2000, genCrowd(14, false), func(c crowdCase) Outcome {
			var src strings.Builder
			var ts []string
			for _, r := range c.Pool {
				ts = append(ts, plainLayout(rtokens([]*Rule{r}, nil))+"\n")
			}
			for i := 0; i < c.N; i++ {
				src.WriteString(ts[c.rule(i)])
			}
			f, err := parse.String(src.String())
			if err != nil {
				return fail("%d rules rejected: %v", c.N, err)
			}
			if msg := sameRules(f.Rules, toFile(c.rules()).Rules); msg != "" {
				return fail("%s", msg)
			}
			return Outcome{Labels: c.labels()}
		}),
		"C08": mk("crowd", 96, 4000, genCrowd(14, false), func(c crowdCase) Outcome {
			es, ok := expand(c.Pool)
			if !ok {
				return Outcome{Infra: "generator: inconsistent groups"}
			}
			var want []*Rule
			for i := 0; i < c.N; i++ {
				want = append(want, es[c.rule(i)]...)
			}
			f := toFile(c.rules())
			if err := pass.ExpandAlternates(f); err != nil {
				return fail("%d rules do not expand: %v", c.N, err)
			}
			if msg := sameRules(f.Rules, toFile(want).Rules); msg != "" {
				return fail("%s", msg)
			}
			return Outcome{Labels: c.labels(), Trivial: len(want) == c.N}
		}),
		"C09": mk("crowd", 96, 4000, genCrowd(14, true), func(c crowdCase) Outcome {
			f := toFile(c.rules())
			before := append([]*ast.Rule(nil), f.Rules...)
			err := pass.ExpandAlternates(f)
			if msg := sameRules(before, toFile(c.rules()).Rules); msg != "" {
				return fail("expansion (error %v) modified the rules: %s", err, msg)
			}
			if c.Bad == nil {
				if err != nil {
					return fail("%d rules do not expand: %v", c.N, err)
				}
				once := append([]*ast.Rule(nil), f.Rules...)
				if err := pass.ExpandAlternates(f); err != nil {
					return fail("%d expanded rules do not expand: %v", len(once), err)
				}
				if msg := sameRules(f.Rules, once); msg != "" {
					return fail("expanding again: %s", msg)
				}
				return Outcome{Labels: append(c.labels(), "good")}
			}
			if err == nil {
				return fail("rule %d of %d has groups of different sizes, but is accepted", c.At, c.N)
			}
			if len(f.Rules) != c.N {
				return fail("failed expansion left %d of %d rules", len(f.Rules), c.N)
			}
			for i, r := range before {
				if f.Rules[i] != r {
					return fail("failed expansion replaced rule %d of %d", i, c.N)
				}
			}
			return Outcome{Labels: append(c.labels(), "bad")}
		}),
		"C10": mk("crowd", 64, 3000, genCrowd(14, false), func(c crowdCase) Outcome {
			f := toFile(c.rules())
			want := allNodes(f)
			i, bad := 0, ""
			ast.Inspect(f, func(n ast.Node) bool {
				if bad == "" && (i >= len(want) || !sameNode(n, want[i])) {
					bad = fmt.Sprintf("visit %d of %d is of %T %s", i, len(want), n, nodeText(n))
				}
				i++
				return true
			})
			if bad == "" && i != len(want) {
				bad = fmt.Sprintf("%d of %d nodes visited", i, len(want))
			}
			if bad != "" {
				return fail("%d rules: %s", c.N, bad)
			}
			return Outcome{Labels: c.labels()}
		}),
		"C19": mk("crowd", 64, 2000, genCrowd(13, false), func(c crowdCase) Outcome {
			f := toFile(c.rules())
			b, err := printer.Bytes(f)
			if err != nil {
				return fail("%d rules do not print: %v", c.N, err)
			}
			p, err := parse.String(string(b))
			if err != nil {
				return fail("%d printed rules rejected: %v", c.N, err)
			}
			if err := pass.ExpandAlternates(p); err != nil {
				return fail("%d rules do not expand: %v", c.N, err)
			}
			if err := pass.ExpandAlternates(f); err != nil {
				return fail("%d rules do not expand: %v", c.N, err)
			}
			x, err1 := printer.Bytes(f)
			y, err2 := printer.Bytes(p)
			if err1 != nil || err2 != nil {
				return fail("%d expanded rules do not print: %v, %v", c.N, err1, err2)
			}
			if string(x) != string(y) {
				return fail("%d rules: expanding, and printing and reparsing first, differ\n%s", c.N, diff(string(y), string(x)))
			}
			// In two files.
			half := &ast.File{Rules: toFile(c.rules()).Rules[:c.N/2]}
			rest := &ast.File{Rules: toFile(c.rules()).Rules[c.N/2:]}
			if err := pass.ExpandAlternates(half); err != nil {
				return fail("%d rules do not expand: %v", c.N/2, err)
			}
			if err := pass.ExpandAlternates(rest); err != nil {
				return fail("%d rules do not expand: %v", c.N-c.N/2, err)
			}
			if msg := sameRules(append(half.Rules, rest.Rules...), f.Rules); msg != "" {
				return fail("expanded as two files: %s", msg)
			}
			return Outcome{Labels: c.labels()}
		}),
	}
	for id, s := range crowdOf {
		props[id].Subs = append(props[id].Subs, s)
	}
}
