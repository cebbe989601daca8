package main

// Texts far larger than any rule file at hand: limits of buffers, counters
// and readers lie there.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/printer"
)

type hugeCase struct {
	Unit  string `json:"unit"`  // valid rules
	Times int    `json:"times"` // how often they are repeated
	Pad   string `json:"pad"`   // what else is there
	Size  int    `json:"size"`  // its size
	At    int    `json:"at"`    // after so many repetitions
	Bad   bool   `json:"bad"`   // a syntax error ends the text
	Chunk int    `json:"chunk"` // size of the pieces a reader gives
}

var hugePads = []string{"none", "comment", "comments", "blank", "spaces", "crlf", "name", "args", "alternatives", "nested", "go name", "go sum", "go string", "block", "type"}

// hugePad returns the padding and how many rules it has.
func hugePad(kind string, n int) (string, int) {
	rep := strings.Repeat
	switch kind {
	case "none":
		return "", 0
	case "comment":
		return "// " + rep("c", n) + "\n", 0
	case "comments":
		return rep("// (A x) => y\n", n/14), 0
	case "blank":
		return rep("\n", n), 0
	case "spaces":
		return rep(" \t", n/2) + "\n", 0
	case "crlf":
		return rep("\r\n", n/2), 0
	case "name":
		return "(" + rep("N", n) + " x) => y\n", 1
	case "args":
		return "(A" + rep(" x", n/2) + ") => y\n", 1
	case "alternatives":
		return "((A" + rep("|B", n/2) + ") x) => y\n", 1
	case "nested":
		n /= 64 // the stack is known to be finite
		return rep("(A ", n/3) + "x" + rep(")", n/3) + " => y\n", 1
	case "go name":
		return "(A {" + rep("n", n) + "}) => y\n", 1
	case "go sum":
		return "x && a" + rep("+b", n/64) + " => y\n", 1
	case "go string":
		return "(A {\"" + rep("s", n) + "\"}) => y\n", 1
	case "block":
		return "x => @" + rep("b", n) + " y\n", 1
	case "type":
		return "(A <" + rep("t", n) + "> x) => y\n", 1
	}
	panic("bad kind " + kind)
}

func (c hugeCase) text() (text string, parts []string) {
	pad, _ := hugePad(c.Pad, c.Size)
	u := c.Unit + "\n"
	parts = []string{strings.Repeat(u, c.At), pad, strings.Repeat(u, c.Times-c.At)}
	text = strings.Join(parts, "")
	if c.Bad {
		text += "(A x => y\n"
	}
	return
}

func genHuge(max int) func(g *G) hugeCase {
	return func(g *G) hugeCase {
		rs := []*Rule{g.realRule(fullopts)}
		if g.chance(1) {
			o := fullopts
			o.depth, o.maxargs = 2, 4
			rs = g.rules(o, 4)
		}
		c := hugeCase{Unit: g.source(rs), Pad: g.pick(hugePads), Bad: g.n(4) == 0}
		if len(c.Unit) > 2000 {
			c.Unit = g.pick(corpus)
		}
		total := 1 << (12 + g.n(10))
		if g.n(3) == 0 {
			total = total * (2 + g.n(4)) / 2
		}
		for total > max {
			total /= 2
		}
		c.Times = 1 + total/(len(c.Unit)+1)
		if c.Pad != "none" {
			c.Times = 1 + c.Times/16
		}
		if c.Times > 1 && g.chance(1) {
			c.Times = 1 + g.n(c.Times)
		}
		c.Size = total + g.n(5) - 2
		c.At = g.n(c.Times + 1)
		c.Chunk = g.pickN([]int{0, 1, 7, 511, 4096, 65536, 65537, 1 << 20})
		return c
	}
}

// hugeWant parses the unit and the padding by themselves.
func hugeWant(c hugeCase) ([]*ast.Rule, string) {
	u, err := parse.String(c.Unit)
	if err != nil {
		return nil, fmt.Sprintf("valid text rejected: %v\ntext: %q", err, c.Unit)
	}
	var rules []*ast.Rule
	for i := 0; i <= c.Times; i++ {
		if i == c.At {
			pad, n := hugePad(c.Pad, c.Size)
			p, err := parse.String(pad)
			if err != nil {
				return nil, fmt.Sprintf("valid text rejected: %v\ntext: %s of size %d", err, c.Pad, c.Size)
			}
			if len(p.Rules) != n {
				return nil, fmt.Sprintf("%d rules instead of %d in %s of size %d", len(p.Rules), n, c.Pad, c.Size)
			}
			if msg := hugePadCheck(c, p); msg != "" {
				return nil, fmt.Sprintf("%s in %s of size %d", msg, c.Pad, c.Size)
			}
			rules = append(rules, p.Rules...)
		}
		if i < c.Times {
			rules = append(rules, u.Rules...)
		}
	}
	return rules, ""
}

// hugePadCheck checks that the whole of the padding is in its rule, by
// counting what the printed rule repeats.
func hugePadCheck(c hugeCase, f *ast.File) string {
	pad, n := hugePad(c.Pad, c.Size)
	if n == 0 {
		return ""
	}
	if c.Pad == "go sum" {
		pad = strings.ReplaceAll(pad, "+", " + ")
	}
	if got := canonFile(f); len(got) < len(pad)/2 {
		return fmt.Sprintf("only %d bytes of %d remain", len(got), len(pad))
	}
	b, err := printer.Bytes(f)
	if err != nil {
		return "cannot be printed: " + err.Error()
	}
	squeeze := func(s string) string { return strings.Map(dropSpace, s) }
	if squeeze(string(b)) != squeeze(pad) {
		return fmt.Sprintf("printed, it has %d bytes instead of %d", len(b), len(pad))
	}
	return ""
}

func dropSpace(r rune) rune {
	if r == ' ' || r == '\n' {
		return -1
	}
	return r
}

func sameRules(a, b []*ast.Rule) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d rules instead of %d", len(a), len(b))
	}
	for i := range a {
		if !sameTree(a[i], b[i]) {
			return fmt.Sprintf("rule %d differs\n%s", i, diff(canonAstRules(a[i:i+1]), canonAstRules(b[i:i+1])))
		}
	}
	return ""
}

func (c hugeCase) describe() string {
	return fmt.Sprintf("text: %q %d times, %s of size %d after %d", c.Unit, c.Times, c.Pad, c.Size, c.At)
}

// checkHuge compares the parse of the whole with that of the parts.
func checkHuge(c hugeCase, ways func(text string) (string, []string, []*ast.File, []error)) Outcome {
	want, msg := hugeWant(c)
	if msg != "" {
		return fail("%s", msg)
	}
	text, _ := c.text()
	infra, names, files, errs := ways(text)
	if infra != "" {
		return Outcome{Infra: infra}
	}
	for i, f := range files {
		if c.Bad {
			if errs[i] == nil {
				return fail("from a %s: the syntax error that ends the text goes unnoticed\n%s", names[i], c.describe())
			}
			if f != nil {
				return fail("from a %s: rules as well as error %v", names[i], errs[i])
			}
			continue
		}
		if errs[i] != nil {
			return fail("from a %s: valid text rejected: %v\n%s", names[i], errs[i], c.describe())
		}
		if msg := sameRules(f.Rules, want); msg != "" {
			return fail("from a %s: %s\n%s", names[i], msg, c.describe())
		}
	}
	size := "<64K"
	switch n := len(text); {
	case n >= 1<<20:
		size = ">=1M"
	case n >= 1<<16:
		size = "64K-1M"
	}
	return Outcome{Labels: []string{size, c.Pad}}
}

func addHuge() {
	hugeOf := map[string]*Sub{
		"C01": mk("huge", 96, 3000, genHuge(1<<21), func(c hugeCase) Outcome {
			return checkHuge(c, func(text string) (string, []string, []*ast.File, []error) {
				f, err := parse.String(text)
				return "", []string{"string"}, []*ast.File{f}, []error{err}
			})
		}),
		"C17": mk("huge", 80, 3000, genHuge(1<<21), func(c hugeCase) Outcome {
			return checkHuge(c, func(text string) (string, []string, []*ast.File, []error) {
				r := &chunkReader{text: text, failAt: -1}
				for k := 0; k < 4 && c.Chunk > 0; k++ {
					r.sizes = append(r.sizes, c.Chunk)
				}
				if c.Chunk >= 4096 {
					for k := len(text) / c.Chunk; k > 0; k-- {
						r.sizes = append(r.sizes, c.Chunk)
					}
				}
				path := filepath.Join(env.Scratch, fmt.Sprintf("huge%d", os.Getpid()))
				if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
					return err.Error(), nil, nil, nil
				}
				defer os.Remove(path)
				s, e1 := parse.String(text)
				rd, e2 := parse.Reader("huge", r)
				f, e3 := parse.File(path)
				return "", []string{"string", "reader", "file"}, []*ast.File{s, rd, f}, []error{e1, e2, e3}
			})
		}),
		"C04": mk("huge", 64, 2000, genHuge(1<<20), func(c hugeCase) Outcome {
			c.Bad = false
			return checkHuge(c, func(text string) (string, []string, []*ast.File, []error) {
				f, err := parse.String(text)
				if err != nil {
					return "", []string{"string"}, []*ast.File{f}, []error{err}
				}
				b, err := printer.Bytes(f)
				if err != nil {
					return "", []string{"printer"}, []*ast.File{nil}, []error{err}
				}
				back, err := parse.Reader("printed", bytes.NewReader(b))
				return "", []string{"string", "printed text"}, []*ast.File{f, back}, []error{nil, err}
			})
		}),
	}
	for id, s := range hugeOf {
		props[id].Subs = append(props[id].Subs, s)
	}
}
