package main

// C07-C11 and C20: properties of trees. Trees are built from models without
// the parser, except where the property is about parsed trees.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	goast "go/ast"
	gotoken "go/token"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/rules"
)

// faultWriter fails once at a given write or byte, then again for ever or not
// at all.
type faultWriter struct {
	atWrite   int // fails at this write, from 1; 0 for never
	atByte    int // fails at the first byte beyond this many; -1 for never
	partial   int // bytes accepted by the failing write, for atWrite
	transient bool
	err       error

	writes int
	failed bool
	later  int // bytes accepted after the failure
	buf    bytes.Buffer
}

func (w *faultWriter) Write(b []byte) (int, error) {
	w.writes++
	if w.failed {
		if !w.transient {
			return 0, w.err
		}
		w.later += len(b)
		w.buf.Write(b)
		return len(b), nil
	}
	if w.atWrite == w.writes {
		w.failed = true
		n := w.partial
		if n > len(b) {
			n = len(b)
		}
		w.buf.Write(b[:n])
		return n, w.err
	}
	if w.atByte >= 0 && w.buf.Len()+len(b) > w.atByte {
		w.failed = true
		n := w.atByte - w.buf.Len()
		w.buf.Write(b[:n])
		return n, w.err
	}
	w.buf.Write(b)
	return len(b), nil
}

var sinkErrors = []error{
	&sinkError{"verif: sink failed"}, syscall.EPIPE, io.EOF, syscall.EAGAIN, io.ErrShortWrite, syscall.ENOSPC, io.ErrClosedPipe,
	&os.PathError{Op: "write", Path: "/x", Err: syscall.ENOSPC}, os.ErrClosed, io.ErrUnexpectedEOF, syscall.EINTR, &passingError{},
	context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded, io.ErrNoProgress, fmt.Errorf("wrapped: %w", io.EOF),
	&os.PathError{Op: "write", Path: "|1", Err: syscall.EPIPE}, io.ErrShortBuffer, syscall.ECONNRESET, errors.New(""), errors.New("short write"),
}

// passingError says that it is temporary and a timeout.
type passingError struct{}

func (*passingError) Error() string   { return "verif: try again" }
func (*passingError) Temporary() bool { return true }
func (*passingError) Timeout() bool   { return true }

type sinkError struct{ text string }

func (e *sinkError) Error() string { return e.text }

// carries reports whether err carries the failure.
func carries(err, failure error) bool {
	return err != nil && (errors.Is(err, failure) || strings.Contains(err.Error(), failure.Error()))
}

// childNodes lists the children of a node in the order in which a traversal
// is specified to visit them.
func childNodes(n ast.Node) []ast.Node {
	var out []ast.Node
	switch x := n.(type) {
	case *ast.File:
		for _, r := range x.Rules {
			out = append(out, r)
		}
	case *ast.Rule:
		out = append(out, x.Match)
		if x.Condition != nil {
			out = append(out, x.Condition)
		}
		out = append(out, x.Result)
	case *ast.SExpr:
		out = append(out, x.Op)
		if x.AuxInt != nil {
			out = append(out, x.AuxInt)
		}
		if x.Aux != nil {
			out = append(out, x.Aux)
		}
		for _, a := range x.Args {
			out = append(out, a)
		}
	case ast.OpcodeParts:
		for _, p := range x {
			out = append(out, p)
		}
	}
	return out
}

func allNodes(n ast.Node) []ast.Node {
	out := []ast.Node{n}
	for _, c := range childNodes(n) {
		out = append(out, allNodes(c)...)
	}
	return out
}

func sameNode(a, b ast.Node) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Ptr:
		return va.Pointer() == vb.Pointer()
	case reflect.Slice:
		return va.Len() == vb.Len() && va.Pointer() == vb.Pointer()
	}
	return a == b
}

func nodeText(n ast.Node) string {
	b, err := printer.Bytes(n)
	if err != nil {
		return fmt.Sprintf("%T", n)
	}
	return fmt.Sprintf("%T %s", n, b)
}

type treeVisitor struct {
	id    int
	log   *[]visit
	prune []bool
}

type visit struct {
	by   int // id of the visitor
	node ast.Node
	ret  int // id of the visitor returned, or -1
}

func (v *treeVisitor) Visit(n ast.Node) ast.Visitor {
	i := len(*v.log)
	if i < len(v.prune) && v.prune[i] {
		*v.log = append(*v.log, visit{v.id, n, -1})
		return nil
	}
	w := &treeVisitor{i + 1, v.log, v.prune}
	*v.log = append(*v.log, visit{v.id, n, w.id})
	return w
}

// oddCase is a file with something at one place that no parser makes.
type oddCase struct {
	Rules []*Rule `json:"rules"`
	Place int     `json:"place"`
	What  string  `json:"what"`
}

// Values, operators and parts of other types.
type (
	alienValue struct{ ast.Value }
	alienOp    struct{ ast.Op }
	alienPart  struct{ ast.OpPart }
)

var oddities = []string{"no match", "no result", "other match", "other result", "no argument", "other argument", "no operator", "other operator", "no parts", "no part", "other part", "empty group", "empty first group", "empty last group"}

// plantOddity puts it there and says what it is.
func plantOddity(f *ast.File, place int, what string) string {
	var alien ast.Value = alienValue{ast.Variable("x")}
	r := f.Rules[place%len(f.Rules)]
	var ss []*ast.SExpr
	for _, n := range allNodes(r) {
		if s, ok := n.(*ast.SExpr); ok {
			ss = append(ss, s)
		}
	}
	if len(ss) == 0 {
		s := &ast.SExpr{Op: ast.Opcode("A")}
		r.Match, ss = s, []*ast.SExpr{s}
	}
	s := ss[place/len(f.Rules)%len(ss)]
	at := place % (len(s.Args) + 1)
	switch what {
	case "no match":
		r.Match = nil
	case "no result":
		r.Result = nil
	case "other match":
		r.Match = alien
	case "other result":
		r.Result = alien
	case "no argument":
		s.Args = append(s.Args[:at:at], append([]ast.Value{nil}, s.Args[at:]...)...)
	case "other argument":
		s.Args = append(s.Args[:at:at], append([]ast.Value{alien}, s.Args[at:]...)...)
	case "no operator":
		s.Op = nil
	case "other operator":
		s.Op = alienOp{ast.Opcode("A")}
	case "no parts":
		s.Op = ast.OpcodeParts{}
	case "no part":
		s.Op = ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{"8", "16"}, nil}
	case "other part":
		s.Op = ast.OpcodeParts{ast.OpcodeAlt{"8", "16"}, alienPart{ast.Opcode("A")}}
	case "empty group":
		s.Op = ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{}}
	case "empty first group":
		s.Op = ast.OpcodeParts{ast.OpcodeAlt{}, ast.Opcode("A"), ast.OpcodeAlt{"8", "16"}}
	case "empty last group":
		s.Op = ast.OpcodeParts{ast.Opcode("A"), ast.OpcodeAlt{"8", "16"}, ast.OpcodeAlt{}}
	}
	return what
}

func init() {
	// ---- C07

	type faultCase struct {
		Rules []*Rule `json:"rules"`
		Pick  int     `json:"pick"`  // which node of the tree
		Dump  bool    `json:"dump"`  // debug dump rather than printing
		Write int     `json:"write"` // seeds of the place of the fault
		Byte  int     `json:"byte"`
		Part  int     `json:"part"`
		All   bool    `json:"all"` // every place
		Err   int     `json:"err"` // which error
		Bad   bool    `json:"bad"` // the tree ends in something unsupported
	}
	checkFault := func(c faultCase) Outcome {
		nodes := []ast.Node{toFile(c.Rules)}
		if c.Pick > 0 {
			all := []ast.Node{}
			for _, n := range allNodes(nodes[0]) {
				switch n.(type) {
				case *ast.Rule, ast.Value, ast.Op:
					all = append(all, n)
				}
			}
			nodes = []ast.Node{all[c.Pick%len(all)]}
		}
		node := nodes[0]
		show := func(w io.Writer) error {
			if c.Dump {
				return ast.Fprint(w, node)
			}
			return printer.Fprint(w, node)
		}
		if c.Bad {
			f := nodes[0].(*ast.File)
			f.Rules[len(f.Rules)-1].Result = &ast.Expr{Expr: &goast.BadExpr{}}
		}
		full := &faultWriter{atByte: -1}
		if err := show(full); (err != nil) != c.Bad {
			return fail("printing %T fails without a fault: %v", node, err)
		}
		want := full.buf.String()
		sink := sinkErrors[c.Err%len(sinkErrors)]
		try := func(w *faultWriter) string {
			w.err = sink
			err := show(w)
			if !w.failed {
				return "" // the fault was beyond the last write
			}
			place := fmt.Sprintf("%s of %s, fault at write %d, byte %d, %d bytes accepted, transient %v", map[bool]string{true: "dump", false: "print"}[c.Dump], nodeText(node), w.atWrite, w.atByte, w.partial, w.transient)
			if err == nil {
				return place + ": reported success"
			}
			if !carries(err, sink) {
				return fmt.Sprintf("%s: error %q does not carry the failure", place, err)
			}
			got := w.buf.String()
			if w.later > 0 {
				return fmt.Sprintf("%s: %d bytes written after the failure: %q", place, w.later, got)
			}
			if !strings.HasPrefix(want, got) {
				return fmt.Sprintf("%s: wrote %q, not a prefix of %q", place, got, want)
			}
			return ""
		}
		var faults []*faultWriter
		if c.All && full.writes <= 400 && len(want) <= 2000 {
			for k := 1; k <= full.writes; k++ {
				faults = append(faults, &faultWriter{atWrite: k, atByte: -1}, &faultWriter{atWrite: k, atByte: -1, transient: true}, &faultWriter{atWrite: k, atByte: -1, partial: 1, transient: true})
			}
			for b := 0; b < len(want); b++ {
				faults = append(faults, &faultWriter{atByte: b})
			}
		} else if full.writes > 0 {
			k := 1 + c.Write%full.writes
			faults = append(faults, &faultWriter{atWrite: k, atByte: -1, partial: c.Part}, &faultWriter{atWrite: k, atByte: -1, partial: c.Part, transient: true})
			// The last writes are as good a place as any.
			faults = append(faults, &faultWriter{atWrite: full.writes, atByte: -1}, &faultWriter{atWrite: full.writes, atByte: -1, partial: 1 << 20})
			if len(want) > 0 {
				faults = append(faults, &faultWriter{atByte: c.Byte % len(want)}, &faultWriter{atByte: c.Byte % len(want), transient: true}, &faultWriter{atByte: len(want) - 1})
			}
		}
		for _, w := range faults {
			if m := try(w); m != "" {
				return fail("%s", m)
			}
		}
		l := []string{"print"}
		if c.Dump {
			l[0] = "dump"
		}
		if c.All {
			l = append(l, l[0]+" every place")
		}
		return Outcome{Labels: l, Trivial: len(faults) < 4}
	}
	unsupported := func() []goast.Expr {
		x := func() goast.Expr { return &goast.Ident{Name: "x"} }
		return []goast.Expr{
			&goast.IndexExpr{X: x(), Index: x()},
			&goast.SliceExpr{X: x()},
			&goast.TypeAssertExpr{X: x(), Type: x()},
			&goast.CompositeLit{Type: x()},
			&goast.CompositeLit{Type: x(), Elts: []goast.Expr{x()}},
			&goast.FuncLit{Type: &goast.FuncType{Params: &goast.FieldList{}}, Body: &goast.BlockStmt{}},
			&goast.KeyValueExpr{Key: x(), Value: x()},
			&goast.ArrayType{Elt: x()},
			&goast.MapType{Key: x(), Value: x()},
			&goast.ChanType{Value: x()},
			&goast.StructType{Fields: &goast.FieldList{}},
			&goast.InterfaceType{Methods: &goast.FieldList{}},
			&goast.FuncType{Params: &goast.FieldList{}},
			&goast.Ellipsis{Elt: x()},
			&goast.BadExpr{},
			nil,
		}
	}
	type badCase struct {
		Rules []*Rule `json:"rules"`
		Place int     `json:"place"` // where
		What  int     `json:"what"`  // what is unsupported there
		Wrap  []int   `json:"wrap"`  // around an unsupported Go expression
	}
	checkBad := func(c badCase) Outcome {
		f := toFile(c.Rules)
		us := unsupported()
		bad := us[c.What%len(us)]
		x := func() goast.Expr { return &goast.Ident{Name: "x"} }
		for _, k := range c.Wrap {
			switch k {
			case 0:
				bad = &goast.ParenExpr{X: bad}
			case 1:
				bad = &goast.UnaryExpr{Op: gotoken.SUB, X: bad}
			case 2:
				bad = &goast.BinaryExpr{X: bad, Op: gotoken.ADD, Y: x()}
			case 3:
				bad = &goast.BinaryExpr{X: x(), Op: gotoken.LAND, Y: bad}
			case 4:
				bad = &goast.CallExpr{Fun: x(), Args: []goast.Expr{x(), bad}}
			case 5:
				bad = &goast.CallExpr{Fun: bad}
			case 6:
				bad = &goast.StarExpr{X: bad}
			case 7:
				bad = &goast.SelectorExpr{X: bad, Sel: &goast.Ident{Name: "y"}}
			default:
				bad = &goast.CallExpr{Fun: x(), Args: []goast.Expr{x(), bad}, Ellipsis: 1}
			}
		}
		// All places where something unsupported can be put.
		var places []func()
		label := ""
		for i := range f.Rules {
			r := f.Rules[i]
			places = append(places, func() { r.Condition = &ast.Expr{Expr: bad}; label = "condition" },
				func() { r.Match = &ast.Expr{Expr: bad}; label = "match expression" },
				func() { r.Result = &ast.Expr{Expr: bad}; label = "result expression" },
				func() { r.Match = nil; label = "no match" },
				func() { r.Result = nil; label = "no result" })
			for _, n := range allNodes(r) {
				s, ok := n.(*ast.SExpr)
				if !ok {
					continue
				}
				places = append(places, func() { s.AuxInt = &ast.Expr{Expr: bad}; label = "auxint" },
					func() { s.Aux = &ast.Expr{Expr: bad}; label = "aux" },
					func() { s.Args = append(s.Args, &ast.Expr{Expr: bad}); label = "argument expression" },
					func() { s.Args = append(s.Args, nil); label = "nil argument" },
					func() { s.Op = nil; label = "no operator" },
					func() { s.Op = ast.OpcodeParts{ast.Opcode("A"), nil}; label = "nil operator part" })
			}
		}
		// Nodes that print as part of others but need not on their own.
		if b, err := printer.Bytes(nil); err == nil {
			return fail("no node printed as %q", b)
		}
		for _, n := range allNodes(f) {
			alt, ok := n.(ast.OpcodeAlt)
			if !ok {
				continue
			}
			text := "("
			for i, o := range alt {
				if i > 0 {
					text += "|"
				}
				text += string(o)
			}
			if b, err := printer.Bytes(alt); err == nil && string(b) != text+")" {
				return fail("the group %s) on its own printed as %q", text, b)
			}
		}
		places[c.Place%len(places)]()
		broken := 0
		for _, r := range f.Rules {
			_, err := printer.Bytes(r)
			if err != nil {
				broken++
			}
		}
		if broken != 1 {
			return fail("unsupported %T as %s: %d of the rules fail to print on their own", us[c.What%len(us)], label, broken)
		}
		if b, err := printer.Bytes(f); err == nil {
			return fail("unsupported %T as %s printed as %q", us[c.What%len(us)], label, b)
		} else if b != nil {
			return fail("unsupported %T as %s: error %v and output %q", us[c.What%len(us)], label, err, b)
		}
		var buf bytes.Buffer
		if err := printer.Fprint(&buf, f); err == nil {
			return fail("unsupported %T as %s printed as %q", us[c.What%len(us)], label, buf.String())
		}
		return Outcome{Labels: []string{label}}
	}
	type stdoutCase struct {
		Rules []*Rule `json:"rules"`
		Pick  int     `json:"pick"`
		Dump  bool    `json:"dump"`
		Kind  string  `json:"kind"` // of standard output
	}
	checkStdout := func(c stdoutCase) Outcome {
		var node ast.Node = toFile(c.Rules)
		if c.Pick > 0 {
			all := []ast.Node{}
			for _, n := range allNodes(node) {
				switch n.(type) {
				case *ast.Rule, ast.Value, ast.Op:
					all = append(all, n)
				}
			}
			node = all[c.Pick%len(all)]
		}
		show, print, what := printer.Fprint, printer.Print, "print"
		if c.Dump {
			show, print, what = ast.Fprint, ast.Print, "dump"
		}
		var want bytes.Buffer
		if err := show(&want, node); err != nil {
			return fail("%s of %T fails: %v", what, node, err)
		}
		var out, peer *os.File
		var err, sink error
		path := filepath.Join(env.Scratch, fmt.Sprintf("stdout%d", os.Getpid()))
		got := make(chan string, 1)
		switch c.Kind {
		case "file", "closed":
			out, err = os.Create(path)
			if c.Kind == "closed" && err == nil {
				out.Close()
				sink = os.ErrClosed
			}
		case "read only":
			if err = os.WriteFile(path, nil, 0o644); err == nil {
				out, err = os.Open(path)
			}
			sink = syscall.EBADF
		case "full":
			out, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
			sink = syscall.ENOSPC
		default:
			peer, out, err = os.Pipe()
			if c.Kind == "no reader" {
				peer.Close()
				sink = syscall.EPIPE
			} else if err == nil {
				go func() {
					b, _ := io.ReadAll(peer)
					peer.Close()
					got <- string(b)
				}()
			}
		}
		if err != nil {
			return Outcome{Infra: err.Error()}
		}
		stdout := os.Stdout
		func() {
			defer func() { os.Stdout = stdout }()
			os.Stdout = out
			err = print(node)
		}()
		out.Close()
		res := Outcome{Labels: []string{what + " to " + c.Kind}, Trivial: want.Len() == 0}
		if sink != nil {
			if want.Len() > 0 && (err == nil || !carries(err, sink)) {
				return fail("%s of %s to standard output (%s): error %v", what, nodeText(node), c.Kind, err)
			}
			return res
		}
		if err != nil {
			return fail("%s of %s to standard output (%s): error %v", what, nodeText(node), c.Kind, err)
		}
		text := ""
		if c.Kind == "pipe" {
			text = <-got
		} else {
			b, err := os.ReadFile(path)
			if err != nil {
				return Outcome{Infra: err.Error()}
			}
			text = string(b)
		}
		if text != want.String() {
			return fail("%s of %s to standard output and to a writer differ\n%s", what, nodeText(node), diff(text, want.String()))
		}
		return res
	}
	small := fullopts
	small.maxargs, small.depth = 4, 2
	register(&Prop{
		ID: "C07", Level: "fault_enumeration",
		Rule: "random files, rules, values and operators printed or dumped to a writer that fails at one write or byte, once or for good, accepting part of the data; for small trees at every write and byte; printed and dumped to standard outputs that work and that fail. And trees with one unsupported node at a random place. Non-trivial: at least four faults injected, or an unsupported node.",
		Subs: []*Sub{
			mk("everyplace", 800, 40000, func(g *G) faultCase {
				c := faultCase{Dump: g.chance(2), All: true, Err: g.n(len(sinkErrors))}
				for k := 1 + g.n(2); k > 0; k-- {
					c.Rules = append(c.Rules, g.rule(small))
				}
				if g.chance(1) {
					c.Pick = g.n(50)
				}
				return c
			}, checkFault),
			mk("someplace", 16000, 600000, func(g *G) faultCase {
				c := faultCase{Rules: g.rules(fullopts, 6), Dump: g.chance(2), Write: g.n(100000), Byte: g.n(100000), Part: g.n(8), Err: g.n(len(sinkErrors))}
				if g.chance(1) {
					c.Pick = g.n(50)
				}
				return c
			}, checkFault),
			mk("both", 8000, 300000, func(g *G) faultCase {
				o := small
				o.condk, o.featk = 4, 8
				return faultCase{Rules: g.rules(o, 3), Write: g.n(100000), Byte: g.n(100000), Part: g.n(8), Err: g.n(len(sinkErrors)), Bad: true, All: g.chance(4)}
			}, checkFault),
			mk("stdout", 4000, 100000, func(g *G) stdoutCase {
				c := stdoutCase{Rules: g.rules(fullopts, 4), Dump: g.chance(1), Kind: g.pick([]string{"file", "file", "pipe", "full", "closed", "read only", "no reader"})}
				if g.chance(1) {
					c.Pick = g.n(50)
				}
				return c
			}, checkStdout),
			mk("unsupported", 16000, 600000, func(g *G) badCase {
				c := badCase{Rules: g.rules(small, 3), Place: g.n(200), What: g.n(100)}
				for k := g.n(4); k > 0; k-- {
					c.Wrap = append(c.Wrap, g.n(9))
				}
				return c
			}, checkBad),
		},
	})

	// ---- C08

	type expandCase struct {
		Rules []*Rule `json:"rules"`
	}
	expandLabels := func(rs []*Rule) ([]string, bool) {
		set := map[string]bool{}
		triv := true
		for _, r := range rs {
			ns := r.altCounts()
			if len(ns) > 0 {
				triv = false
			}
			if len(ns) >= 3 {
				set["groups>=3"] = true
			}
			for _, n := range ns {
				if n >= 8 {
					set["alternatives>=8"] = true
				}
			}
			m, res := 0, 0
			(&Rule{M: r.M, R: &Val{V: "x"}}).walkS(func(s *SX) { m += opGroups(s.Op) })
			(&Rule{M: r.R, R: &Val{V: "x"}}).walkS(func(s *SX) { res += opGroups(s.Op) })
			switch {
			case m > 0 && res > 0:
				set["both sides"] = true
			case m > 0:
				set["match only"] = true
			case res > 0:
				set["result only"] = true
			default:
				set["no groups"] = true
			}
		}
		var l []string
		for k := range set {
			l = append(l, k)
		}
		return l, triv
	}
	checkExpand := func(c expandCase) Outcome {
		want, ok := expandModel(c.Rules)
		if !ok {
			return Outcome{Infra: "generator: inconsistent groups"}
		}
		wantText := canonRules(want)
		f := toFile(c.Rules)
		if err := pass.ExpandAlternates(f); err != nil {
			return fail("expansion of consistent rules fails: %v\nrules:\n%s", err, canonRules(c.Rules))
		}
		if got := canonFile(f); got != wantText {
			return fail("rules:\n%s%s", canonRules(c.Rules), diff(got, wantText))
		}
		// The same from text, against the rules written out one by one.
		src := plainLayout(rtokens(c.Rules, nil))
		p, err := parse.String(src)
		if err != nil {
			return fail("text %q rejected: %v", src, err)
		}
		if err := pass.ExpandAlternates(p); err != nil {
			return fail("expansion of %q fails: %v", src, err)
		}
		wsrc := plainLayout(rtokens(want, nil))
		w, err := parse.String(wsrc)
		if err != nil {
			return fail("text %q rejected: %v", wsrc, err)
		}
		if !sameTree(p, w) {
			return fail("expanding %q and writing the rules out differ:\n%s", src, diff(canonFile(p), canonFile(w)))
		}
		l, triv := expandLabels(c.Rules)
		return Outcome{Labels: l, Trivial: triv}
	}
	register(&Prop{
		ID: "C08", Level: "exploration",
		Rule: "random rules whose alternation groups, in any number of operators on both sides, all have the same number of alternatives, in files with rules without groups; the expansion is compared with the model's and with parsing the rules written out. Non-trivial: at least one group.",
		Subs: []*Sub{
			mk("expand", 32000, 1600000, func(g *G) expandCase {
				var c expandCase
				for k := 1 + g.size(2, 10); k > 0; k-- {
					o := deepopts
					o.altk = 1 + g.n(4)
					o.maxargs = 20
					c.Rules = append(c.Rules, g.consistentRule(o))
				}
				c.Rules = g.echoes(c.Rules)
				return c
			}, checkExpand),
			mk("large", 160, 8000, func(g *G) expandCase {
				o := small
				o.altk = 1
				o.nalt = 2 + g.n(300)
				o.featk = 4
				return expandCase{[]*Rule{g.rule(o), g.rule(o)}}
			}, checkExpand),
		},
	})

	// ---- C09

	checkAtomic := func(c expandCase) Outcome {
		want, ok := expandModel(c.Rules)
		f, twin := toFile(c.Rules), toFile(c.Rules)
		before := append([]*ast.Rule(nil), f.Rules...)
		slice := f.Rules
		err := pass.ExpandAlternates(f)
		for i, r := range before {
			if !sameTree(r, twin.Rules[i]) {
				return fail("expansion (error %v) modified rule %d it was given\n%s", err, i, diff(canonAstRules([]*ast.Rule{r}), canonAstRules([]*ast.Rule{twin.Rules[i]})))
			}
		}
		l, _ := expandLabels(c.Rules)
		if !ok {
			if err == nil {
				return fail("groups of different sizes accepted:\n%s", canonRules(c.Rules))
			}
			if len(f.Rules) != len(before) {
				return fail("failed expansion left %d of %d rules", len(f.Rules), len(before))
			}
			for i, r := range before {
				if f.Rules[i] != r || slice[i] != r {
					return fail("failed expansion replaced rule %d", i)
				}
			}
			// Again: still an error, still unchanged.
			if err := pass.ExpandAlternates(f); err == nil {
				return fail("the second expansion of a bad file succeeds:\n%s", canonRules(c.Rules))
			}
			if !sameTree(f, twin) {
				return fail("the second failed expansion modified the file")
			}
			// Without the bad rules it works.
			var good []*Rule
			g := &ast.File{}
			for i, r := range c.Rules {
				if _, ok := r.alternatives(); ok {
					good = append(good, r)
					g.Rules = append(g.Rules, f.Rules[i])
				}
			}
			want, _ := expandModel(good)
			if err := pass.ExpandAlternates(g); err != nil {
				return fail("expansion without the bad rules fails: %v", err)
			}
			if got := canonFile(g); got != canonRules(want) {
				return fail("after a failed expansion:\n%s", diff(got, canonRules(want)))
			}
			return Outcome{Labels: append(l, "bad")}
		}
		if err != nil {
			return fail("consistent groups rejected: %v\n%s", err, canonRules(c.Rules))
		}
		wantText := canonRules(want)
		if got := canonFile(f); got != wantText {
			return fail("rules:\n%s%s", canonRules(c.Rules), diff(got, wantText))
		}
		once := append([]*ast.Rule(nil), f.Rules...)
		if err := pass.ExpandAlternates(f); err != nil {
			return fail("expanding expanded rules fails: %v\n%s", err, wantText)
		}
		if got := canonFile(f); got != wantText {
			return fail("expanding twice:\n%s", diff(got, wantText))
		}
		for i, r := range once {
			if got := canonAstRules([]*ast.Rule{r}); got != canonRules(want[i:i+1]) {
				return fail("expanding twice modified rule %d", i)
			}
		}
		// And the rules that were passed in can be expanded again.
		again := &ast.File{Rules: before}
		if err := pass.ExpandAlternates(again); err != nil {
			return fail("expanding the original rules again fails: %v", err)
		}
		if got := canonFile(again); got != wantText {
			return fail("expanding the original rules again:\n%s", diff(got, wantText))
		}
		return Outcome{Labels: append(l, "good"), Trivial: len(want) == len(c.Rules)}
	}
	// checkOdd takes rules with groups of a single alternative, which stands
	// for all of them, and operators of several parts but no alternatives,
	// which expansion may refuse.
	checkOdd := func(c expandCase) Outcome {
		refuse, conflict := false, false
		var rs []*Rule
		for _, r := range c.Rules {
			r = r.deepClone()
			n := 1
			r.walkS(func(s *SX) {
				most := 1
				for i, p := range s.Op {
					switch {
					case p.Alts == nil:
					case len(p.Alts) == 1:
						s.Op[i] = Part{Lit: p.Alts[0]}
						refuse = refuse || len(s.Op) == 1
					default:
						most = len(p.Alts)
						conflict = conflict || n > 1 && n != most
						n = most
					}
				}
				refuse = refuse || most == 1 && len(s.Op) != 1
			})
			rs = append(rs, r)
		}
		f, twin := toFile(c.Rules), toFile(c.Rules)
		before := append([]*ast.Rule(nil), f.Rules...)
		err := pass.ExpandAlternates(f)
		for i, r := range before {
			if !sameTree(r, twin.Rules[i]) {
				return fail("expansion (error %v) modified rule %d it was given\n%s", err, i, canonRules(c.Rules))
			}
		}
		if conflict && err == nil {
			return fail("groups of different sizes accepted:\n%s", canonRules(c.Rules))
		}
		if err != nil {
			if !conflict && !refuse {
				return fail("consistent groups rejected: %v\n%s", err, canonRules(c.Rules))
			}
			if !sameTree(f, twin) {
				return fail("failed expansion modified the file\n%s", canonRules(c.Rules))
			}
			return Outcome{Labels: []string{"refused"}}
		}
		if !refuse {
			want, _ := expandModel(rs)
			if got := canonFile(f); got != canonRules(want) {
				return fail("rules:\n%s%s", canonRules(c.Rules), diff(got, canonRules(want)))
			}
		}
		return Outcome{Labels: []string{"expanded"}, Trivial: refuse}
	}
	register(&Prop{
		ID: "C09", Level: "exploration",
		Rule: "files of random rules with consistent groups, into which one bad rule (two groups of different sizes, at any two places) may be put anywhere, and rules with groups of any sizes, with empty or lone parts and groups of one (trees only), and files with a value or operator of no known type; expansion of bad files must fail and leave file and rules as they were, expansion of good ones must succeed, be stable and leave its input rules alone. Non-trivial: bad, or something to expand.",
		Subs: []*Sub{
			mk("onebad", 24000, 1200000, func(g *G) expandCase {
				var c expandCase
				o := deepopts
				o.maxargs = 10
				for k := g.size(3, 10); k > 0; k-- {
					o.altk = 1 + g.n(3)
					c.Rules = append(c.Rules, g.consistentRule(o))
				}
				c.Rules = g.echoes(c.Rules)
				if g.n(4) > 0 {
					r := g.consistentRule(o)
					// Two operators, or one, with groups of sizes that differ.
					n := 2 + g.size(2, 12)
					m := 2 + g.size(2, 12)
					if n == m {
						m++
					}
					grp := func(n int) Part {
						p := Part{Alts: []string{}}
						for ; n > 0; n-- {
							p.Alts = append(p.Alts, g.partword())
						}
						return p
					}
					var ss []*SX
					r.walkS(func(s *SX) { ss = append(ss, s) })
					if len(ss) == 0 {
						s := &SX{Op: []Part{{Lit: "A"}}}
						r.M = &Val{S: s}
						ss = append(ss, s)
					}
					a, b := ss[g.n(len(ss))], ss[g.n(len(ss))]
					a.Op = append([]Part{grp(n)}, a.Op...)
					b.Op = append([]Part{grp(m)}, b.Op...)
					at := g.n(len(c.Rules) + 1)
					c.Rules = append(c.Rules, nil)
					copy(c.Rules[at+1:], c.Rules[at:])
					c.Rules[at] = r
				}
				return c
			}, checkAtomic),
			mk("unsupported", 4000, 200000, func(g *G) oddCase {
				o := deepopts
				o.maxargs, o.altk = 8, 1+g.n(3)
				c := oddCase{Place: g.n(300), What: g.pick(oddities)}
				for k := 1 + g.size(3, 10); k > 0; k-- {
					c.Rules = append(c.Rules, g.consistentRule(o))
				}
				return c
			}, func(c oddCase) Outcome {
				f, twin := toFile(c.Rules), toFile(c.Rules)
				label := plantOddity(f, c.Place, c.What)
				plantOddity(twin, c.Place, c.What)
				before := append([]*ast.Rule(nil), f.Rules...)
				if err := pass.ExpandAlternates(f); err == nil {
					return fail("%s expands\n%s", label, canonRules(c.Rules))
				}
				if len(f.Rules) != len(before) {
					return fail("failed expansion (%s) left %d of %d rules", label, len(f.Rules), len(before))
				}
				for i, r := range before {
					if f.Rules[i] != r {
						return fail("failed expansion (%s) replaced rule %d", label, i)
					}
				}
				if !sameTree(f, twin) {
					return fail("failed expansion (%s) modified the rules", label)
				}
				return Outcome{Labels: []string{label}}
			}),
			mk("oddgroups", 8000, 400000, func(g *G) expandCase {
				o := fullopts
				o.maxargs, o.altk = 8, 1+g.n(3)
				var c expandCase
				for k := 1 + g.size(2, 6); k > 0; k-- {
					r := g.consistentRule(o)
					if g.chance(1) {
						r = g.irregular(r)
					}
					c.Rules = append(c.Rules, r)
				}
				return c
			}, checkOdd),
			mk("anysizes", 16000, 800000, func(g *G) expandCase {
				o := deepopts
				o.maxargs = 10
				o.altk = 1 + g.n(3)
				return expandCase{g.rules(o, 4)}
			}, checkAtomic),
		},
	})

	// ---- C10

	type walkCase struct {
		Rules []*Rule `json:"rules"`
		Start int     `json:"start"`
		Prune []bool  `json:"prune"` // by order of visits
		Preds []int   `json:"preds"`
	}
	checkWalk := func(c walkCase) Outcome {
		f := toFile(c.Rules)
		all := allNodes(f)
		start := all[0]
		if c.Start > 0 {
			start = all[c.Start%len(all)]
		}
		// What is to be visited, by whom.
		var want []visit
		var rec func(n ast.Node, by int)
		rec = func(n ast.Node, by int) {
			i := len(want)
			if i < len(c.Prune) && c.Prune[i] {
				want = append(want, visit{by, n, -1})
				return
			}
			want = append(want, visit{by, n, i + 1})
			for _, x := range childNodes(n) {
				rec(x, i+1)
			}
		}
		rec(start, 0)
		compare := func(how string, got []visit) string {
			for i := 0; i < len(got) || i < len(want); i++ {
				switch {
				case i >= len(got):
					return fmt.Sprintf("%s of %s: visit %d (%s) missing", how, nodeText(start), i, nodeText(want[i].node))
				case i >= len(want):
					return fmt.Sprintf("%s of %s: visit %d (%s) is one too many", how, nodeText(start), i, nodeText(got[i].node))
				case got[i].node == nil || !sameNode(got[i].node, want[i].node):
					return fmt.Sprintf("%s of %s: visit %d is of %v, want %s", how, nodeText(start), i, got[i].node, nodeText(want[i].node))
				case got[i].by != want[i].by:
					return fmt.Sprintf("%s of %s: visit %d (%s) is by visitor %d, want %d", how, nodeText(start), i, nodeText(want[i].node), got[i].by, want[i].by)
				}
			}
			return ""
		}
		var got []visit
		ast.Walk(&treeVisitor{0, &got, c.Prune}, start)
		if m := compare("Walk", got); m != "" {
			return fail("%s", m)
		}
		got = nil
		ast.Inspect(start, func(n ast.Node) bool {
			i := len(got)
			got = append(got, visit{node: n})
			return !(i < len(c.Prune) && c.Prune[i])
		})
		for i := range got {
			if i < len(want) {
				got[i].by = want[i].by // Inspect has one function only
			}
		}
		if m := compare("Inspect", got); m != "" {
			return fail("%s", m)
		}
		// Contains, for predicates that are true of some node or of none.
		sub := allNodes(start)
		found := 0
		for _, k := range c.Preds {
			var pred func(n ast.Node) bool
			switch k % 10 {
			case 0:
				pred = func(n ast.Node) bool { v, ok := n.(ast.Variable); return ok && v == ast.Placeholder }
			case 1:
				pred = func(n ast.Node) bool { _, ok := n.(*ast.Expr); return ok }
			case 2:
				pred = func(n ast.Node) bool { _, ok := n.(ast.OpcodeAlt); return ok }
			case 3:
				pred = func(n ast.Node) bool { s, ok := n.(*ast.SExpr); return ok && s.Trailing }
			case 4:
				pred = func(n ast.Node) bool { return false }
			case 5:
				pred = func(n ast.Node) bool { o, ok := n.(ast.Opcode); return ok && strings.HasPrefix(string(o), "A") }
			default:
				target := all[k%len(all)]
				pred = func(n ast.Node) bool { return sameNode(n, target) }
			}
			want := false
			for _, n := range sub {
				want = want || pred(n)
			}
			if want {
				found++
			}
			if got := ast.Contains(start, pred); got != want {
				return fail("Contains of %s, predicate %d: %v, want %v", nodeText(start), k, got, want)
			}
		}
		l := []string{fmt.Sprintf("start %T", start)}
		for _, v := range want {
			if v.ret < 0 && len(childNodes(v.node)) > 0 {
				l = append(l, "prunes")
				break
			}
		}
		if found > 0 {
			l = append(l, "contains")
		}
		return Outcome{Labels: l, Trivial: len(want) < 4}
	}
	register(&Prop{
		ID: "C10", Level: "exploration",
		Rule: "random trees, a random start node and random choices of which visits to prune; the visits of Walk and Inspect are compared with a model of the traversal, Contains with the existence of a node. Non-trivial: at least four visits.",
		Subs: []*Sub{
			mk("walk", 40000, 2000000, func(g *G) walkCase {
				o := deepopts
				o.maxargs = 12
				c := walkCase{Rules: g.rules(o, 5)}
				if g.chance(1) {
					c.Start = g.n(200)
				}
				k := 1 + g.n(5)
				if g.n(4) > 0 {
					for i := g.size(12, 200); i > 0; i-- {
						c.Prune = append(c.Prune, g.chance(k))
					}
				}
				for i := 3; i > 0; i-- {
					c.Preds = append(c.Preds, g.n(300))
				}
				return c
			}, checkWalk),
		},
	})

	// ---- C11

	predicates := []struct {
		name string
		has  func(*ast.Rule) bool
		want func(f features) bool
	}{
		{"binding", rules.HasBinding, func(f features) bool { return f.binding }},
		{"type", rules.HasType, func(f features) bool { return f.typ }},
		{"aux", rules.HasAux, func(f features) bool { return f.aux }},
		{"auxint", rules.HasAuxInt, func(f features) bool { return f.auxint }},
		{"ellipsis", rules.HasEllipsis, func(f features) bool { return f.ellipsis }},
		{"trailing", rules.HasTrailing, func(f features) bool { return f.trailing }},
	}
	checkFeatures := func(c expandCase) Outcome {
		parsed, err := parse.String(plainLayout(rtokens(c.Rules, nil)))
		if err != nil || len(parsed.Rules) != len(c.Rules) {
			return fail("text %q: %v", plainLayout(rtokens(c.Rules, nil)), err)
		}
		set := map[string]bool{}
		for i, r := range c.Rules {
			f := r.features()
			only := 0
			for _, p := range predicates {
				want := p.want(f)
				for j, a := range []*ast.Rule{toRule(r), parsed.Rules[i]} {
					if got := p.has(a); got != want {
						return fail("%s is %v, want %v, for rule (parsed %v)\n%s", p.name, got, want, j == 1, canonRule(r))
					}
				}
				if want {
					set[p.name] = true
					only++
				}
			}
			switch only {
			case 0:
				set["no feature"] = true
			case 1:
				set["one feature"] = true
			case 6:
				set["all features"] = true
			}
		}
		var l []string
		for k := range set {
			l = append(l, k)
		}
		n := 0
		for _, r := range c.Rules {
			k, _ := r.size()
			n += k
		}
		return Outcome{Labels: l, Trivial: n < 4}
	}
	register(&Prop{
		ID: "C11", Level: "exploration",
		Rule: "random rules in which each feature is present at each s-expression with a probability drawn per rule, and large rules with one feature at one s-expression; the six predicates are compared with the model. Non-trivial: at least four values.",
		Subs: []*Sub{
			mk("any", 24000, 1200000, func(g *G) expandCase {
				o := deepopts
				o.maxargs = 10
				o.featk = 2 + g.n(5)
				return expandCase{g.rules(o, 4)}
			}, checkFeatures),
			mk("one", 24000, 1200000, func(g *G) expandCase {
				o := deepopts
				o.maxargs = 8
				o.featk = 30
				r := g.rule(o)
				if g.chance(5) {
					// Many arguments at one place.
					var ss []*SX
					r.walkS(func(s *SX) { ss = append(ss, s) })
					if len(ss) > 0 {
						s := ss[g.n(len(ss))]
						v := g.value(o, 1)
						for k := g.edge(5000); k > 0; k-- {
							s.Args = append(s.Args, v)
						}
						s.Args = append(s.Args, g.value(o, 2))
					}
				}
				var ss []*SX
				r.walkS(func(s *SX) { ss = append(ss, s) })
				if len(ss) > 0 {
					s := ss[len(ss)-1-g.n(len(ss))]
					switch g.n(6) {
					case 0:
						s.Bind = g.variable()
					case 1:
						s.Type = g.typ()
					case 2:
						s.AuxInt = g.gx(g.n(3), gxctx{})
					case 3:
						s.Aux = g.gx(g.n(3), gxctx{})
					case 4:
						s.Ell = true
					default:
						s.Trail = true
					}
				}
				return expandCase{[]*Rule{r}}
			}, checkFeatures),
		},
	})

	// ---- C20

	type pairCase struct {
		A     []*Rule `json:"a"`
		B     []*Rule `json:"b"`
		SrcA  string  `json:"src_a"`
		SrcA2 string  `json:"src_a2"` // another layout of A
		SrcB  string  `json:"src_b"`
		What  string  `json:"what"`
	}
	checkPair := func(c pairCase) Outcome {
		var files []*ast.File
		var dumps []string
		for _, src := range []string{c.SrcA, c.SrcA2, c.SrcB} {
			f, err := parse.String(src)
			if err != nil {
				return fail("text %q rejected: %v", src, err)
			}
			d, err := ast.Dump(f)
			if err != nil {
				return fail("dump of %q fails: %v", src, err)
			}
			var buf bytes.Buffer
			if err := ast.Fprint(&buf, f); err != nil || buf.String() != d {
				return fail("dump of %q: string and writer forms differ (%v)", src, err)
			}
			files = append(files, f)
			dumps = append(dumps, d)
		}
		if dumps[0] != dumps[1] {
			return fail("equal trees dump differently, texts %q and %q:\n%s", c.SrcA, c.SrcA2, diff(dumps[1], dumps[0]))
		}
		same := canonRules(c.A) == canonRules(c.B)
		if same != (dumps[0] == dumps[2]) {
			return fail("%q and %q: trees equal %v, dumps equal %v", c.SrcA, c.SrcB, same, !same)
		}
		// The same for their parts.
		for i, r := range files[0].Rules {
			if i >= len(files[2].Rules) || i >= len(c.A) || i >= len(c.B) {
				break
			}
			da, err := ast.Dump(r)
			db, err2 := ast.Dump(files[2].Rules[i])
			if err != nil || err2 != nil {
				return fail("dump of a rule of %q or %q fails: %v %v", c.SrcA, c.SrcB, err, err2)
			}
			if same := canonRule(c.A[i]) == canonRule(c.B[i]); same != (da == db) {
				return fail("rule %d of %q and %q: trees equal %v, dumps equal %v", i, c.SrcA, c.SrcB, same, !same)
			}
		}
		for _, n := range allNodes(files[0]) {
			if d, err := ast.Dump(n); err != nil || d == "" {
				return fail("dump of %T: %q, %v", n, d, err)
			}
		}
		return Outcome{Labels: []string{c.What}, Trivial: same}
	}
	type collideCase struct {
		A string `json:"a"`
		B string `json:"b"`
	}
	collide := mk("typelines", 400, 8000, func(g *G) collideCase {
		// A type that holds the lines a dump has for other fields.
		v := g.variable()
		ind := ""
		return collideCase{
			"(A <t> " + v + ") => y",
			"(A <t\n" + ind + "Args: []ast.Value (len = 1) {\n.  0: " + v + "\n}>) => y",
		}
	}, func(c collideCase) Outcome {
		fa, err := parse.String(c.A)
		if err != nil {
			return fail("text %q rejected: %v", c.A, err)
		}
		fb, err := parse.String(c.B)
		if err != nil {
			return fail("text %q rejected: %v", c.B, err)
		}
		da, _ := ast.Dump(fa)
		db, _ := ast.Dump(fb)
		if da == db {
			return Outcome{Known: []string{"dump-type-lines"}, Labels: []string{"known finding"}}
		}
		return Outcome{}
	})
	// Two large trees that differ in one rule, or one argument.
	type largeCase struct {
		A     []*Rule `json:"a"` // one rule
		B     []*Rule `json:"b"` // what the other tree has in its place
		Fill  *Rule   `json:"fill"`
		Times int     `json:"times"`
		At    int     `json:"at"`
		Wide  bool    `json:"wide"` // arguments of one rule instead of rules
		What  string  `json:"what"`
	}
	checkLarge := func(c largeCase) Outcome {
		build := func(rs []*Rule) *ast.File {
			f := &ast.File{}
			s := &ast.SExpr{Op: ast.Opcode("A")}
			for i := 0; i <= c.Times; i++ {
				if i == c.At {
					for _, r := range rs {
						r := toRule(r)
						f.Rules = append(f.Rules, r)
						s.Args = append(s.Args, r.Match, r.Result)
					}
				}
				if i < c.Times {
					fill := toRule(c.Fill)
					f.Rules = append(f.Rules, fill)
					s.Args = append(s.Args, fill.Match)
				}
			}
			if c.Wide {
				f.Rules = []*ast.Rule{{Match: s, Result: ast.Variable("x")}}
			}
			return f
		}
		fa, fb := build(c.A), build(c.B)
		same := canonFile(fa) == canonFile(fb)
		da, err := ast.Dump(fa)
		if err != nil {
			return fail("dump fails: %v", err)
		}
		var db bytes.Buffer
		if err := ast.Fprint(&db, fb); err != nil {
			return fail("dump fails: %v", err)
		}
		if same != (da == db.String()) {
			return fail("%s %d times (arguments: %v), and after %d: trees equal %v, dumps equal %v\n%s%s", canonRule(c.Fill), c.Times, c.Wide, c.At, same, !same, canonRules(c.A), canonRules(c.B))
		}
		label := "<1M"
		if len(da) >= 1<<20 {
			label = ">=1M"
		}
		return Outcome{Labels: []string{label, c.What}, Trivial: same}
	}
	register(&Prop{
		ID: "C20", Level: "exploration",
		Rule: "pairs of random files that differ in a single field of a single node, and two layouts of one of them, and pairs of trees with thousands of nodes that differ in one; dumps must be equal exactly for equal trees, succeed for every node, and agree between string and writer. Non-trivial: the trees differ.",
		Subs: []*Sub{
			mk("pairs", 24000, 1000000, func(g *G) pairCase {
				o := fullopts
				o.maxargs = 6
				a := g.rules(o, 4)
				b, what := g.mutateModel(a)
				return pairCase{a, b, plainLayout(rtokens(a, nil)), g.layout(rtokens(a, nil), 2), plainLayout(rtokens(b, nil)), what}
			}, checkPair),
			mk("large", 64, 2000, func(g *G) largeCase {
				o := fullopts
				o.maxargs, o.depth = 6, 3
				c := largeCase{A: []*Rule{g.rule(o)}, Fill: g.rule(o)}
				c.B, c.What = g.mutateModel(c.A)
				c.Wide = g.chance(1)
				n, _ := c.Fill.size()
				c.Times = 1 + g.pickN([]int{10, 300, 3000, 10000, 30000, 60000})/n + g.n(5)
				c.At = c.Times
				if g.chance(1) {
					c.At = g.n(c.Times + 1)
				}
				return c
			}, checkLarge),
			collide,
		},
	})
}

func opGroups(op []Part) (n int) {
	for _, p := range op {
		if p.Alts != nil {
			n++
		}
	}
	return
}

// mutateModel changes one field of one node.
func (g *G) mutateModel(rs []*Rule) ([]*Rule, string) {
	var out []*Rule
	for _, r := range rs {
		out = append(out, r.deepClone())
	}
	r := out[g.n(len(out))]
	var ss []*SX
	r.walkS(func(s *SX) { ss = append(ss, s) })
	vs := r.vals()
	gs := r.gos()
	toggle := func(p **GX) {
		if *p == nil || g.chance(1) {
			*p = g.gx(g.n(3), gxctx{})
		} else {
			*p = nil
		}
	}
	k := g.n(20)
	if k < 11 && len(ss) == 0 {
		k = 11 + k%9
	}
	if k >= 14 && k < 18 && len(gs) == 0 {
		k = 11 + k%3
	}
	var s *SX
	if k < 11 {
		s = ss[g.n(len(ss))]
	}
	switch k {
	case 0:
		if s.Bind == "" || g.chance(1) {
			s.Bind = g.variable()
		} else {
			s.Bind = ""
		}
		return out, "binding"
	case 1:
		if s.Type == "" || g.chance(1) {
			s.Type = g.typ()
		} else {
			s.Type = ""
		}
		return out, "type"
	case 2:
		toggle(&s.AuxInt)
		return out, "auxint"
	case 3:
		toggle(&s.Aux)
		return out, "aux"
	case 4:
		s.AuxInt, s.Aux = s.Aux, s.AuxInt
		return out, "swap auxint and aux"
	case 5:
		s.Ell = !s.Ell
		return out, "ellipsis"
	case 6:
		s.Trail = !s.Trail
		return out, "trailing"
	case 7:
		if g.chance(1) {
			s.Ell, s.Trail = s.Trail, s.Ell
			return out, "swap markers"
		}
		s.Op = g.op(1, 0)
		return out, "operator"
	case 8:
		i := g.n(len(s.Op))
		if s.Op[i].Alts != nil {
			j := g.n(len(s.Op[i].Alts))
			switch g.n(3) {
			case 0:
				s.Op[i].Alts[j] = g.partword()
			case 1:
				s.Op[i].Alts = append(s.Op[i].Alts, g.partword())
			default:
				s.Op[i].Alts[0], s.Op[i].Alts[j] = s.Op[i].Alts[j], s.Op[i].Alts[0]
			}
			return out, "alternatives"
		}
		s.Op[i].Lit = g.opword()
		return out, "opcode"
	case 9:
		if len(s.Args) > 0 && g.chance(1) {
			i := g.n(len(s.Args))
			if g.chance(1) {
				s.Args = append(s.Args[:i:i], s.Args[i+1:]...)
				return out, "remove argument"
			}
			s.Args[0], s.Args[i] = s.Args[i], s.Args[0]
			return out, "swap arguments"
		}
		s.Args = append(s.Args, g.value(fullopts, 0))
		return out, "add argument"
	case 10:
		if len(s.Args) > 0 {
			// Move an argument into its neighbour or up.
			i := g.n(len(s.Args))
			s.Args[i] = &Val{S: &SX{Op: []Part{{Lit: "A"}}, Args: []*Val{s.Args[i]}}}
			return out, "nest argument"
		}
		s.Args = append(s.Args, g.value(fullopts, 1))
		return out, "add argument"
	case 11:
		v := vs[g.n(len(vs))]
		*v = *g.value(fullopts, 1)
		return out, "value"
	case 12:
		if r.Block == "" || g.chance(1) {
			r.Block = g.block()
		} else {
			r.Block = ""
		}
		return out, "block"
	case 13:
		if r.Cond == nil || g.chance(1) {
			r.Cond = g.gx(g.n(3), gxctx{})
		} else {
			r.Cond = nil
		}
		return out, "condition"
	case 14, 15, 16, 17:
		// A change inside a Go expression that keeps it one.
		var all []*GX
		var rec func(x *GX)
		rec = func(x *GX) {
			all = append(all, x)
			for _, y := range x.X {
				rec(y)
			}
		}
		rec(gs[g.n(len(gs))])
		x := all[g.n(len(all))]
		switch x.K {
		case "id":
			x.S = g.ident()
		case "lit":
			x.S = g.lit(gxctx{}).S
		case "un":
			x.S = g.pick(unOps)
		case "sel":
			x.S = g.ident()
		case "call":
			if len(x.X) > 1 {
				x.Ell = !x.Ell
			} else {
				x.X = append(x.X, &GX{K: "id", S: "x"})
			}
		case "bin":
			// An operator of the same precedence.
			for i := 0; i < 4; i++ {
				if op := g.pick(binOps); binPrec[op] == binPrec[x.S] {
					x.S = op
				}
			}
		case "paren":
			x.X[0] = paren(x.X[0])
		case "star":
			x.K, x.S = "un", "-"
		}
		return out, "Go expression"
	case 18:
		i := g.n(len(out))
		switch g.n(3) {
		case 0:
			out[0], out[i] = out[i], out[0]
			return out, "order of rules"
		case 1:
			return append(out, out[i].deepClone()), "repeat rule"
		default:
			if len(out) > 1 {
				return append(out[:i:i], out[i+1:]...), "remove rule"
			}
			return append(out, g.rule(fullopts)), "add rule"
		}
	default:
		r.M, r.R = r.R, r.M
		return out, "swap sides"
	}
}
