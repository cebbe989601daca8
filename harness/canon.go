package main

// Canonical text of the data structures of the code under test, in the same
// form as the canonical text of models.

import (
	"fmt"
	goast "go/ast"
	"reflect"
	"strings"

	"github.com/mmcloughlin/ssarules/ast"
)

func canonFile(f *ast.File) string {
	if f == nil {
		return "nil file"
	}
	return canonAstRules(f.Rules)
}

func canonAstRules(rs []*ast.Rule) string {
	var b strings.Builder
	for i, r := range rs {
		fmt.Fprintf(&b, "rule %d\n", i)
		canonAstRuleTo(&b, r)
	}
	return b.String()
}

func canonAstRule(r *ast.Rule) string {
	var b strings.Builder
	canonAstRuleTo(&b, r)
	return b.String()
}

func canonAstRuleTo(b *strings.Builder, r *ast.Rule) {
	if r == nil {
		b.WriteString("nil rule\n")
		return
	}
	b.WriteString(" match ")
	canonValue(b, r.Match)
	b.WriteString("\n")
	if r.Condition != nil {
		b.WriteString(" cond ")
		canonGo(b, r.Condition.Expr)
		b.WriteString("\n")
	}
	if r.Block != "" {
		fmt.Fprintf(b, " block %q\n", r.Block)
	}
	b.WriteString(" result ")
	canonValue(b, r.Result)
	b.WriteString("\n")
}

func canonValue(b *strings.Builder, v ast.Value) {
	switch x := v.(type) {
	case *ast.SExpr:
		canonSExpr(b, x)
	case *ast.Expr:
		b.WriteString("expr{")
		if x == nil {
			b.WriteString("nil")
		} else {
			canonGo(b, x.Expr)
		}
		b.WriteString("}")
	case ast.Variable:
		fmt.Fprintf(b, "var:%q", string(x))
	default:
		fmt.Fprintf(b, "?%T", v)
	}
}

func canonAstOp(b *strings.Builder, o ast.Op) {
	switch x := o.(type) {
	case ast.Opcode:
		fmt.Fprintf(b, "op:%q", string(x))
	case ast.OpcodeParts:
		b.WriteString("parts[")
		for i, p := range x {
			if i > 0 {
				b.WriteString(" ")
			}
			switch q := p.(type) {
			case ast.Opcode:
				fmt.Fprintf(b, "%q", string(q))
			case ast.OpcodeAlt:
				ss := []string{}
				for _, a := range q {
					ss = append(ss, string(a))
				}
				fmt.Fprintf(b, "alt%q", ss)
			default:
				fmt.Fprintf(b, "?%T", p)
			}
		}
		b.WriteString("]")
	default:
		fmt.Fprintf(b, "?%T", o)
	}
}

func canonSExpr(b *strings.Builder, s *ast.SExpr) {
	if s == nil {
		b.WriteString("nil sexpr")
		return
	}
	b.WriteString("sexpr(")
	canonAstOp(b, s.Op)
	if s.Binding != "" {
		fmt.Fprintf(b, " bind:%q", string(s.Binding))
	}
	if s.Type != "" {
		fmt.Fprintf(b, " type:%q", string(s.Type))
	}
	if s.AuxInt != nil {
		b.WriteString(" auxint{")
		canonGo(b, s.AuxInt.Expr)
		b.WriteString("}")
	}
	if s.Aux != nil {
		b.WriteString(" aux{")
		canonGo(b, s.Aux.Expr)
		b.WriteString("}")
	}
	for _, a := range s.Args {
		b.WriteString(" ")
		canonValue(b, a)
	}
	if s.Ellipsis {
		b.WriteString(" ELLIPSIS")
	}
	if s.Trailing {
		b.WriteString(" TRAILING")
	}
	b.WriteString(")")
}

func canonGo(b *strings.Builder, e goast.Expr) {
	switch x := e.(type) {
	case *goast.Ident:
		fmt.Fprintf(b, "%q", x.Name)
	case *goast.BasicLit:
		fmt.Fprintf(b, "%s:%q", x.Kind, x.Value)
	case *goast.ParenExpr:
		b.WriteString("paren(")
		canonGo(b, x.X)
		b.WriteString(")")
	case *goast.UnaryExpr:
		fmt.Fprintf(b, "un%q(", x.Op.String())
		canonGo(b, x.X)
		b.WriteString(")")
	case *goast.BinaryExpr:
		fmt.Fprintf(b, "bin%q(", x.Op.String())
		canonGo(b, x.X)
		b.WriteString(", ")
		canonGo(b, x.Y)
		b.WriteString(")")
	case *goast.CallExpr:
		b.WriteString("call(")
		canonGo(b, x.Fun)
		for _, a := range x.Args {
			b.WriteString(", ")
			canonGo(b, a)
		}
		if x.Ellipsis.IsValid() {
			b.WriteString(" ...")
		}
		b.WriteString(")")
	case *goast.StarExpr:
		b.WriteString("star(")
		canonGo(b, x.X)
		b.WriteString(")")
	case *goast.SelectorExpr:
		b.WriteString("sel(")
		canonGo(b, x.X)
		if x.Sel == nil {
			b.WriteString(", nil)")
		} else {
			fmt.Fprintf(b, ", %q)", x.Sel.Name)
		}
	default:
		fmt.Fprintf(b, "?%T", e)
	}
}

func canonGoExpr(e goast.Expr) string {
	var b strings.Builder
	canonGo(&b, e)
	return b.String()
}

// canonKinds is empty if the Go expression uses only the supported kinds, and
// has one question mark for every other node.
func canonKinds(e goast.Expr) string {
	kinds := ""
	goast.Inspect(e, func(n goast.Node) bool {
		switch n.(type) {
		case nil, *goast.Ident, *goast.BasicLit, *goast.ParenExpr, *goast.UnaryExpr,
			*goast.BinaryExpr, *goast.CallExpr, *goast.StarExpr, *goast.SelectorExpr:
		default:
			kinds += "?"
		}
		return true
	})
	return kinds
}

// sameTree reports whether a and b are deeply equal, where an empty list is
// the same as none.
func sameTree(a, b any) bool {
	return reflect.DeepEqual(a, b) || sameValue(reflect.ValueOf(a), reflect.ValueOf(b))
}

func sameValue(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Kind() == reflect.Pointer && a.Pointer() == b.Pointer() {
			return true
		}
		return sameValue(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameValue(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameValue(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	}
	return false
}
