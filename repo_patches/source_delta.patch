From 4cbb2158993c35c27b40cc0db4aa0e6b2b21a042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 01/11] fix: keep printed Go operators and numbers from fusing
 into other tokens

---
 printer/printer.go | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/printer/printer.go b/printer/printer.go
index 5cdcc71..be3dd9b 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -192,10 +192,13 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.printf(")")
 	case *goast.UnaryExpr:
 		p.printf("%s", e.Op)
+		if fuses(e.Op, e.X) {
+			p.printf(" ")
+		}
 		p.goexpr(e.X)
 	case *goast.BinaryExpr:
 		p.goexpr(e.X)
-		if e.Op.Precedence() < gotoken.ADD.Precedence() {
+		if e.Op.Precedence() < gotoken.ADD.Precedence() || fuses(e.Op, e.Y) {
 			p.printf(" %s ", e.Op)
 		} else {
 			p.printf("%s", e.Op)
@@ -216,12 +219,50 @@ func (p *printer) goexpr(expr goast.Expr) {
 		p.goexpr(e.X)
 	case *goast.SelectorExpr:
 		p.goexpr(e.X)
+		if lit, ok := e.X.(*goast.BasicLit); ok && lit.Kind == gotoken.INT {
+			// Keep the dot from being read as part of the number.
+			p.printf(" ")
+		}
 		p.printf(".%s", e.Sel)
 	default:
 		p.seterror(errutil.UnexpectedType(expr))
 	}
 }
 
+// fuses reports whether printing op immediately before x would produce a
+// different token, such as "--" from "-" and "-x" or "&^" from "&" and "^x".
+func fuses(op gotoken.Token, x goast.Expr) bool {
+	lead := leadingop(x)
+	if lead == "" {
+		return false
+	}
+	switch op.String() + lead {
+	case "++", "--", "&&", "&^", "/*":
+		return true
+	default:
+		return false
+	}
+}
+
+// leadingop returns the operator that the printed form of x starts with, or
+// the empty string if it does not start with an operator.
+func leadingop(x goast.Expr) string {
+	switch e := x.(type) {
+	case *goast.UnaryExpr:
+		return e.Op.String()
+	case *goast.StarExpr:
+		return gotoken.MUL.String()
+	case *goast.BinaryExpr:
+		return leadingop(e.X)
+	case *goast.CallExpr:
+		return leadingop(e.Fun)
+	case *goast.SelectorExpr:
+		return leadingop(e.X)
+	default:
+		return ""
+	}
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From ac79311717db92b92b8fe3a166659debbabc9fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 02/11] fix: preserve final ... of variadic calls in Go
 expressions

---
 parse/internal/goexpr/parse.go |  6 +++++-
 printer/printer.go             | 26 ++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 15d43ff..b3c8835 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -37,7 +37,11 @@ func clearpos(expr goast.Expr) error {
 			n.OpPos = gotoken.NoPos
 		case *goast.CallExpr:
 			n.Lparen = gotoken.NoPos
-			n.Ellipsis = gotoken.NoPos
+			if n.Ellipsis.IsValid() {
+				// Position is the only record of a final "...", so fix it
+				// rather than clear it.
+				n.Ellipsis = 1
+			}
 			n.Rparen = gotoken.NoPos
 		case *goast.BinaryExpr:
 			n.OpPos = gotoken.NoPos
diff --git a/printer/printer.go b/printer/printer.go
index be3dd9b..4b75c2a 100644
--- a/printer/printer.go
+++ b/printer/printer.go
@@ -213,14 +213,19 @@ func (p *printer) goexpr(expr goast.Expr) {
 			}
 			p.goexpr(arg)
 		}
+		if e.Ellipsis.IsValid() {
+			if trailingint(e.Args[len(e.Args)-1]) {
+				p.printf(" ")
+			}
+			p.printf("...")
+		}
 		p.printf(")")
 	case *goast.StarExpr:
 		p.printf("*")
 		p.goexpr(e.X)
 	case *goast.SelectorExpr:
 		p.goexpr(e.X)
-		if lit, ok := e.X.(*goast.BasicLit); ok && lit.Kind == gotoken.INT {
-			// Keep the dot from being read as part of the number.
+		if trailingint(e.X) {
 			p.printf(" ")
 		}
 		p.printf(".%s", e.Sel)
@@ -263,6 +268,23 @@ func leadingop(x goast.Expr) string {
 	}
 }
 
+// trailingint reports whether the printed form of x ends with an integer
+// literal, which a dot printed immediately after would become part of.
+func trailingint(x goast.Expr) bool {
+	switch e := x.(type) {
+	case *goast.BasicLit:
+		return e.Kind == gotoken.INT
+	case *goast.UnaryExpr:
+		return trailingint(e.X)
+	case *goast.StarExpr:
+		return trailingint(e.X)
+	case *goast.BinaryExpr:
+		return trailingint(e.Y)
+	default:
+		return false
+	}
+}
+
 func (p *printer) printf(format string, args ...interface{}) {
 	if p.err != nil {
 		return
-- 
2.43.0


From ba15027a687254763cba41f52cef89d85333b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 03/11] fix: accept a comment that ends at the end of the file

---
 parse/internal/parser/zparser.go | 102 -------------------------------
 parse/rules.peg                  |   2 +-
 2 files changed, 1 insertion(+), 103 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 3e662e2..5a4e159 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -68,12 +68,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -114,12 +108,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -195,12 +183,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -243,12 +225,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -313,12 +289,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -361,12 +331,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -446,12 +410,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -577,12 +535,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -735,12 +687,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -793,12 +739,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -853,12 +793,6 @@ var g = &grammar{
 																	inverted:   true,
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 202, col: 8, offset: 3662},
-																val:        "\n",
-																ignoreCase: false,
-																want:       "\"\\n\"",
-															},
 														},
 													},
 													&charClassMatcher{
@@ -905,12 +839,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1160,12 +1088,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
@@ -1211,12 +1133,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1259,12 +1175,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1305,12 +1215,6 @@ var g = &grammar{
 																inverted:   true,
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 202, col: 8, offset: 3662},
-															val:        "\n",
-															ignoreCase: false,
-															want:       "\"\\n\"",
-														},
 													},
 												},
 												&charClassMatcher{
@@ -1350,12 +1254,6 @@ var g = &grammar{
 													inverted:   true,
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 202, col: 8, offset: 3662},
-												val:        "\n",
-												ignoreCase: false,
-												want:       "\"\\n\"",
-											},
 										},
 									},
 									&charClassMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index 8d8201f..675d62b 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -194,7 +194,7 @@ Skip <- (Comment / Whitespace / EOL)
 
 // Comments
 
-Comment <- "//" [^\n]* EOL
+Comment <- "//" [^\n]*
 
 // Character classes
 
-- 
2.43.0


From 056b99eca8a3e5a61b63c45e67dde57f11033912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 04/11] fix: end a rule block at a line break or comment

---
 parse/internal/parser/zparser.go | 38 +++++++++++++++++++++++++++-----
 parse/rules.peg                  |  2 +-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 5a4e159..9632a01 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -367,12 +367,38 @@ var g = &grammar{
 													exprs: []interface{}{
 														&notExpr{
 															pos: position{line: 184, col: 16, offset: 3443},
-															expr: &charClassMatcher{
-																pos:        position{line: 201, col: 15, offset: 3647},
-																val:        "[ \\t\\r]",
-																chars:      []rune{' ', '\t', '\r'},
-																ignoreCase: false,
-																inverted:   false,
+															expr: &choiceExpr{
+																pos: position{line: 193, col: 10, offset: 3541},
+																alternatives: []interface{}{
+																	&seqExpr{
+																		pos: position{line: 197, col: 12, offset: 3594},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 197, col: 12, offset: 3594},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&zeroOrMoreExpr{
+																				pos: position{line: 197, col: 17, offset: 3599},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 197, col: 17, offset: 3599},
+																					val:        "[^\\n]",
+																					chars:      []rune{'\n'},
+																					ignoreCase: false,
+																					inverted:   true,
+																				},
+																			},
+																		},
+																	},
+																	&charClassMatcher{
+																		pos:        position{line: 201, col: 15, offset: 3647},
+																		val:        "[ \\t\\r\\n]",
+																		chars:      []rune{' ', '\t', '\r', '\n'},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
 															},
 														},
 														&anyMatcher{
diff --git a/parse/rules.peg b/parse/rules.peg
index 675d62b..0e97c3e 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -181,7 +181,7 @@ Condition <- ( . !"=>" )+ {
 
 // Block
 
-Block <- '@' ( !Whitespace .)+ {
+Block <- '@' ( !Skip . )+ {
     return string(c.text[1:]), nil
 }
 
-- 
2.43.0


From 88120525047fae7a4ba5f92690a63cad6339f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 05/11] fix: keep line breaks and delimiters in literals and
 comments from splitting Go expressions

---
 parse/internal/goexpr/parse.go   |  30 +++-
 parse/internal/parser/zparser.go | 261 ++++++++++++++++++++++++++++---
 parse/rules.peg                  |  15 +-
 3 files changed, 282 insertions(+), 24 deletions(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index b3c8835..d2bcc2c 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -3,13 +3,16 @@ package goexpr
 import (
 	goast "go/ast"
 	goparser "go/parser"
+	goscanner "go/scanner"
 	gotoken "go/token"
+	"strings"
 
 	"github.com/mmcloughlin/ssarules/internal/errutil"
 )
 
+// Parse the Go expression x. Line breaks and comments in x only separate tokens.
 func Parse(x string) (goast.Expr, error) {
-	expr, err := goparser.ParseExpr(x)
+	expr, err := goparser.ParseExpr(joinlines(x))
 	if err != nil {
 		return nil, err
 	}
@@ -21,6 +24,31 @@ func Parse(x string) (goast.Expr, error) {
 	return expr, nil
 }
 
+// joinlines rewrites x without comments and line breaks, where Go would
+// otherwise insert semicolons. Returns x itself if it is not valid Go.
+func joinlines(x string) string {
+	fset := gotoken.NewFileSet()
+	var s goscanner.Scanner
+	s.Init(fset.AddFile("", fset.Base(), len(x)), []byte(x), nil, 0)
+
+	var toks []string
+	for {
+		_, tok, lit := s.Scan()
+		switch {
+		case s.ErrorCount > 0:
+			return x
+		case tok == gotoken.EOF:
+			return strings.Join(toks, " ")
+		case tok == gotoken.SEMICOLON && lit == "\n":
+			// Inserted at line break or end of input.
+		case lit != "":
+			toks = append(toks, lit)
+		default:
+			toks = append(toks, tok.String())
+		}
+	}
+}
+
 func clearpos(expr goast.Expr) error {
 	var err error
 	goast.Inspect(expr, func(node goast.Node) bool {
diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index 9632a01..c8954a2 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -241,22 +241,31 @@ var g = &grammar{
 											pos: position{line: 169, col: 14, offset: 3183},
 											run: (*parser).callonRule25,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 169, col: 14, offset: 3183},
+												pos: position{line: 169, col: 14, offset: 3209},
 												expr: &seqExpr{
-													pos: position{line: 169, col: 16, offset: 3185},
+													pos: position{line: 169, col: 16, offset: 3211},
 													exprs: []interface{}{
-														&anyMatcher{
-															line: 169, col: 16, offset: 3185,
-														},
 														&notExpr{
-															pos: position{line: 169, col: 18, offset: 3187},
+															pos: position{line: 169, col: 16, offset: 3211},
 															expr: &litMatcher{
-																pos:        position{line: 169, col: 19, offset: 3188},
+																pos:        position{line: 169, col: 17, offset: 3212},
 																val:        "=>",
 																ignoreCase: false,
 																want:       "\"=>\"",
 															},
 														},
+														&choiceExpr{
+															pos: position{line: 169, col: 24, offset: 3219},
+															alternatives: []interface{}{
+																&ruleRefExpr{
+																	pos:  position{line: 169, col: 24, offset: 3219},
+																	name: "GoText",
+																},
+																&anyMatcher{
+																	line: 169, col: 33, offset: 3228,
+																},
+															},
+														},
 													},
 												},
 											},
@@ -938,12 +947,21 @@ var g = &grammar{
 								},
 								&oneOrMoreExpr{
 									pos: position{line: 125, col: 15, offset: 2376},
-									expr: &charClassMatcher{
-										pos:        position{line: 125, col: 15, offset: 2376},
-										val:        "[^]]",
-										chars:      []rune{']'},
-										ignoreCase: false,
-										inverted:   true,
+									expr: &choiceExpr{
+										pos: position{line: 125, col: 17, offset: 2378},
+										alternatives: []interface{}{
+											&ruleRefExpr{
+												pos:  position{line: 125, col: 17, offset: 2378},
+												name: "GoText",
+											},
+											&charClassMatcher{
+												pos:        position{line: 125, col: 26, offset: 2387},
+												val:        "[^]]",
+												chars:      []rune{']'},
+												ignoreCase: false,
+												inverted:   true,
+											},
+										},
 									},
 								},
 								&litMatcher{
@@ -968,13 +986,22 @@ var g = &grammar{
 									want:       "\"{\"",
 								},
 								&oneOrMoreExpr{
-									pos: position{line: 135, col: 12, offset: 2579},
-									expr: &charClassMatcher{
-										pos:        position{line: 135, col: 12, offset: 2579},
-										val:        "[^}]",
-										chars:      []rune{'}'},
-										ignoreCase: false,
-										inverted:   true,
+									pos: position{line: 135, col: 12, offset: 2592},
+									expr: &choiceExpr{
+										pos: position{line: 135, col: 14, offset: 2594},
+										alternatives: []interface{}{
+											&ruleRefExpr{
+												pos:  position{line: 135, col: 14, offset: 2594},
+												name: "GoText",
+											},
+											&charClassMatcher{
+												pos:        position{line: 135, col: 23, offset: 2603},
+												val:        "[^}]",
+												chars:      []rune{'}'},
+												ignoreCase: false,
+												inverted:   true,
+											},
+										},
 									},
 								},
 								&litMatcher{
@@ -1302,6 +1329,200 @@ var g = &grammar{
 				},
 			},
 		},
+		{
+			name: "GoText",
+			pos:  position{line: 180, col: 1, offset: 3447},
+			expr: &choiceExpr{
+				pos: position{line: 180, col: 11, offset: 3457},
+				alternatives: []interface{}{
+					&seqExpr{
+						pos: position{line: 202, col: 12, offset: 3841},
+						exprs: []interface{}{
+							&litMatcher{
+								pos:        position{line: 202, col: 12, offset: 3841},
+								val:        "//",
+								ignoreCase: false,
+								want:       "\"//\"",
+							},
+							&zeroOrMoreExpr{
+								pos: position{line: 202, col: 17, offset: 3846},
+								expr: &charClassMatcher{
+									pos:        position{line: 202, col: 17, offset: 3846},
+									val:        "[^\\n]",
+									chars:      []rune{'\n'},
+									ignoreCase: false,
+									inverted:   true,
+								},
+							},
+						},
+					},
+					&seqExpr{
+						pos: position{line: 182, col: 14, offset: 3525},
+						exprs: []interface{}{
+							&litMatcher{
+								pos:        position{line: 182, col: 14, offset: 3525},
+								val:        "/*",
+								ignoreCase: false,
+								want:       "\"/*\"",
+							},
+							&zeroOrMoreExpr{
+								pos: position{line: 182, col: 19, offset: 3530},
+								expr: &seqExpr{
+									pos: position{line: 182, col: 21, offset: 3532},
+									exprs: []interface{}{
+										&notExpr{
+											pos: position{line: 182, col: 21, offset: 3532},
+											expr: &litMatcher{
+												pos:        position{line: 182, col: 22, offset: 3533},
+												val:        "*/",
+												ignoreCase: false,
+												want:       "\"*/\"",
+											},
+										},
+										&anyMatcher{
+											line: 182, col: 27, offset: 3538,
+										},
+									},
+								},
+							},
+							&litMatcher{
+								pos:        position{line: 182, col: 22, offset: 3533},
+								val:        "*/",
+								ignoreCase: false,
+								want:       "\"*/\"",
+							},
+						},
+					},
+					&seqExpr{
+						pos: position{line: 183, col: 13, offset: 3560},
+						exprs: []interface{}{
+							&litMatcher{
+								pos:        position{line: 183, col: 13, offset: 3560},
+								val:        "\"",
+								ignoreCase: false,
+								want:       "\"\\\"\"",
+							},
+							&zeroOrMoreExpr{
+								pos: position{line: 183, col: 17, offset: 3564},
+								expr: &choiceExpr{
+									pos: position{line: 183, col: 19, offset: 3566},
+									alternatives: []interface{}{
+										&seqExpr{
+											pos: position{line: 183, col: 19, offset: 3566},
+											exprs: []interface{}{
+												&litMatcher{
+													pos:        position{line: 183, col: 19, offset: 3566},
+													val:        "\\",
+													ignoreCase: false,
+													want:       "\"\\\\\"",
+												},
+												&charClassMatcher{
+													pos:        position{line: 183, col: 24, offset: 3571},
+													val:        "[^\\n]",
+													chars:      []rune{'\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+										&charClassMatcher{
+											pos:        position{line: 183, col: 32, offset: 3579},
+											val:        "[^\"\\\\\\n]",
+											chars:      []rune{'"', '\\', '\n'},
+											ignoreCase: false,
+											inverted:   true,
+										},
+									},
+								},
+							},
+							&litMatcher{
+								pos:        position{line: 183, col: 13, offset: 3560},
+								val:        "\"",
+								ignoreCase: false,
+								want:       "\"\\\"\"",
+							},
+						},
+					},
+					&seqExpr{
+						pos: position{line: 184, col: 11, offset: 3605},
+						exprs: []interface{}{
+							&litMatcher{
+								pos:        position{line: 184, col: 11, offset: 3605},
+								val:        "'",
+								ignoreCase: false,
+								want:       "\"'\"",
+							},
+							&oneOrMoreExpr{
+								pos: position{line: 184, col: 15, offset: 3609},
+								expr: &choiceExpr{
+									pos: position{line: 184, col: 17, offset: 3611},
+									alternatives: []interface{}{
+										&seqExpr{
+											pos: position{line: 184, col: 17, offset: 3611},
+											exprs: []interface{}{
+												&litMatcher{
+													pos:        position{line: 184, col: 17, offset: 3611},
+													val:        "\\",
+													ignoreCase: false,
+													want:       "\"\\\\\"",
+												},
+												&charClassMatcher{
+													pos:        position{line: 184, col: 22, offset: 3616},
+													val:        "[^\\n]",
+													chars:      []rune{'\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+										&charClassMatcher{
+											pos:        position{line: 184, col: 30, offset: 3624},
+											val:        "[^'\\\\\\n]",
+											chars:      []rune{'\'', '\\', '\n'},
+											ignoreCase: false,
+											inverted:   true,
+										},
+									},
+								},
+							},
+							&litMatcher{
+								pos:        position{line: 184, col: 11, offset: 3605},
+								val:        "'",
+								ignoreCase: false,
+								want:       "\"'\"",
+							},
+						},
+					},
+					&seqExpr{
+						pos: position{line: 185, col: 16, offset: 3655},
+						exprs: []interface{}{
+							&litMatcher{
+								pos:        position{line: 185, col: 16, offset: 3655},
+								val:        "`",
+								ignoreCase: false,
+								want:       "\"`\"",
+							},
+							&zeroOrMoreExpr{
+								pos: position{line: 185, col: 20, offset: 3659},
+								expr: &charClassMatcher{
+									pos:        position{line: 185, col: 20, offset: 3659},
+									val:        "[^`]",
+									chars:      []rune{'`'},
+									ignoreCase: false,
+									inverted:   true,
+								},
+							},
+							&litMatcher{
+								pos:        position{line: 185, col: 16, offset: 3655},
+								val:        "`",
+								ignoreCase: false,
+								want:       "\"`\"",
+							},
+						},
+					},
+				},
+			},
+		},
 	},
 }
 
diff --git a/parse/rules.peg b/parse/rules.peg
index 0e97c3e..e83fe84 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -122,7 +122,7 @@ Type <- '<' [^>]+ '>' {
     return ast.Type(c.text[1:n-1]), nil
 }
 
-AuxInt <- '[' [^\]]+ ']' {
+AuxInt <- '[' ( GoText / [^\]] )+ ']' {
     n := len(c.text)
     x := string(c.text[1:n-1])
     expr, err := goexpr.Parse(x)
@@ -132,7 +132,7 @@ AuxInt <- '[' [^\]]+ ']' {
     return &valueauxint{Expr: expr}, nil
 }
 
-Aux <- '{' [^}]+ '}' {
+Aux <- '{' ( GoText / [^}] )+ '}' {
     n := len(c.text)
     x := string(c.text[1:n-1])
     expr, err := goexpr.Parse(x)
@@ -166,7 +166,7 @@ Ident <- [a-z] [_a-zA-Z0-9]*
 
 // Condition
 
-Condition <- ( . !"=>" )+ {
+Condition <- ( !"=>" ( GoText / . ) )+ {
     x := string(c.text)
     x = strings.ReplaceAll(x, "\n", " ")
     x = strings.TrimSpace(x)
@@ -179,6 +179,15 @@ Condition <- ( . !"=>" )+ {
     return &ast.Expr{Expr: cond}, nil
 }
 
+// Go text: comments and literals, in which delimiters have no meaning
+
+GoText <- Comment / GoComment / GoString / GoRune / GoRawString
+
+GoComment <- "/*" ( !"*/" . )* "*/"
+GoString <- '"' ( '\\' [^\n] / [^"\\\n] )* '"'
+GoRune <- "'" ( '\\' [^\n] / [^'\\\n] )+ "'"
+GoRawString <- '`' [^`]* '`'
+
 // Block
 
 Block <- '@' ( !Skip . )+ {
-- 
2.43.0


From e1ed48e28ec6d5052e9cf46c5ad4d261949b30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 06/11] fix: give SMT constants legal names and each
 placeholder its own

---
 smt2/generate.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/smt2/generate.go b/smt2/generate.go
index 503f952..c504434 100644
--- a/smt2/generate.go
+++ b/smt2/generate.go
@@ -27,10 +27,11 @@ func Generate(r *ast.Rule) ([]byte, error) {
 }
 
 type generator struct {
-	w    io.Writer
-	ops  map[ast.Opcode]operation
-	vars map[ast.Variable]*value
-	err  error
+	w            io.Writer
+	ops          map[ast.Opcode]operation
+	vars         map[ast.Variable]*value
+	placeholders int
+	err          error
 }
 
 func (g *generator) generate(r *ast.Rule) error {
@@ -109,13 +110,26 @@ func (g *generator) variable(v ast.Variable, t gotypes.Type) (*value, error) {
 		return nil, fmt.Errorf("declare %s: %w", v, err)
 	}
 
-	g.printf("(declare-const %s %s)\n", v, s)
-	g.vars[v] = &value{
-		Expr: string(v),
+	// Name constants with a prefix, so that they cannot be reserved words or
+	// symbols of the theory.
+	name := "$" + string(v)
+
+	// Each placeholder stands for another value.
+	if v == ast.Placeholder {
+		name = fmt.Sprintf("%s%d", name, g.placeholders)
+		g.placeholders++
+	}
+
+	g.printf("(declare-const %s %s)\n", name, s)
+	val := &value{
+		Expr: name,
 		Type: t,
 	}
+	if v != ast.Placeholder {
+		g.vars[v] = val
+	}
 
-	return g.vars[v], nil
+	return val, nil
 }
 
 func typesort(t gotypes.Type) (string, error) {
-- 
2.43.0


From 24a0ccccdd9aa8893379319c92f0c4c4f7d953d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 07/11] fix: visit conditions, auxint and aux when walking
 rules

---
 ast/walk.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 98ff516..7662047 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -24,10 +24,19 @@ func Walk(v Visitor, node Node) {
 
 	case *Rule:
 		Walk(v, n.Match)
+		if n.Condition != nil {
+			Walk(v, n.Condition)
+		}
 		Walk(v, n.Result)
 
 	case *SExpr:
 		Walk(v, n.Op)
+		if n.AuxInt != nil {
+			Walk(v, n.AuxInt)
+		}
+		if n.Aux != nil {
+			Walk(v, n.Aux)
+		}
 		for _, arg := range n.Args {
 			Walk(v, arg)
 		}
-- 
2.43.0


From 2d7df5d78e2d64bdb94c8595d26a8e7b2fc1d7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 08/11] fix: accept rule files with only comments or blank
 lines

---
 parse/internal/parser/zparser.go | 80 ++++++++++++++++----------------
 parse/rules.peg                  |  4 +-
 2 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/parse/internal/parser/zparser.go b/parse/internal/parser/zparser.go
index c8954a2..1c662d0 100644
--- a/parse/internal/parser/zparser.go
+++ b/parse/internal/parser/zparser.go
@@ -36,50 +36,50 @@ var g = &grammar{
 				expr: &seqExpr{
 					pos: position{line: 19, col: 9, offset: 152},
 					exprs: []interface{}{
+						&zeroOrMoreExpr{
+							pos: position{line: 191, col: 6, offset: 3525},
+							expr: &choiceExpr{
+								pos: position{line: 193, col: 10, offset: 3541},
+								alternatives: []interface{}{
+									&seqExpr{
+										pos: position{line: 197, col: 12, offset: 3594},
+										exprs: []interface{}{
+											&litMatcher{
+												pos:        position{line: 197, col: 12, offset: 3594},
+												val:        "//",
+												ignoreCase: false,
+												want:       "\"//\"",
+											},
+											&zeroOrMoreExpr{
+												pos: position{line: 197, col: 17, offset: 3599},
+												expr: &charClassMatcher{
+													pos:        position{line: 197, col: 17, offset: 3599},
+													val:        "[^\\n]",
+													chars:      []rune{'\n'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+											},
+										},
+									},
+									&charClassMatcher{
+										pos:        position{line: 201, col: 15, offset: 3647},
+										val:        "[ \\t\\r\\n]",
+										chars:      []rune{' ', '\t', '\r', '\n'},
+										ignoreCase: false,
+										inverted:   false,
+									},
+								},
+							},
+						},
 						&labeledExpr{
-							pos:   position{line: 19, col: 9, offset: 152},
+							pos:   position{line: 19, col: 11, offset: 154},
 							label: "rs",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 19, col: 12, offset: 155},
+								pos: position{line: 19, col: 14, offset: 157},
 								expr: &seqExpr{
-									pos: position{line: 19, col: 14, offset: 157},
+									pos: position{line: 19, col: 16, offset: 159},
 									exprs: []interface{}{
-										&zeroOrMoreExpr{
-											pos: position{line: 191, col: 6, offset: 3525},
-											expr: &choiceExpr{
-												pos: position{line: 193, col: 10, offset: 3541},
-												alternatives: []interface{}{
-													&seqExpr{
-														pos: position{line: 197, col: 12, offset: 3594},
-														exprs: []interface{}{
-															&litMatcher{
-																pos:        position{line: 197, col: 12, offset: 3594},
-																val:        "//",
-																ignoreCase: false,
-																want:       "\"//\"",
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 197, col: 17, offset: 3599},
-																expr: &charClassMatcher{
-																	pos:        position{line: 197, col: 17, offset: 3599},
-																	val:        "[^\\n]",
-																	chars:      []rune{'\n'},
-																	ignoreCase: false,
-																	inverted:   true,
-																},
-															},
-														},
-													},
-													&charClassMatcher{
-														pos:        position{line: 201, col: 15, offset: 3647},
-														val:        "[ \\t\\r\\n]",
-														chars:      []rune{' ', '\t', '\r', '\n'},
-														ignoreCase: false,
-														inverted:   false,
-													},
-												},
-											},
-										},
 										&ruleRefExpr{
 											pos:  position{line: 19, col: 16, offset: 159},
 											name: "Rule",
@@ -1529,7 +1529,7 @@ var g = &grammar{
 func (c *current) onFile1(rs interface{}) (interface{}, error) {
 	f := &ast.File{}
 	for _, i := range rs.([]interface{}) {
-		r := i.([]interface{})[1].(*ast.Rule)
+		r := i.([]interface{})[0].(*ast.Rule)
 		f.Rules = append(f.Rules, r)
 	}
 	return f, nil
diff --git a/parse/rules.peg b/parse/rules.peg
index e83fe84..aef8889 100644
--- a/parse/rules.peg
+++ b/parse/rules.peg
@@ -16,10 +16,10 @@ type (
 
 // File
 
-File <- rs:( _ Rule _ )* EOF {
+File <- _ rs:( Rule _ )* EOF {
     f := &ast.File{}
     for _, i := range rs.([]interface{}) {
-        r := i.([]interface{})[1].(*ast.Rule)
+        r := i.([]interface{})[0].(*ast.Rule)
         f.Rules = append(f.Rules, r)
     }
     return f, nil
-- 
2.43.0


From d6725f70bba205755cfcbb40d98aaf04b1774295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 09/11] fix: ignore the text of comments in Go expressions

---
 parse/internal/goexpr/parse.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index d2bcc2c..87a424b 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -29,18 +29,23 @@ func Parse(x string) (goast.Expr, error) {
 func joinlines(x string) string {
 	fset := gotoken.NewFileSet()
 	var s goscanner.Scanner
-	s.Init(fset.AddFile("", fset.Base(), len(x)), []byte(x), nil, 0)
+	s.Init(fset.AddFile("", fset.Base(), len(x)), []byte(x), nil, goscanner.ScanComments)
 
 	var toks []string
 	for {
+		errors := s.ErrorCount
 		_, tok, lit := s.Scan()
 		switch {
-		case s.ErrorCount > 0:
-			return x
 		case tok == gotoken.EOF:
 			return strings.Join(toks, " ")
 		case tok == gotoken.SEMICOLON && lit == "\n":
 			// Inserted at line break or end of input.
+		case tok == gotoken.COMMENT:
+			if strings.HasPrefix(lit, "/*") && (len(lit) < 4 || !strings.HasSuffix(lit, "*/")) {
+				return x
+			}
+		case tok == gotoken.ILLEGAL || s.ErrorCount > errors:
+			return x
 		case lit != "":
 			toks = append(toks, lit)
 		default:
-- 
2.43.0


From 976aea347ea004d8eb139116bfee1776344440e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 10/11] fix: clear every position of Go literals

---
 parse/internal/goexpr/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/internal/goexpr/parse.go b/parse/internal/goexpr/parse.go
index 87a424b..4a99e26 100644
--- a/parse/internal/goexpr/parse.go
+++ b/parse/internal/goexpr/parse.go
@@ -62,7 +62,8 @@ func clearpos(expr goast.Expr) error {
 		}
 		switch n := node.(type) {
 		case *goast.BasicLit:
-			n.ValuePos = gotoken.NoPos
+			// Recent versions of Go record the end position as well.
+			*n = goast.BasicLit{Kind: n.Kind, Value: n.Value}
 		case *goast.ParenExpr:
 			n.Lparen = gotoken.NoPos
 			n.Rparen = gotoken.NoPos
-- 
2.43.0


From ca7c0b5fc5bad90b438c7742865441f6b6d28c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:46 +0000
Subject: [PATCH 11/11] fix: expand opcodes with a group of a single
 alternative

A group of one beside a larger group was indexed out of range. Such groups
cannot be written, but trees may have them.
---
 pass/alt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pass/alt.go b/pass/alt.go
index 7100a47..ca07294 100644
--- a/pass/alt.go
+++ b/pass/alt.go
@@ -164,7 +164,7 @@ func expandopcodeparts(parts ast.OpcodeParts) ([]ast.Opcode, error) {
 			case ast.Opcode:
 				alts[i] += p
 			case ast.OpcodeAlt:
-				alts[i] += p[i]
+				alts[i] += p[idx(i, len(p))]
 			default:
 				return nil, errutil.UnexpectedType(part)
 			}
-- 
2.43.0

