package main

// Text that is near, but often outside, the rules language.

import (
	_ "embed"
	"strings"
)

//go:embed corpus/rules.txt
var corpusText string

var corpus = strings.Split(strings.TrimSpace(corpusText), "\n")

var snippets = []string{
	"(", ")", "[", "]", "{", "}", "<", ">", "=>", "&&", "...", "___", "_", "__", ":", "@", "@b", ",", "|", "x", "x:", "x:(", "A", "(A|B)", "(A)", "(|A)", "(A|)", " ", "\n", "\t", "\r", "//", "// c\n", "// => y\n", "/*", "*/", "/* c */", "\"", "'", "`", "\\", "\"]\"", "'}'", "`=>`", ".", "..", "+", "-", "!", "*", "&", "^", "=", "==", "1", "0x", "08", "1.5", "f(x)", "f()", "f(_)", "f(x...)", "f(1)", "F(x)", "x.y", "x[0]", "T{}", "func(){}", "x.(T)", "[]int", "é", "\x00", "\ufeff", "\ufffd", "\xff", "\xc3", "\u2028", "nil", "type", "<t>", "[1]", "[c+1]", "{s}", "(A x)", " => ", " && ", "&& ", "=>x", ";", "#", "$", "~", "x y", "  ", "\v", "\f", "\u00a0", "(A", "A)", " ...", " ___", "... ", "[x", "{x", "<x", "x=>", "(A x) => y\n", "@é ", "=> @b ", "<-", "a<-b", "&^",
}

// source text: rendered or from the corpus.
func (g *G) seedText() string {
	if g.chance(1) {
		var b strings.Builder
		for k := 1 + g.n(3); k > 0; k-- {
			b.WriteString(g.pick(corpus))
			b.WriteString("\n")
		}
		return b.String()
	}
	o := fullopts
	o.maxargs = 6
	o.depth = 3
	return g.source(g.rules(o, 3))
}

// mutate edits text a few times at random.
func (g *G) mutate(s string) string {
	for k := 1 + g.n(4); k > 0; k-- {
		if s == "" {
			return g.pick(snippets)
		}
		i := g.n(len(s) + 1)
		switch g.n(10) {
		case 8: // a character that looks alike or folds to another
			s = g.lookalike(s, i)
		case 0: // delete one byte
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 1, 2: // insert a snippet
			s = s[:i] + g.snippet() + s[i:]
		case 3: // delete a range
			j := i + g.n(8)
			if j > len(s) {
				j = len(s)
			}
			s = s[:i] + s[j:]
		case 4: // duplicate a range
			j := i + g.n(20)
			if j > len(s) {
				j = len(s)
			}
			s = s[:j] + s[i:]
		case 5: // replace a byte
			if i < len(s) {
				s = s[:i] + g.snippet() + s[i+1:]
			}
		case 6: // truncate
			if g.chance(2) {
				s = s[:i]
			} else if i < len(s) {
				s = s[:i] + string(s[i]) + s[i:]
			}
		case 7: // remove or add layout
			for j := i; j < len(s); j++ {
				if s[j] == ' ' || s[j] == '\n' {
					s = s[:j] + g.pick([]string{"", "", "\n", "//\n", "\t", " // => y\n"}) + s[j+1:]
					break
				}
			}
		default: // swap two ranges
			j := g.n(len(s) + 1)
			if i > j {
				i, j = j, i
			}
			m := i + g.n(j-i+1)
			s = s[:i] + s[m:j] + s[i:m] + s[j:]
		}
	}
	return s
}

var lookalikes = map[byte][]string{
	'k': {"\u212a"}, 'K': {"\u212a", "\u039a"}, 's': {"\u017f"}, 'S': {"\u017f"},
	'i': {"\u0131"}, 'I': {"\u0130"}, 'x': {"\u0445", "\u00d7", "\uff58"}, 'A': {"\u0391", "\uff21", "\u00c4"},
	'a': {"\u00aa", "\u0430"}, '0': {"\uff10", "\u0660"}, '1': {"\u00b9", "\u0661"}, '2': {"\u00b2"}, '3': {"\u0663"}, '4': {"\u2074"}, '8': {"\u0668"}, '6': {"\u096c"},
	' ': {"\u00a0", "\u2003", "\u3000", "\u200b", "\v", "\f", "\u0085"}, '\n': {"\u2028", "\u2029", "\u0085", "\r", "\v"}, '_': {"\u203f", "\uff3f"},
	'(': {"\uff08"}, ')': {"\uff09"}, '|': {"\u2502", "\u00a6"}, ':': {"\uff1a"}, '=': {"\u2550"}, '>': {"\u203a"}, '.': {"\u2024", "\u2026"}, ',': {"\u060c"}, '&': {"\uff06"}, '@': {"\uff20"}, '/': {"\u2215"}, '-': {"\u2212"},
}

// lookalike replaces the character at or after i by one that is like it.
func (g *G) lookalike(s string, i int) string {
	for ; i < len(s); i++ {
		if l := lookalikes[s[i]]; l != nil {
			return s[:i] + g.pick(l) + s[i+1:]
		}
	}
	return s
}

// frame adds bytes at the start and the end of a text, or changes its line ends.
func (g *G) frame(s string) string {
	s = g.pick([]string{"", "", "\ufeff", "\r\n", "#!x\n", "\x00", "\xff\xfe", "\n\n", "//c\n", "---\n", "/* c */\n", "package x\n", "\x1f\x8b", " ", "\t"}) + s
	s += g.pick([]string{"", "", "\x1a", "\x00", "\x04", "\r", "\ufeff", "\n\n", "\\\n", "\x00\x00", " ", "\n__END__\n", "\n//", "\xff", "\xe2\x82"})
	switch g.n(6) {
	case 4:
		s = strings.ReplaceAll(s, "\n", "\r\n")
	case 5:
		s = strings.ReplaceAll(s, "\n", "\r")
	}
	return s
}

func (g *G) snippet() string {
	if w, ok := g.special(nil, func(string) bool { return true }); ok {
		return w
	}
	return g.pick(snippets)
}

// soup is a random sequence of tokens.
func (g *G) soup() string {
	var b strings.Builder
	for k := 1 + g.size(12, 40); k > 0; k-- {
		if g.chance(1) {
			b.WriteString(g.pick(snippets[:48]))
		} else {
			b.WriteString(g.pick(snippets))
		}
		if g.chance(1) {
			b.WriteString(" ")
		}
	}
	return b.String()
}

// shaped is a rule skeleton whose holes are filled with snippets, so that much
// of it is accepted.
func (g *G) shaped() string {
	var b strings.Builder
	// How hostile this text is: how often holes leave the language.
	h := []int{1, 3, 4, 5, 6, 30}[g.n(6)]
	// Of the fillings the first n are in the language.
	hole := func(n int, ss ...string) {
		switch {
		case !g.chance(h):
			b.WriteString(g.pick(ss[:n]))
		case g.chance(1):
			b.WriteString(g.pick(snippets))
		default:
			b.WriteString(g.pick(ss))
		}
	}
	var val func(d int)
	val = func(d int) {
		if d > 0 && g.chance(1) {
			if g.chance(3) {
				hole(2, "x:", "_:", "x :", "X:")
			}
			b.WriteString("(")
			if g.chance(3) {
				b.WriteString(" ")
			}
			hole(8, "A", "(A|B)", "A(b|c)d", "(A|B|C)x(D|E)", "a", "_", "A_1", "(A|B)(c|d)", "()", "A B")
			for k := g.n(4); k > 0; k-- {
				b.WriteString(g.pick([]string{" ", " ", " ", " ", "\n", " //c\n", " // ]}\n", "  "}))
				if g.chance(1) {
					val(d - 1)
				} else {
					hole(21, "<t>", "[1]", "{s}", "[c+d]", "[f(x)]", "{x.y}", "[-c]", "<t> <u>", "[\"]\"]", "{`}`}", "[a\n+b]", "{f(a,\nb)}", "[ // ]\n1]", "[f(a...)]", "[- -1]", "[&x]", "[*p]", "[<-c]", "['a']", "{(x)}", "[!x]", "[a[0]]", "{T{}}", "[]", "<>", "{}", "[a b]", "['ab']", "[1_]", "[08]", "{x.}", "{.x}", "{(x)}", "{(x}", "[a+]", "[if]", "{a,b}", "{a=b}", "{a:b}", "[!x]", "[a&&b||c]")
				}
			}
			if g.chance(3) {
				hole(1, " ...", "...", " ... ...", " ___ ...")
			}
			if g.chance(3) {
				hole(1, " ___", "___", " ____", " _ __")
			}
			if g.chance(3) {
				b.WriteString(" ")
			}
			b.WriteString(")")
			return
		}
		hole(10, "x", "y", "_", "f(x)", "f(g(x), _)", "f(x,y)", "f( x , y )", "f(// c\nx)", "x1", "x_", "type", "f (x)", "f(x y)", "f(1)", "__", "X", "f()", "f(X)", "f(type)", "func(x)")
	}
	for k := 1 + g.n(3); k > 0; k-- {
		val(3)
		if g.chance(1) {
			hole(5, " && ", " &&\n", " && ", " &&", "\n&& ", "&& ", " &&& ", " && && ")
			for n := 1 + g.n(3); n > 0; n-- {
				if n < 3 && g.chance(1) {
					b.WriteString(g.pick([]string{" + ", " && ", " == ", "||", "\n-", " -", "!= "}))
				}
				hole(9, "a", "a == b", "!f(x)", "\"=>\"", "'\"'", "`// `", "x.y", "(a)", "f(a,b)", "1", " && ", " || ", "\n", "/* => */", " // c\n", "-", "(", ")", " > ", " >= ", " = ", "=")
			}
		}
		hole(4, " => ", "=>", "=> ", " =>\n", " = > ", " ==> ")
		if g.chance(2) {
			hole(5, "@b ", "@b\n", "@b.c[0] ", "@(x) ", "@@ ", "@b", "@ b ", "@b//c\n", "@/ ", "@\n")
		}
		val(2)
		hole(4, "\n", " ", "// c\n", "\n\n", "// c", "", ";")
	}
	return b.String()
}
