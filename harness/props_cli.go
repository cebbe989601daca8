package main

// C15 and C16: the command.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/smt2"
)

// cliFile is one file or other entry put into the case directory.
type cliFile struct {
	Path  string `json:"path"`            // relative to the case directory
	Kind  string `json:"kind,omitempty"`  // file (default), dir, link
	Text  string `json:"text,omitempty"`  // content or link target
	Mode  uint32 `json:"mode,omitempty"`  // if not 0
	Owner int    `json:"owner,omitempty"` // uid, if not 0
}

// cliCase is one run of the command.
type cliCase struct {
	Entries []cliFile `json:"entries"`
	Cwd     string    `json:"cwd"`
	Args    []string  `json:"args"` // DIR stands for the case directory
	Outdir  string    `json:"outdir"`
	Rules   []*Rule   `json:"rules"`         // of all good files, in argument order
	UID     int       `json:"uid,omitempty"` // run as this user if not 0
	Expect  string    `json:"expect"`        // ok, bad input, unwritable
	Names   []string  `json:"names"`         // one of these must be on stderr
	What    string    `json:"what"`
}

type entryState struct {
	mode os.FileMode
	text string
}

// snapshot reads a directory tree.
func snapshot(root string) (map[string]entryState, error) {
	m := map[string]entryState{}
	err := filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, path)
		st := entryState{mode: fi.Mode()}
		switch {
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			st.text = string(b)
		case fi.Mode()&os.ModeSymlink != 0:
			st.text, _ = os.Readlink(path)
		}
		m[rel] = st
		return nil
	})
	return m, err
}

var cliSerial int

var progressLine = regexp.MustCompile(`^(ssarules: )?(parsed [0-9]+ rules|filter simple: [0-9]+|expand alternates: [0-9]+|smt2: written to)`)

// runCLI runs one case in a directory of its own.
func runCLI(c cliCase) Outcome {
	if env.CLI == "" {
		return Outcome{Infra: "no command given"}
	}
	cliSerial++
	dir := filepath.Join(env.Scratch, fmt.Sprintf("cli%d-%d", os.Getpid(), cliSerial))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return Outcome{Infra: err.Error()}
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, c.Cwd), 0o755)
	if c.UID != 0 {
		os.Chown(filepath.Join(dir, c.Cwd), c.UID, c.UID)
	}
	for _, e := range c.Entries {
		path := filepath.Join(dir, e.Path)
		if !strings.HasPrefix(path, dir+"/") {
			return Outcome{Infra: "bad path " + e.Path}
		}
		err := os.MkdirAll(filepath.Dir(path), 0o755)
		if err == nil {
			switch e.Kind {
			case "dir":
				err = os.MkdirAll(path, 0o755)
			case "link":
				err = os.Symlink(e.Text, path)
			case "hard":
				err = os.Link(filepath.Join(dir, e.Text), path)
			default:
				err = os.WriteFile(path, []byte(e.Text), 0o644)
			}
		}
		if err == nil && e.Owner != 0 && e.Kind != "link" {
			err = os.Chown(path, e.Owner, e.Owner)
		}
		if err == nil && e.Mode != 0 {
			err = os.Chmod(path, os.FileMode(e.Mode))
		}
		if err != nil {
			return Outcome{Infra: err.Error()}
		}
	}
	before, err := snapshot(dir)
	if err != nil {
		return Outcome{Infra: err.Error()}
	}
	var args []string
	for _, a := range c.Args {
		args = append(args, strings.ReplaceAll(a, "DIR", dir))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, env.CLI, args...)
	cmd.Dir = filepath.Join(dir, c.Cwd)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + cmd.Dir, "TMPDIR=" + cmd.Dir, "GOTRACEBACK=single"}
	if c.UID != 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uint32(c.UID), Gid: uint32(c.UID), NoSetGroups: true}}
	}
	runErr := cmd.Run()
	if ctx.Err() != nil {
		return Outcome{Infra: "the command takes more than 60 s"}
	}
	var exit *exec.ExitError
	if runErr != nil && !errors.As(runErr, &exit) {
		if c.UID != 0 && (errors.Is(runErr, syscall.EPERM) || errors.Is(runErr, syscall.EACCES)) {
			return Outcome{Trivial: true, Labels: []string{"no other user"}}
		}
		return Outcome{Infra: runErr.Error()}
	}
	status := 0
	if exit != nil {
		status = exit.ExitCode()
		if status < 0 {
			return Outcome{Infra: "the command was killed: " + exit.Error()}
		}
	}
	if strings.Contains(stderr.String(), "goroutine 1 [") {
		return fail("the command crashes:\n%s", tail(stderr.String(), 1500))
	}
	after, err := snapshot(dir)
	if err != nil {
		return Outcome{Infra: err.Error()}
	}
	show := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "arguments %q in %q\n", c.Args, c.Cwd)
		for _, e := range c.Entries {
			if len(e.Text) > 600 {
				e.Text = e.Text[:600] + "..."
			}
			fmt.Fprintf(&b, "%s %s: %q\n", e.Kind, e.Path, e.Text)
		}
		fmt.Fprintf(&b, "stderr: %s", tail(stderr.String(), 1500))
		return b.String()
	}

	// The scripts to be written, by the library.
	want := map[string]string{}
	out := Outcome{Labels: []string{c.Expect, c.What}}
	if c.Expect != "bad input" {
		var simple []*Rule
		for _, r := range c.Rules {
			if r.simple() {
				simple = append(simple, r)
			}
		}
		rules, ok := expandModel(simple)
		if !ok {
			return Outcome{Infra: "generator: incompatible alternates"}
		}
		for i, r := range rules {
			if b, err := smt2.Generate(toRule(r)); err == nil {
				want[filepath.Join(c.Cwd, c.Outdir, fmt.Sprintf("%04d.smt2", i))] = string(b)
			}
		}
		if c.Expect == "ok" {
			if len(simple) > 0 && len(simple) < len(c.Rules) {
				out.Labels = append(out.Labels, "rules dropped")
			}
			if len(rules) > len(simple) {
				out.Labels = append(out.Labels, "rules expanded")
			}
			if len(want) > 0 && len(want) < len(rules) {
				out.Labels = append(out.Labels, "untranslatable among others")
			}
			if len(want) >= 3 {
				out.Labels = append(out.Labels, "scripts>=3")
			}
			out.Trivial = len(want) == 0
		}
	}
	names := map[string]bool{}
	for n := range before {
		names[n] = true
	}
	for n := range after {
		names[n] = true
	}
	var sorted []string
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	for n := range want {
		if _, ok := after[n]; !ok && c.Expect == "ok" {
			return fail("script %s was not written (exit status %d)\n%s", n, status, show())
		}
	}
	for _, n := range sorted {
		b, inB := before[n]
		a, inA := after[n]
		w, wanted := want[n]
		if inA && wanted && a.mode.IsRegular() {
			if a.text == w {
				continue
			}
			if c.Expect == "ok" {
				return fail("script %s is\n%s\nnot the script of its rule\n%s\n%s", n, a.text, w, show())
			}
		}
		if !inA {
			return fail("the command removed %s\n%s", n, show())
		}
		if !inB {
			return fail("the command made %s (exit status %d)\n%s", n, status, show())
		}
		if a != b {
			return fail("the command changed %s to %q (exit status %d)\n%s", n, tail(a.text, 500), status, show())
		}
	}
	if c.Expect == "ok" {
		if status != 0 {
			return fail("exit status %d\n%s", status, show())
		}
		return out
	}
	if status == 0 {
		return fail("exit status 0 in spite of %s\n%s", c.What, show())
	}
	lines := strings.Split(strings.TrimSpace(stderr.String()), "\n")
	if last := lines[len(lines)-1]; last == "" || progressLine.MatchString(last) {
		return fail("no message on standard error for %s\n%s", c.What, show())
	}
	if len(c.Names) > 0 {
		found := false
		for _, n := range c.Names {
			found = found || strings.Contains(stderr.String(), strings.ReplaceAll(n, "DIR", dir))
		}
		if !found {
			return fail("standard error does not name %q for %s\n%s", c.Names, c.What, show())
		}
	}
	return out
}

// altSMTRule draws a rule with alternation groups most alternatives of which
// can be translated.
func (g *G) altSMTRule() *Rule {
	var r *Rule
	for {
		r = g.smtRule(2, 3)
		if w := compileWidth(r); w != 0 {
			break
		}
	}
	n := 2 + g.size(2, 6)
	widths := []string{}
	for k := 0; k < n; k++ {
		widths = append(widths, g.pick([]string{"8", "16", "32", "64", "8", "128"}))
	}
	if g.chance(3) {
		widths[g.n(n)] = g.pick([]string{"F", "", "7"})
	}
	all := g.chance(1)
	r = r.deepClone()
	r.walkS(func(s *SX) {
		name := s.Op[0].Lit
		base := strings.TrimRight(name, "0123456789")
		if base == name {
			return
		}
		switch {
		case all || g.n(4) > 0:
			if g.chance(2) {
				full := []string{}
				for _, w := range widths {
					full = append(full, base+w)
				}
				for _, f := range full {
					if f == "" {
						return
					}
				}
				s.Op = []Part{{Alts: full}}
				return
			}
			for _, w := range widths {
				if w == "" {
					return
				}
			}
			s.Op = []Part{{Lit: base}, {Alts: append([]string{}, widths...)}}
		}
	})
	return r
}

// cliRule draws a rule for the command: simple or not, translatable or not.
func (g *G) cliRule() *Rule {
	switch g.n(10) {
	case 0, 1, 2, 3:
		return g.smtRule(2, 3)
	case 4, 5:
		return g.altSMTRule()
	case 6:
		r := g.smtRule(2, 3).deepClone()
		g.smtDefect(r)
		if _, ok := r.alternatives(); !ok {
			return g.smtRule(1, 2)
		}
		return r
	case 7:
		// Not simple; alternates do not matter then.
		o := fullopts
		o.maxargs, o.depth = 4, 2
		r := g.rule(o)
		if r.simple() {
			r.Block = "b"
		}
		return r
	case 8:
		// A translatable rule with one feature that makes it not simple.
		r := g.smtRule(2, 3).deepClone()
		var ss []*SX
		r.walkS(func(s *SX) { ss = append(ss, s) })
		s := ss[g.n(len(ss))]
		switch g.n(8) {
		case 0:
			s.Bind = "x"
		case 1:
			s.Type = "t"
		case 2:
			s.Aux = &GX{K: "id", S: "s"}
		case 3:
			s.AuxInt = &GX{K: "lit", S: "1"}
		case 4:
			s.Ell = true
		case 5:
			s.Trail = true
		case 6:
			r.Cond = &GX{K: "id", S: "c"}
		default:
			r.Block = "b"
		}
		return r
	default:
		o := fullopts
		o.maxargs, o.depth, o.featk, o.condk = 4, 2, 30, 30
		return g.consistentRule(o)
	}
}

// crowd puts many rules of one kind among others, at one place.
func (g *G) crowd(rs []*Rule) []*Rule {
	r := &Rule{M: &Val{V: "x"}, R: &Val{V: "y"}}
	switch g.n(4) {
	case 0:
		// Dropped.
		r.Block = "b"
	case 1:
		r = g.smtRule(1, 1)
	}
	n := g.edge(130)
	if r.M.S == nil {
		n = g.edge(5000)
	}
	at := g.n(len(rs) + 1)
	out := append([]*Rule{}, rs[:at]...)
	for ; n > 0; n-- {
		out = append(out, r)
	}
	return append(out, rs[at:]...)
}

// cliFiles draws the input files of a case and returns their arguments.
func (g *G) cliFiles(c *cliCase, max int) (args []string) {
	used := map[string]bool{}
	for k := g.size(3, max); k > 0; k-- {
		if len(args) > 0 && g.chance(4) {
			// The same file again, perhaps by another name or copied.
			i := g.n(len(args))
			p := c.place(args[i])
			twin := fmt.Sprintf("twin%d.rules", len(c.Entries))
			switch g.n(6) {
			case 0:
				args = append(args, args[i])
			case 1:
				args = append(args, "DIR/./"+p)
			case 2:
				args = append(args, "DIR/"+c.Cwd+strings.Repeat("/..", 1+strings.Count(c.Cwd, "/"))+"/"+p)
			case 3:
				c.Entries = append(c.Entries, cliFile{Path: twin, Kind: "link", Text: p})
				args = append(args, "DIR/"+twin)
			case 4:
				c.Entries = append(c.Entries, cliFile{Path: twin, Kind: "hard", Text: p})
				args = append(args, "DIR/"+twin)
			default:
				text, _ := c.textOf(p)
				c.Entries = append(c.Entries, cliFile{Path: twin, Text: text})
				args = append(args, "DIR/"+twin)
			}
			continue
		}
		name := g.pick([]string{"a.rules", "b.rules", "z", "in/c.rules", "in/sub/d.rules", "e f.rules", "é.rules", "10.rules", "9.rules", "%d.rules", "x.smt2", "0.rules", "B.rules", "-x.rules", ".hidden", "*.rules", "[ab].rules", "$HOME", "~", "a,b.rules", "@a", "a:b.rules", "a.rules.gz", "a.rules~", "-", "?", "http:x", "{a,z}"})
		for used[name] {
			name = "n" + name
		}
		used[name] = true
		var rs []*Rule
		n := g.size(4, 20)
		for ; n > 0; n-- {
			rs = append(rs, g.cliRule())
		}
		if rs = g.echoes(rs); g.chance(5) {
			rs = g.crowd(rs)
		}
		text := ""
		if len(rs) == 0 {
			text = g.pick([]string{"", "// nothing\n", "\n"})
		} else {
			text = g.source(rs)
		}
		c.Entries = append(c.Entries, cliFile{Path: name, Text: text})
		arg := "DIR/" + name
		if g.chance(2) {
			if rel, err := filepath.Rel("/"+c.Cwd, "/"+name); err == nil && !strings.HasPrefix(rel, "-") {
				arg = rel
			}
		}
		if name == "-" && g.chance(1) {
			// A file of this name, not the standard input.
			c.Entries[len(c.Entries)-1].Path = filepath.Join(c.Cwd, name)
			arg = "-"
		}
		args = append(args, arg)
	}
	return args
}

// place is the path in the case directory that an argument stands for.
func (c *cliCase) place(arg string) string {
	p := "/" + c.Cwd + "/" + arg
	if strings.HasPrefix(arg, "DIR/") {
		p = strings.TrimPrefix(arg, "DIR")
	}
	return filepath.Clean(p)[1:]
}

// textOf is the text of the file at a place, or of what is linked there.
func (c *cliCase) textOf(p string) (string, bool) {
	for _, e := range c.Entries {
		if filepath.Clean(e.Path) == p {
			switch e.Kind {
			case "link", "hard":
				return c.textOf(e.Text)
			case "dir":
				return "", false
			}
			return e.Text, true
		}
	}
	return "", false
}

// collect finds the rules of the arguments by parsing the files' texts with
// the reference parser.
func (c *cliCase) collect(args []string) error {
	c.Rules = nil
	for _, a := range args {
		p := c.place(a)
		text, ok := c.textOf(p)
		if !ok {
			return fmt.Errorf("no file %s", p)
		}
		rs, _, err := refParse(text, false)
		if err != nil {
			return fmt.Errorf("%s: %v", p, err)
		}
		c.Rules = append(c.Rules, rs...)
	}
	return nil
}

// cliOut draws the output directory and the flags that name it.
func (g *G) cliOut(c *cliCase) (flags []string) {
	if g.chance(2) {
		c.Outdir = ""
		switch g.n(3) {
		case 0:
			return []string{"-outdir", "."}
		case 1:
			return []string{"-outdir="}
		}
		return nil
	}
	c.Outdir = g.pick([]string{"out", "o/p/q", "out dir", "é", "out.smt2", "%d", "*", "[o]", "$HOME", "~", "a:b", "-o", ",", "%04d.smt2"})
	c.Entries = append(c.Entries, cliFile{Path: filepath.Join(c.Cwd, c.Outdir), Kind: "dir"})
	path := g.pick([]string{c.Outdir, c.Outdir + "/", "./" + c.Outdir, "DIR/" + filepath.Join(c.Cwd, c.Outdir), c.Outdir + "/../" + filepath.Base(c.Outdir)})
	if g.chance(3) {
		// A link to it.
		c.Entries = append(c.Entries, cliFile{Path: filepath.Join(c.Cwd, "lnk"), Kind: "link", Text: c.Outdir})
		path = g.pick([]string{"lnk", "lnk/", "DIR/" + filepath.Join(c.Cwd, "lnk"), "lnk/."})
	}
	switch g.n(3) {
	case 0:
		return []string{"-outdir", path}
	case 1:
		return []string{"-outdir=" + path}
	}
	return []string{"--outdir", path}
}

// litter puts unrelated and stale files where scripts go.
func (g *G) litter(c *cliCase) {
	for k := g.size(2, 5); k > 0; k-- {
		name := g.pick([]string{"0000.smt2", "0001.smt2", "0002.smt2", "0003.smt2", "0007.smt2", "0100.smt2", "0.smt2", "x.smt2", "README", "0000.smt2.bak", "10000.smt2"})
		p := filepath.Join(c.Cwd, c.Outdir, name)
		dup := false
		for _, e := range c.Entries {
			dup = dup || e.Path == p
		}
		if !dup {
			c.Entries = append(c.Entries, cliFile{Path: p, Text: "stale " + strings.Repeat("old text ", g.n(400))})
		}
	}
}

func init() {
	okCase := func(g *G, max int) cliCase {
		c := cliCase{Expect: "ok", What: "generated files", Cwd: g.pick([]string{"cwd", "in", "w/x"})}
		flags := g.cliOut(&c)
		args := g.cliFiles(&c, max)
		g.litter(&c)
		if err := c.collect(args); err != nil {
			panic(err)
		}
		if len(args) > 0 && strings.HasPrefix(args[0], "-") || g.chance(3) {
			flags = append(flags, "--")
		}
		c.Args = append(flags, args...)
		return c
	}
	register(&Prop{
		ID: "C15", Level: "exploration",
		Rule: "random sets of rule files (translatable rules, rules with alternates, rules with one disqualifying feature or SMT defect, arbitrary rules; comment-only files, repeated files by the same or another name or link, copies, odd file names, relative and absolute paths) given to the built command in a scratch directory with explicit or default output directory and stale or unrelated files in it; the directory tree afterwards must be the tree before plus exactly the expected scripts, which come from an independent model of loading, filtering, expansion and numbering and the library's generator. Non-trivial: at least one script expected.",
		Subs: []*Sub{
			mk("files", 1600, 60000, func(g *G) cliCase { return okCase(g, 8) }, runCLI),
			{
				Name: "many", Quick: 0, Thorough: 0,
				Fixed: func() []any {
					var cs []any
					for _, n := range []int{0, 12, 10030} {
						// Translatable rules among others, past four digits.
						var b strings.Builder
						var rs []*Rule
						plain := &Rule{M: &Val{V: "x"}, R: &Val{V: "y"}}
						good := &Rule{M: &Val{S: &SX{Op: []Part{{Lit: "Add8"}}, Args: []*Val{{V: "x"}, {V: "y"}}}}, R: &Val{V: "x"}}
						alts := &Rule{M: &Val{S: &SX{Op: []Part{{Lit: "Neg"}, {Alts: []string{"8", "F", "64"}}}, Args: []*Val{{V: "x"}}}}, R: &Val{V: "x"}}
						for i := 0; i < n; i++ {
							r := plain
							switch {
							case i == 5 || i == n-20:
								r = alts
							case i%997 == 2 || i > 9990 && i%3 == 0:
								r = good
							}
							rs = append(rs, r)
							b.WriteString(ruleText(r) + "\n")
						}
						c := cliCase{Expect: "ok", What: "many rules", Cwd: "w", Outdir: "out", Rules: rs}
						c.Entries = []cliFile{{Path: "a.rules", Text: b.String()}, {Path: "w/out", Kind: "dir"}}
						c.Args = []string{"-outdir", "out", "DIR/a.rules"}
						cs = append(cs, c)
					}
					return cs
				},
				check:  func(c any) Outcome { return runCLI(c.(cliCase)) },
				decode: mk("", 0, 0, nil, runCLI).decode,
			},
		},
	})

	badKinds := []string{"missing", "no name", "another case", "no extension", "not a directory either", "a pattern", "a space around", "too long", "directory", "malformed", "mutant", "invalid utf8", "not a directory", "dangling link", "link loop", "read error", "unreadable"}
	register(&Prop{
		ID: "C16", Level: "fault_enumeration",
		Rule: "the sets of rule files of C15 with one or two bad ones (missing, no name, a name in another case or without its extension, a pattern, a directory, malformed, a mutant both parsers reject, invalid UTF-8, below a file, dangling link, link loop, too long a name, read error, unreadable) at random positions, or with incompatible alternates in a simple rule at a random place: non-zero exit status, message, nothing written or changed; and sets with at least one script that cannot be written (no such directory, a file for a directory, a directory in its place, a full device at its place, a directory without permission): non-zero exit status and a message. All cases count that run the command.",
		Subs: []*Sub{
			mk("badfile", 1600, 60000, func(g *G) cliCase {
				c := okCase(g, 5)
				c.Expect = "bad input"
				nf := 0
				for _, a := range c.Args {
					if a == "--" || strings.HasPrefix(a, "-outdir") || strings.HasPrefix(a, "--outdir") {
						nf++
						if a == "-outdir" || a == "--outdir" {
							nf++
						}
					}
				}
				flags, args := c.Args[:nf:nf], append([]string{}, c.Args[nf:]...)
				var kinds []string
				for k := 1 + g.n(8)/7; k > 0; k-- {
					kind := g.pick(badKinds)
					kinds = append(kinds, kind)
					name := fmt.Sprintf("bad%d %s.rules", k, g.pick([]string{"q", "file", "é"}))
					e := cliFile{Path: name, Text: "(Add8 x y) => x\n"}
					add := true
					switch kind {
					case "missing":
						add = false
					case "directory":
						e.Kind, e.Text = "dir", ""
					case "malformed":
						e.Text = g.pick([]string{"(Add8 x y) => x\n(Add8 x y) =>\n", "(Add8 x y => x\n", "(Add8 x y) => x\nx", "=>", "(Add8 x y) => x )\n", "\x00", "(Add8 x y) && => x\n", "(Add8 x [1_] y) => x\n", "(Add8 x y) => x\n(Sub8 x y) => func\n => x"})
					case "mutant":
						for i := 0; ; i++ {
							e.Text = g.mutate(g.seedText())
							_, _, err := refParse(e.Text, false)
							_, err2 := parse.String(e.Text)
							if err != nil && err2 != nil {
								break
							}
							if i == 8 {
								e.Text = "("
								break
							}
						}
					case "invalid utf8":
						e.Text = g.pick([]string{"(Add8 x y) => x // \xff\n", "(Add8 x y) => x\n\xc3", "\xf0\x90(Add8 x y) => x"})
					case "not a directory":
						c.Entries = append(c.Entries, e)
						name += "/x"
						add = false
					case "no name", "another case", "no extension", "not a directory either", "a pattern", "a space around":
						// Not the file, whatever it resembles.
						c.Entries = append(c.Entries, e)
						add = false
						switch kind {
						case "no name":
							name = ""
						case "another case":
							name = strings.ToUpper(name)
						case "no extension":
							name = strings.TrimSuffix(name, ".rules")
						case "not a directory either":
							name += g.pick([]string{"/", "/.", "//"})
						case "a pattern":
							name = g.pick([]string{"bad?*", "*.rules", "bad[0-9]*"})
							for _, e := range c.Entries {
								if e.Path == name {
									name = "bad?*"
								}
							}
						default:
							name = g.pick([]string{" " + name, name + " ", name + "\n"})
						}
					case "too long":
						name = strings.Repeat("x", 300)
						add = false
					case "dangling link":
						e.Kind, e.Text = "link", "nowhere"
					case "link loop":
						e.Kind, e.Text = "link", name
					case "read error":
						e.Kind, e.Text = "link", "/proc/self/mem"
					case "unreadable":
						e.Mode = 0o200
						c.UID = 65534
					}
					if add {
						c.Entries = append(c.Entries, e)
					}
					arg := "DIR/" + name
					if name == "" {
						arg = ""
					}
					c.Names = append(c.Names, arg)
					at := g.n(len(args) + 1)
					if g.chance(1) {
						at = len(args)
					}
					args = append(args, "")
					copy(args[at+1:], args[at:])
					args[at] = arg
				}
				if c.UID != 0 {
					// The other user could write.
					c.Entries = append(c.Entries, cliFile{Path: filepath.Join(c.Cwd, c.Outdir), Kind: "dir", Owner: c.UID})
				}
				c.Args = append(flags, args...)
				c.What = strings.Join(kinds, ", ")
				c.Rules = nil
				return c
			}, runCLI),
			mk("alternates", 1200, 40000, func(g *G) cliCase {
				c := okCase(g, 4)
				// One more file, with a bad rule at any place.
				var rs []*Rule
				for k := g.size(3, 12); k > 0; k-- {
					rs = append(rs, g.cliRule())
				}
				var bad *Rule
				for {
					bad = g.smtRule(3, 3).deepClone()
					var ss []*SX
					bad.walkS(func(s *SX) { ss = append(ss, s) })
					n := 2 + g.n(4)
					m := n + 1 + g.n(3)
					if g.chance(1) {
						n, m = m, n
					}
					grp := func(n int) Part {
						p := Part{Alts: []string{}}
						for ; n > 0; n-- {
							p.Alts = append(p.Alts, g.pick([]string{"8", "16", "32", "64"}))
						}
						return p
					}
					a, b := ss[g.n(len(ss))], ss[g.n(len(ss))]
					a.Op = append([]Part{}, append(a.Op, grp(n))...)
					b.Op = append([]Part{}, append(b.Op, grp(m))...)
					if _, ok := bad.alternatives(); !ok && bad.simple() {
						break
					}
				}
				at := g.n(len(rs) + 1)
				rs = append(rs, nil)
				copy(rs[at+1:], rs[at:])
				rs[at] = bad
				if g.chance(3) {
					rs = g.crowd(rs)
				}
				c.Entries = append(c.Entries, cliFile{Path: "last.rules", Text: g.source(rs)})
				c.Args = append(c.Args, "DIR/last.rules")
				c.Expect, c.What, c.Rules = "bad input", "incompatible alternates", nil
				return c
			}, runCLI),
			mk("unwritable", 1200, 40000, func(g *G) cliCase {
				c := cliCase{Expect: "unwritable", Cwd: "cwd", Outdir: "out"}
				args := g.cliFiles(&c, 4)
				// At least one script.
				c.Entries = append(c.Entries, cliFile{Path: "last.rules", Text: ruleText(g.smtRule(1, 2)) + "\n"})
				args = append(args, "DIR/last.rules")
				if err := c.collect(args); err != nil {
					panic(err)
				}
				var simple []*Rule
				for _, r := range c.Rules {
					if r.simple() {
						simple = append(simple, r)
					}
				}
				rules, _ := expandModel(simple)
				var idx []int
				for i, r := range rules {
					if _, _, _, err := compileRule(r); err == nil {
						idx = append(idx, i)
					}
				}
				c.What = g.pick([]string{"no such directory", "a file for a directory", "a directory in the place of a script", "a full device in the place of a script", "a directory in the place of a script", "a full device in the place of a script", "no permission", "a dead link in the place of a script"})
				at := idx[g.n(len(idx))]
				path := filepath.Join("cwd/out", fmt.Sprintf("%04d.smt2", at))
				switch c.What {
				case "no such directory":
				case "a file for a directory":
					c.Entries = append(c.Entries, cliFile{Path: "cwd/out", Text: "x"})
				case "a directory in the place of a script":
					c.Entries = append(c.Entries, cliFile{Path: path, Kind: "dir"})
				case "a full device in the place of a script":
					c.Entries = append(c.Entries, cliFile{Path: path, Kind: "link", Text: "/dev/full"})
				case "a dead link in the place of a script":
					c.Entries = append(c.Entries, cliFile{Path: path, Kind: "link", Text: "no/where"})
				case "no permission":
					c.Entries = append(c.Entries, cliFile{Path: "cwd/out", Kind: "dir", Mode: 0o555})
					c.UID = 65534
				}
				c.Args = append([]string{"-outdir", "out"}, args...)
				return c
			}, func(c cliCase) Outcome { return runCLI(c) }),
		},
	})
}
