package main

// C17-C19: reading, histories and schedules, and the stages together.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	goast "go/ast"
	gotoken "go/token"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/mmcloughlin/ssarules/ast"
	"github.com/mmcloughlin/ssarules/parse"
	"github.com/mmcloughlin/ssarules/pass"
	"github.com/mmcloughlin/ssarules/printer"
	"github.com/mmcloughlin/ssarules/rules"
	"github.com/mmcloughlin/ssarules/smt2"
)

// chunkReader hands out text in pieces of the given sizes (0: an empty read),
// then as much as is asked for, and fails at offset failAt if that is not
// negative, with the last piece or after it.
type chunkReader struct {
	text    string
	pos     int
	sizes   []int
	k       int
	failAt  int
	err     error
	withEnd bool // the end or failure comes with the last piece
}

func (r *chunkReader) Read(p []byte) (int, error) {
	end, err := len(r.text), io.EOF
	if r.failAt >= 0 && r.failAt <= len(r.text) {
		end, err = r.failAt, r.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	empty := false
	if r.k < len(r.sizes) {
		empty = r.sizes[r.k] == 0
		if r.sizes[r.k] < n {
			n = r.sizes[r.k]
		}
		r.k++
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(p, r.text[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end && !empty && (r.withEnd || n == 0) {
		return n, err
	}
	return n, nil
}

// The readers of dressReader: each has methods besides Read, as the readers of
// the standard library have, and all of them are true to what Read does.
type (
	lenReader   struct{ *chunkReader }
	byteReader  struct{ *chunkReader }
	closeReader struct {
		*chunkReader
		closed *bool
	}
	writeToReader struct{ *chunkReader }
	seekReader    struct{ *chunkReader }
	nameReader    struct{ *chunkReader }
	fullReader    struct {
		lenReader
		byter  byteReader
		writer writeToReader
	}
)

// Len is the number of bytes there are still to come.
func (r lenReader) Len() int {
	end := len(r.text)
	if r.failAt >= 0 && r.failAt <= len(r.text) {
		end = r.failAt
	}
	return end - r.pos
}

func (r lenReader) Size() int64 { return int64(r.Len() + r.pos) }

func (r byteReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		if n, err := r.chunkReader.Read(b[:]); n > 0 {
			// An error comes again.
			return b[0], nil
		} else if err != nil {
			return 0, err
		}
	}
}

func (r closeReader) Read(p []byte) (int, error) {
	if *r.closed {
		return 0, os.ErrClosed
	}
	return r.chunkReader.Read(p)
}

func (r closeReader) Close() error {
	*r.closed = true
	return nil
}

func (r writeToReader) WriteTo(w io.Writer) (n int64, err error) {
	buf := make([]byte, 100)
	for {
		k, err := r.chunkReader.Read(buf)
		if k > 0 {
			m, werr := w.Write(buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func (r seekReader) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += int64(r.pos)
	case io.SeekEnd:
		offset += int64(len(r.text))
	}
	if offset < 0 || offset > int64(len(r.text)) {
		return 0, errors.New("bad offset")
	}
	r.pos = int(offset)
	return offset, nil
}

func (r nameReader) Name() string   { return "no such file" }
func (r nameReader) String() string { return "(A) => x" }
func (r nameReader) Error() string  { return "no error" }

func (r fullReader) ReadByte() (byte, error)            { return r.byter.ReadByte() }
func (r fullReader) WriteTo(w io.Writer) (int64, error) { return r.writer.WriteTo(w) }
func (r fullReader) Close() error                       { return nil }

var dresses = []string{"", "", "", "len", "byte", "close", "writeto", "seek", "name", "full", "bufio", "limited", "multi", "tee", "pipe", "section", "nopcloser"}

// dressReader gives the reader another type. The function it returns as well
// ends what it has begun.
func dressReader(r *chunkReader, dress string) (io.Reader, func()) {
	done := func() {}
	switch dress {
	case "len":
		return lenReader{r}, done
	case "byte":
		return byteReader{r}, done
	case "close":
		return closeReader{r, new(bool)}, done
	case "writeto":
		return writeToReader{r}, done
	case "seek":
		return seekReader{r}, done
	case "name":
		return nameReader{r}, done
	case "full":
		return fullReader{lenReader{r}, byteReader{r}, writeToReader{r}}, done
	case "bufio":
		return bufio.NewReaderSize(r, 16), done
	case "limited":
		return io.LimitReader(r, int64(len(r.text))+1), done
	case "multi":
		return io.MultiReader(strings.NewReader(""), r, strings.NewReader("")), done
	case "tee":
		return io.TeeReader(r, io.Discard), done
	case "nopcloser":
		return io.NopCloser(r), done
	case "pipe":
		pr, pw := io.Pipe()
		go func() {
			_, err := io.Copy(pw, onlyReader{r})
			pw.CloseWithError(err)
		}()
		return pr, func() { pr.Close() }
	case "section":
		return io.NewSectionReader(atReader{r}, 0, int64(len(r.text))+1), done
	}
	return r, done
}

type onlyReader struct{ io.Reader }

// atReader reads the text at any place, and fails where the reader does.
type atReader struct{ r *chunkReader }

func (r atReader) ReadAt(p []byte, off int64) (int, error) {
	end, err := len(r.r.text), io.EOF
	if r.r.failAt >= 0 && r.r.failAt <= end {
		end, err = r.r.failAt, r.r.err
	}
	if off > int64(end) {
		return 0, err
	}
	n := copy(p, r.r.text[off:end])
	if n < len(p) {
		return n, err
	}
	return n, nil
}

var errSink = map[string]error{
	"plain":         errors.New("the disk is on fire"),
	"unexpectedEOF": io.ErrUnexpectedEOF,
	"closed":        os.ErrClosed,
	"wrappedEOF":    fmt.Errorf("wrapped: %w", io.EOF),
	"path":          &os.PathError{Op: "read", Path: "f", Err: os.ErrPermission},
	"short":         io.ErrShortBuffer,
}

// openFiles counts the open files of this process.
func openFiles() int {
	es, _ := os.ReadDir("/proc/self/fd")
	return len(es)
}

// errorPositions finds the positions a message gives for a file.
func errorPositions(msg, name string) (ps [][2]int) {
	re := regexp.MustCompile(regexp.QuoteMeta(name) + `:([0-9]+):([0-9]+)`)
	for _, m := range re.FindAllStringSubmatch(msg, -1) {
		l, _ := strconv.Atoi(m[1])
		c, _ := strconv.Atoi(m[2])
		ps = append(ps, [2]int{l, c})
	}
	return
}

// inText reports whether line and column lie in the text. Lines count from 1;
// a column may count from 0 or 1 and may be just past the end of its line.
func inText(text string, l, c int) bool {
	lines := strings.Split(text, "\n")
	if l < 1 || l > len(lines) {
		return false
	}
	return c >= 0 && c <= len(lines[l-1])+1
}

func init() {
	type concatCase struct {
		Rules [][]*Rule `json:"rules"`
		Texts []string  `json:"texts"`
		Sep   []string  `json:"sep"`
	}
	join := func(texts, sep []string) string {
		var b strings.Builder
		for i, t := range texts {
			if i > 0 {
				b.WriteString(sep[i-1])
			}
			b.WriteString(t)
		}
		return b.String()
	}
	checkConcat := func(c concatCase) Outcome {
		var want []*Rule
		for _, rs := range c.Rules {
			want = append(want, rs...)
		}
		text := join(c.Texts, c.Sep)
		f, err := parse.String(text)
		if err != nil {
			return fail("the parts are valid, together they are not: %v\ntext: %q", err, text)
		}
		if got := canonFile(f); got != canonRules(want) {
			return fail("text: %q\n%s", text, diff(got, canonRules(want)))
		}
		var parts []*ast.Rule
		for i, t := range c.Texts {
			p, err := parse.String(t)
			if err != nil {
				return fail("valid text rejected: %v\ntext: %q", err, t)
			}
			if len(p.Rules) != len(c.Rules[i]) {
				return fail("%d rules instead of %d\ntext: %q", len(p.Rules), len(c.Rules[i]), t)
			}
			parts = append(parts, p.Rules...)
		}
		if len(parts) > 0 && !sameTree(parts, f.Rules) {
			return fail("the rules of the parts are not those of the whole\ntext: %q\n%s", text, diff(canonAstRules(f.Rules), canonAstRules(parts)))
		}
		// And the whole can be joined with itself.
		ff, err := parse.String(text + "\n" + text)
		if err != nil || len(ff.Rules) != 2*len(f.Rules) {
			return fail("text twice: %v\ntext: %q", err, text)
		}
		if n := len(f.Rules); n > 0 && (!sameTree(ff.Rules[:n], f.Rules) || !sameTree(ff.Rules[n:], f.Rules)) {
			return fail("the text twice does not give its rules twice\ntext: %q", text)
		}
		out := Outcome{Trivial: len(c.Texts) < 2 || len(want) == 0}
		for _, rs := range c.Rules {
			if len(rs) == 0 {
				out.Labels = append(out.Labels, "empty part")
				break
			}
		}
		return out
	}
	genConcat := func(g *G) concatCase {
		var c concatCase
		for k := 1 + g.size(4, 12); k > 0; k-- {
			var rs []*Rule
			text := ""
			switch g.n(6) {
			case 0:
				text = g.pick([]string{"", "\n", "// c", "// a => b", " \t\r\n", "//", "\n\n// x\n"})
			case 1:
				for n := 1 + g.n(4); n > 0; n-- {
					l := g.pick(corpus)
					r, _, err := refParse(l, false)
					if err != nil {
						panic("corpus: " + l)
					}
					rs = append(rs, r...)
					text += l + g.pick([]string{"\n", "\n\n", "// c\n", "\r\n"})
				}
				if g.chance(1) {
					text = strings.TrimSuffix(text, "\n")
				}
			default:
				o := fullopts
				o.maxargs, o.depth = 6, 3
				rs = g.rules(o, 5)
				text = g.source(rs)
			}
			c.Rules = append(c.Rules, rs)
			c.Texts = append(c.Texts, text)
			c.Sep = append(c.Sep, g.pick([]string{"\n", "\n", "\r\n", "\n\n", " \n\t", "\n// sep\n"}))
		}
		return c
	}

	type readCase struct {
		Text   string `json:"text"`
		Sizes  []int  `json:"sizes"`
		FailAt int    `json:"fail_at"`
		Err    string `json:"err,omitempty"`
		End    bool   `json:"end_with_data"`
		Dress  string `json:"dress,omitempty"` // the type of the reader
	}
	text := func(g *G) string {
		switch g.n(9) {
		case 8:
			return g.frame(g.seedText())
		case 0:
			return g.mutate(g.seedText())
		case 1:
			return g.shaped()
		case 2:
			return g.pick([]string{"", "\n", "// c", "x => y", "(A x) => y\n", "x", "\xff", "x => y\n\xc3"})
		case 3:
			// Long, so that buffers fill several times.
			var b strings.Builder
			for k := 1 + g.n(300); k > 0; k-- {
				b.WriteString(g.pick(corpus) + g.pick([]string{"\n", " // é世界\n", "\r\n"}))
			}
			if g.chance(2) {
				b.WriteString("(A")
			}
			return b.String()
		}
		return g.seedText()
	}
	checkRead := func(c readCase) Outcome {
		want, wantErr := parse.String(c.Text)
		if (want == nil) == (wantErr == nil) {
			return fail("file and error, or neither\ntext: %q", c.Text)
		}
		r := &chunkReader{text: c.Text, sizes: c.Sizes, failAt: c.FailAt, err: errSink[c.Err], withEnd: c.End}
		out := Outcome{Trivial: len(c.Text) == 0}
		in, done := dressReader(r, c.Dress)
		got, err := parse.Reader("name", in)
		done()
		if c.Dress != "" {
			out.Labels = append(out.Labels, "reader: "+c.Dress)
		}
		if c.FailAt >= 0 && c.FailAt <= len(c.Text) {
			out.Labels = append(out.Labels, "failing reader")
			if err == nil {
				return fail("a reader that fails after %d of %d bytes (%s) gives no error\ntext: %q", c.FailAt, len(c.Text), c.Err, c.Text)
			}
			if got != nil {
				return fail("a failing reader gives rules as well as error %v", err)
			}
			if wantErr == nil {
				out.Labels = append(out.Labels, "failing reader of valid text")
			}
			return out
		}
		if (err == nil) != (wantErr == nil) {
			return fail("from a string: error %v, from a reader: error %v\ntext: %q", wantErr, err, c.Text)
		}
		if err != nil && got != nil {
			return fail("rules as well as error %v", err)
		}
		if !sameTree(got, want) {
			return fail("from a reader: other rules\ntext: %q\n%s", c.Text, diff(canonFile(got), canonFile(want)))
		}
		if err != nil {
			out.Labels = append(out.Labels, "invalid text")
		} else {
			out.Labels = append(out.Labels, "valid text")
		}
		return out
	}

	type fileCase struct {
		Text string `json:"text"`
		Name string `json:"name"`
		Kind string `json:"kind"`
		Abs  bool   `json:"abs"`
	}
	serial := 0
	checkFile := func(c fileCase) Outcome {
		serial++
		dir := filepath.Join(env.Scratch, fmt.Sprintf("read%d-%d", os.Getpid(), serial))
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return Outcome{Infra: err.Error()}
		}
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, c.Name)
		var err error
		switch c.Kind {
		case "file", "link":
			target := path
			if c.Kind == "link" {
				target = filepath.Join(dir, "the file")
				err = os.Symlink("the file", path)
			}
			if err == nil {
				err = os.WriteFile(target, []byte(c.Text), 0o644)
			}
		case "directory":
			err = os.MkdirAll(path, 0o755)
		case "below a file":
			err = os.WriteFile(path, []byte(c.Text), 0o644)
			path += "/x"
		case "dangling link":
			err = os.Symlink("nowhere", path)
		case "link loop":
			err = os.Symlink(c.Name, path)
		case "read error":
			err = os.Symlink("/proc/self/mem", path)
		case "pipe", "full pipe":
			// What comes through a pipe, a little at a time.
			if err = syscall.Mkfifo(path, 0o600); err == nil {
				fed := make(chan bool)
				defer func() {
					// In case nobody opened it.
					if f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
						defer f.Close()
					}
					<-fed
				}()
				go func() {
					defer close(fed)
					f, err := os.OpenFile(path, os.O_WRONLY, 0)
					if err != nil {
						return
					}
					defer f.Close()
					if c.Kind == "full pipe" {
						f.WriteString(c.Text)
						return
					}
					for i := 0; i < len(c.Text); i += 7 + len(c.Text)/8 {
						f.WriteString(c.Text[i:min(len(c.Text), i+7+len(c.Text)/8)])
						runtime.Gosched()
					}
				}()
			}
		case "device":
			if c.Text == "" {
				err = os.Symlink("/dev/null", path)
			} else {
				err = os.WriteFile(path, []byte(c.Text), 0o400)
			}
		case "missing":
		case "empty name":
			path = ""
		case "nul":
			path += "\x00x"
		}
		if err != nil {
			return Outcome{Infra: err.Error()}
		}
		if !c.Abs && path != "" {
			wd, err := os.Getwd()
			if err == nil {
				path, err = filepath.Rel(wd, path)
			}
			if err != nil {
				return Outcome{Infra: err.Error()}
			}
		}
		piped := c.Kind == "pipe" || c.Kind == "full pipe"
		open := openFiles()
		got, err := parse.File(path)
		out := Outcome{Labels: []string{c.Kind}}
		if !piped && openFiles() > open {
			// Is it this file?
			const n = 5
			open = openFiles()
			for i := 0; i < n; i++ {
				parse.File(path)
			}
			if m := openFiles(); m >= open+n {
				return fail("%s: %d files are open after parsing it %d times, %d before (error %v)", c.Kind, m, n, open, err)
			}
		}
		if !map[string]bool{"file": true, "link": true, "pipe": true, "full pipe": true, "device": true}[c.Kind] {
			if err == nil {
				return fail("%s parses as a rule file", c.Kind)
			}
			if got != nil {
				return fail("%s gives rules as well as error %v", c.Kind, err)
			}
			return out
		}
		want, wantErr := parse.String(c.Text)
		if (err == nil) != (wantErr == nil) {
			return fail("from a string: error %v, from a file: error %v\ntext: %q", wantErr, err, c.Text)
		}
		if err != nil && got != nil {
			return fail("rules as well as error %v", err)
		}
		if !sameTree(got, want) {
			return fail("from a file: other rules\ntext: %q\n%s", c.Text, diff(canonFile(got), canonFile(want)))
		}
		if err != nil {
			out.Labels = append(out.Labels, "invalid text")
			if !strings.Contains(err.Error(), path) {
				return fail("the error does not name the file %q: %v", path, err)
			}
		}
		return out
	}

	type posCase struct {
		Prefix []*Rule `json:"prefix"`
		Before string  `json:"before"` // valid rules
		Text   string  `json:"text"`
		Name   string  `json:"name"`
	}
	checkPos := func(c posCase) Outcome {
		_, err := parse.Reader(c.Name, strings.NewReader(c.Text))
		if err == nil {
			return Outcome{Trivial: true, Labels: []string{"valid text"}}
		}
		ps := errorPositions(err.Error(), c.Name)
		if len(ps) == 0 {
			return fail("the error names no position in %q: %v\ntext: %q", c.Name, err, c.Text)
		}
		for _, p := range ps {
			if !inText(c.Text, p[0], p[1]) {
				return fail("position %d:%d is outside the text: %v\ntext: %q", p[0], p[1], err, c.Text)
			}
		}
		// After some valid rules the error is after them.
		all := c.Before + c.Text
		_, err = parse.Reader(c.Name, strings.NewReader(all))
		if err == nil {
			return fail("an invalid text is valid after other rules\ntext: %q\nrules: %q", c.Text, c.Before)
		}
		ps = errorPositions(err.Error(), c.Name)
		if len(ps) == 0 {
			return fail("the error names no position in %q: %v\ntext: %q", c.Name, err, all)
		}
		for _, p := range ps {
			if !inText(all, p[0], p[1]) {
				return fail("position %d:%d is outside the text: %v\ntext: %q", p[0], p[1], err, all)
			}
			if p[0] <= strings.Count(c.Before, "\n") {
				return fail("position %d:%d is in the valid rules: %v\ntext: %q", p[0], p[1], err, all)
			}
		}
		return Outcome{Labels: []string{"error"}}
	}
	register(&Prop{
		ID: "C17", Level: "fault_enumeration",
		Rule: "concatenations of generated, bundled and empty rule files compared with the rules of the parts; valid and invalid texts read from a string, from files (odd names, links, absolute and relative) and from readers that split the data at random, return empty reads, or the end together with data; readers failing at random offsets with various errors, files that cannot be read; positions of syntax errors with and without valid rules before. Non-trivial: more than one part, non-empty text, an error to place.",
		Subs: []*Sub{
			mk("concat", 16000, 800000, genConcat, checkConcat),
			{
				Name: "bundled", Quick: 80, Thorough: 800,
				gen: func(g *G) any {
					c := concatCase{}
					fs := bundled()
					for k := 1 + g.n(4); k > 0; k-- {
						f := fs[g.n(len(fs))]
						c.Texts = append(c.Texts, f)
						c.Sep = append(c.Sep, "\n")
					}
					return c
				},
				check: func(c any) Outcome {
					// The texts are names of files here.
					b := c.(concatCase)
					var texts []string
					var parts []*ast.Rule
					for _, n := range b.Texts {
						t, err := os.ReadFile(n)
						if err != nil {
							return Outcome{Infra: err.Error()}
						}
						texts = append(texts, string(t))
						f, err := parse.File(n)
						if err != nil {
							return fail("%s: %v", n, err)
						}
						parts = append(parts, f.Rules...)
					}
					f, err := parse.String(join(texts, b.Sep))
					if err != nil {
						return fail("%v together: %v", b.Texts, err)
					}
					if !sameTree(f.Rules, parts) {
						return fail("%v together give other rules\n%s", b.Texts, diff(canonAstRules(f.Rules), canonAstRules(parts)))
					}
					return Outcome{Labels: []string{"bundled"}, Trivial: len(texts) < 2}
				},
				decode: func(js []byte) (any, error) {
					var c concatCase
					err := json.Unmarshal(js, &c)
					return c, err
				},
			},
			mk("readers", 16000, 800000, func(g *G) readCase {
				c := readCase{Text: text(g), FailAt: -1, End: g.chance(1), Dress: g.pick(dresses)}
				for k := g.size(6, 40); k > 0; k-- {
					c.Sizes = append(c.Sizes, g.pickN([]int{0, 1, 1, 2, 3, 7, 16, 511, 512, 513, 4096}))
				}
				return c
			}, checkRead),
			mk("failures", 16000, 800000, func(g *G) readCase {
				c := readCase{Text: text(g), End: g.chance(1), Dress: g.pick(dresses)}
				c.FailAt = g.n(len(c.Text) + 1)
				switch g.n(6) {
				case 0, 1, 2:
					c.FailAt = len(c.Text)
				case 3:
					c.FailAt = 0
				}
				c.Err = g.pick([]string{"plain", "unexpectedEOF", "closed", "wrappedEOF", "path", "short"})
				for k := g.size(6, 40); k > 0; k-- {
					c.Sizes = append(c.Sizes, g.pickN([]int{0, 1, 1, 2, 3, 7, 16, 511, 512, 513, 4096}))
				}
				return c
			}, checkRead),
			mk("files", 8000, 200000, func(g *G) fileCase {
				return fileCase{text(g), g.pick([]string{"a.rules", "b", "é 世.rules", "%d.rules", "-x", ".h", "a\nb", "x:1:2", strings.Repeat("n", 200)}),
					g.pick([]string{"file", "file", "file", "link", "file", "pipe", "full pipe", "device", "directory", "below a file", "dangling link", "link loop", "read error", "missing", "empty name", "nul"}), g.chance(1)}
			}, checkFile),
			mk("positions", 16000, 800000, func(g *G) posCase {
				c := posCase{Name: g.pick([]string{"a.rules", "b", "dir/c.rules", "x:1", "%d"})}
				for i := 0; i < 4; i++ {
					c.Text = []func() string{g.shaped, func() string { return strings.ToValidUTF8(g.mutate(g.seedText()), "?") }, g.soup}[g.n(3)]()
					if _, err := parse.String(c.Text); err != nil {
						break
					}
				}
				o := fullopts
				o.maxargs, o.depth = 4, 2
				rs := g.rules(o, 4)
				// The last rule ends in a parenthesis.
				rs[len(rs)-1].R = &Val{S: &SX{Op: []Part{{Lit: "A"}}, Args: []*Val{{V: "x"}}}}
				c.Prefix = rs
				c.Before = g.source(rs) + "\n"
				return c
			}, checkPos),
		},
	})

	// ---- C18

	type histCase struct {
		Texts []string `json:"texts"`
		Rules []*Rule  `json:"rules"` // more inputs, as trees
		Ops   []int    `json:"ops"`
	}
	histGen := func(g *G, nops int) histCase {
		var c histCase
		for k := 1 + g.n(4); k > 0; k-- {
			switch g.n(6) {
			case 0:
				c.Texts = append(c.Texts, strings.ToValidUTF8(g.mutate(g.seedText()), "?"))
			case 1:
				c.Texts = append(c.Texts, g.pick([]string{"", "x => y", "(Add8 x y) => (Add8 y x)", "// c", "x =>", "(Add8 x _) => (Add8 _ x)", "((A|B) x) => ((C|D|E) x)", "(A \"\xff"}))
			case 2:
				var rs []*Rule
				for n := 1 + g.n(3); n > 0; n-- {
					rs = append(rs, g.cliRule())
				}
				c.Texts = append(c.Texts, g.source(rs))
			default:
				c.Texts = append(c.Texts, g.seedText())
			}
		}
		for k := g.n(3); k > 0; k-- {
			r := g.cliRule()
			if g.chance(2) {
				r = g.irregular(r)
			}
			c.Rules = append(c.Rules, r)
		}
		for k := g.n(nops); k > 0; k-- {
			c.Ops = append(c.Ops, g.n(1<<16))
		}
		return c
	}
	// An input is a text or a tree.
	type input struct {
		text *string
		file *ast.File // the shared tree, nil if the text is invalid
	}
	inputs := func(c histCase) (ins []*input) {
		for i := range c.Texts {
			in := &input{text: &c.Texts[i]}
			if f, err := parse.String(c.Texts[i]); err == nil {
				in.file = f
			}
			ins = append(ins, in)
		}
		if len(c.Rules) > 0 {
			ins = append(ins, &input{file: spareFile(c.Rules)})
		}
		return
	}
	run := func(in *input, op int) string {
		if in.file == nil && op != 0 {
			return "invalid"
		}
		return operate(in.text, in.file, op)
	}
	checkHist := func(c histCase, rounds int) Outcome {
		ins := inputs(c)
		twins := inputs(c)
		var before []string
		for _, in := range ins {
			before = append(before, fullCanon(in.file))
		}
		// Each operation on each input alone first.
		base := make([][]string, len(ins))
		valid := 0
		for i, in := range ins {
			if in.file != nil {
				valid++
			}
			for op := range operations {
				base[i] = append(base[i], run(twins[i], op))
				_ = in
			}
		}
		unchanged := func() string {
			for i, in := range ins {
				if now := fullCanon(in.file); now != before[i] {
					return fmt.Sprintf("input %d was modified\n%s", i, diff(now, before[i]))
				}
				if in.file != nil && in.text != nil && !sameTree(in.file, mustParse(*in.text)) {
					return fmt.Sprintf("input %d was modified", i)
				}
			}
			return ""
		}
		describe := func() string {
			return fmt.Sprintf("texts: %q\ntrees: %s", c.Texts, canonRules(c.Rules))
		}
		// The history.
		for step, o := range c.Ops {
			i, op := o%len(ins), (o/len(ins))%len(operations)
			if got := run(ins[i], op); got != base[i][op] {
				return fail("step %d, %s on input %d gives another result than alone\n%s\n%s", step, operations[op], i, diff(got, base[i][op]), describe())
			}
		}
		if m := unchanged(); m != "" {
			return fail("%s\n%s", m, describe())
		}
		// All at once, from several goroutines.
		races := raceErrors()
		for round := 0; round < rounds; round++ {
			const n = 6
			var wg sync.WaitGroup
			start := make(chan bool)
			bad := make([]string, n)
			for k := 0; k < n; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							bad[k] = fmt.Sprintf("panic: %v", r)
						}
					}()
					rnd := rand.New(rand.NewSource(int64(k*31 + round)))
					<-start
					for j := 0; j < 2*len(operations); j++ {
						i, op := rnd.Intn(len(ins)), rnd.Intn(len(operations))
						if rnd.Intn(4) == 0 {
							runtime.Gosched()
						}
						if got := run(ins[i], op); got != base[i][op] {
							bad[k] = fmt.Sprintf("%s on input %d gives another result than alone\n%s", operations[op], i, diff(got, base[i][op]))
							return
						}
					}
				}(k)
			}
			close(start)
			wg.Wait()
			for _, b := range bad {
				if b != "" {
					return fail("several goroutines: %s\n%s", b, describe())
				}
			}
		}
		if raceErrors() != races {
			msg := raceReport()
			if !strings.Contains(msg, "mmcloughlin/ssarules") {
				return Outcome{Infra: "data race outside the code under test: " + msg}
			}
			return fail("data race: %s\n%s", msg, describe())
		}
		if m := unchanged(); m != "" {
			return fail("several goroutines: %s\n%s", m, describe())
		}
		out := Outcome{Trivial: valid == 0, Labels: []string{fmt.Sprintf("inputs %d", len(ins))}}
		if rounds > 0 && raceEnabled {
			out.Labels = append(out.Labels, "race detector")
		}
		if valid < len(ins) {
			out.Labels = append(out.Labels, "with invalid text")
		}
		return out
	}
	// checkOwn runs a history in which every result is destroyed once looked at.
	checkOwn := func(c histCase) Outcome {
		ins := inputs(c)
		dir, err := os.MkdirTemp(env.Scratch, "own")
		if err != nil {
			return Outcome{Infra: err.Error()}
		}
		defer os.RemoveAll(dir)
		kinds := []string{"parsing a string", "parsing a reader", "parsing a file", "parsing and expanding", "printing", "dumping", "SMT generation", "printing rules"}
		do := func(in *input, kind int) (string, string) {
			var b strings.Builder
			parsed := func(f *ast.File, err error) {
				fmt.Fprintf(&b, "%v\n%s", err != nil, canonFile(f))
			}
			if kind < 4 && in.text == nil {
				return "", ""
			}
			if kind >= 4 && in.file == nil {
				return "", ""
			}
			switch kind {
			case 0:
				f, err := parse.String(*in.text)
				parsed(f, err)
				scribble(f)
			case 1:
				f, err := parse.Reader("r", strings.NewReader(*in.text))
				parsed(f, err)
				scribble(f)
			case 2:
				name := filepath.Join(dir, "f.rules")
				if err := os.WriteFile(name, []byte(*in.text), 0o644); err != nil {
					return "", err.Error()
				}
				f, err := parse.File(name)
				parsed(f, err)
				scribble(f)
			case 3:
				f, err := parse.String(*in.text)
				if err != nil {
					return "", ""
				}
				err = pass.ExpandAlternates(f)
				parsed(f, err)
			case 4:
				p, err := printer.Bytes(in.file)
				fmt.Fprintf(&b, "%v\n%s", err != nil, p)
				zero(p)
			case 5:
				d, err := ast.Dump(in.file)
				fmt.Fprintf(&b, "%v\n%s", err != nil, d)
			case 6:
				for _, r := range in.file.Rules {
					p, err := smt2.Generate(r)
					fmt.Fprintf(&b, "%v\n%s", err != nil, p)
					zero(p)
				}
			case 7:
				// All prints held at once.
				var ps [][]byte
				for _, r := range in.file.Rules {
					p, _ := printer.Bytes(r)
					ps = append(ps, p)
				}
				for _, p := range ps {
					fmt.Fprintf(&b, "%s\n", p)
				}
				for _, p := range ps {
					zero(p)
				}
			}
			return b.String(), ""
		}
		base := map[[2]int]string{}
		again := 0
		for step, o := range append([]int{0, 0, 3 * len(ins), 0}, c.Ops...) {
			i, kind := o%len(ins), (o/len(ins))%len(kinds)
			got, infra := do(ins[i], kind)
			if infra != "" {
				return Outcome{Infra: infra}
			}
			k := [2]int{i, kind}
			if want, ok := base[k]; !ok {
				base[k] = got
			} else if got != want {
				return fail("step %d: %s gives another result once its first result was changed by its owner\ninput %d of texts: %q\ntrees: %s\n%s", step, kinds[kind], i, c.Texts, canonRules(c.Rules), diff(got, want))
			} else if want != "" {
				again++
			}
		}
		return Outcome{Trivial: again == 0, Labels: []string{fmt.Sprintf("repeated %v", again > 2)}}
	}
	// cold runs operations from several goroutines in a process that did not
	// run them before, and only then one at a time.
	cold := func(c histCase) (msg string) {
		defer func() {
			if r := recover(); r != nil {
				msg = fmt.Sprintf("panic: %v", r)
			}
		}()
		const n = 4
		type result struct {
			op, in int
			got    string
		}
		var results []result
		together := func(ins []*input, op, first int, spread bool) {
			var wg sync.WaitGroup
			out := make([]result, n)
			start := make(chan bool)
			for k := 0; k < n; k++ {
				wg.Add(1)
				i := first
				if spread {
					i = (first + k) % len(ins)
				}
				go func(k int) {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							out[k] = result{op, i, fmt.Sprintf("panic: %v", r)}
						}
					}()
					<-start
					out[k] = result{op, i, run(ins[i], op)}
				}(k)
			}
			close(start)
			wg.Wait()
			results = append(results, out...)
		}
		var texts []*input
		for i := range c.Texts {
			texts = append(texts, &input{text: &c.Texts[i]})
		}
		for i := range texts {
			together(texts, 0, i, i > 0)
		}
		ins := inputs(c)
		for _, o := range c.Ops {
			together(ins, (o/(2*len(ins)))%len(operations), (o/2)%len(ins), o%2 == 1)
		}
		for _, r := range results {
			if want := run(ins[r.in], r.op); r.got != want {
				return fmt.Sprintf("%s on input %d from several goroutines gives another result than alone\n%s", operations[r.op], r.in, diff(r.got, want))
			}
		}
		if raceErrors() > 0 {
			return "data race: " + raceReport()
		}
		return ""
	}
	checkCold := func(c histCase) Outcome {
		js, _ := json.Marshal(c)
		self, err := os.Executable()
		if err != nil {
			return Outcome{Infra: err.Error()}
		}
		cmd := exec.Command(self, "cold", env.Scratch)
		cmd.Stdin = bytes.NewReader(js)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		b, err := cmd.Output()
		defer func() {
			if cmd.Process != nil {
				os.Remove(filepath.Join(env.Scratch, fmt.Sprintf("race.%d", cmd.Process.Pid)))
			}
		}()
		var msg string
		if err != nil {
			if strings.Contains(stderr.String(), "fatal error: concurrent map") {
				return fail("several goroutines: %s\ntexts: %q\ntrees: %s", tail(stderr.String(), 2000), c.Texts, canonRules(c.Rules))
			}
			return Outcome{Infra: "new process: " + err.Error() + "\n" + tail(stderr.String(), 2000)}
		}
		if err := json.Unmarshal(b, &msg); err != nil {
			return Outcome{Infra: "new process: " + err.Error()}
		}
		if strings.HasPrefix(msg, "data race") && !strings.Contains(msg, "mmcloughlin/ssarules") {
			return Outcome{Infra: "data race outside the code under test: " + msg}
		}
		if msg != "" {
			return fail("in a new process: %s\ntexts: %q\ntrees: %s", msg, c.Texts, canonRules(c.Rules))
		}
		return Outcome{Trivial: len(c.Ops) == 0, Labels: []string{"new process"}}
	}
	register(&Prop{
		ID: "C18", Level: "exploration",
		Rule: "a few inputs (texts, valid or not, and trees whose slices have spare room and share arrays); parsing, printing, dumping, walking, predicates, SMT generation and expansion run alone first, then in a random history over the same inputs, then from six goroutines on the shared trees under the race detector, in new processes of their own, and from several goroutines as the first thing a new process does; also histories in which every tree or text that was returned is overwritten by its owner before the operation is repeated. Every result must be the one obtained alone and the trees must stay as they were. Non-trivial: at least one valid input, or a repeated operation.",
		Subs: []*Sub{
			mk("histories", 4000, 300000, func(g *G) histCase { return histGen(g, 60) }, func(c histCase) Outcome { return checkHist(c, 0) }),
			mk("schedules", 1600, 80000, func(g *G) histCase { return histGen(g, 4) }, func(c histCase) Outcome { return checkHist(c, 3) }),
			mk("cold", 240, 12000, func(g *G) histCase { return histGen(g, 30) }, checkCold),
			mk("ownership", 3000, 200000, func(g *G) histCase { return histGen(g, 60) }, checkOwn),
			mk("fresh", 160, 4000, func(g *G) histCase { return histGen(g, 30) }, func(c histCase) Outcome {
				// What a long history gives, against a new process for each input.
				ins := inputs(c)
				for i, in := range ins {
					js, _ := json.Marshal(histCase{Texts: c.Texts[min(i, len(c.Texts)):min(i+1, len(c.Texts))], Rules: map[bool][]*Rule{true: c.Rules, false: nil}[in.text == nil]})
					self, err := os.Executable()
					if err != nil {
						return Outcome{Infra: err.Error()}
					}
					cmd := exec.Command(self, "operate")
					cmd.Stdin = bytes.NewReader(js)
					b, err := cmd.Output()
					if err != nil {
						return Outcome{Infra: "new process: " + err.Error()}
					}
					var alone []string
					if err := json.Unmarshal(b, &alone); err != nil {
						return Outcome{Infra: "new process: " + err.Error()}
					}
					for _, o := range append([]int{0}, c.Ops...) {
						for _, op := range []int{(o / 7) % len(operations), o % len(operations)} {
							if got := strings.ToValidUTF8(run(in, op), "\ufffd"); got != strings.ToValidUTF8(alone[op], "\ufffd") {
								return fail("%s on input %d gives another result than in a process of its own\n%s", operations[op], i, diff(got, alone[op]))
							}
						}
					}
				}
				return Outcome{Labels: []string{"fresh"}, Trivial: len(c.Ops) == 0}
			}),
		},
	})
	coldMain = func() {
		var c histCase
		b, err := io.ReadAll(os.Stdin)
		if err == nil {
			err = json.Unmarshal(b, &c)
		}
		if err != nil {
			fatalf("%v", err)
		}
		json.NewEncoder(os.Stdout).Encode(cold(c))
	}
	operateMain = func() {
		var c histCase
		b, err := io.ReadAll(os.Stdin)
		if err == nil {
			err = json.Unmarshal(b, &c)
		}
		if err != nil {
			fatalf("%v", err)
		}
		in := inputs(c)[0]
		var out []string
		// In another order than elsewhere.
		out = make([]string, len(operations))
		for op := len(operations) - 1; op >= 0; op-- {
			out[op] = run(in, op)
		}
		json.NewEncoder(os.Stdout).Encode(out)
	}

	// ---- C19

	type flowCase struct {
		A  []*Rule `json:"a"`
		B  []*Rule `json:"b"`
		TA string  `json:"ta"`
		TB string  `json:"tb"`
		TE string  `json:"te"` // the expanded rules of A and B, written directly
	}
	expandText := func(src string) (*ast.File, error, string) {
		f, err := parse.String(src)
		if err != nil {
			return nil, nil, fmt.Sprintf("valid text rejected: %v\ntext: %q", err, src)
		}
		if err := pass.ExpandAlternates(f); err != nil {
			return nil, err, ""
		}
		return f, nil, ""
	}
	checkFlow := func(c flowCase) Outcome {
		var ea, eb, both *ast.File
		errs := 0
		for i, src := range []string{c.TA, c.TB, c.TA + "\n" + c.TB} {
			f, err, bad := expandText(src)
			if bad != "" {
				return fail("%s", bad)
			}
			// Printed first, then expanded.
			p, err2 := parse.String(src)
			if err2 != nil {
				return fail("valid text rejected: %v", err2)
			}
			b, err2 := printer.Bytes(p)
			if err2 != nil {
				return fail("text %q does not print: %v", src, err2)
			}
			f2, err2, bad := expandText(string(b))
			if bad != "" {
				return fail("printed from %q: %s", src, bad)
			}
			if (err == nil) != (err2 == nil) {
				return fail("expansion: %v, after printing and parsing: %v\ntext: %q", err, err2, src)
			}
			if err != nil {
				errs |= 1 << i
				continue
			}
			if !sameTree(f, f2) {
				return fail("printing and parsing before expansion makes a difference\ntext: %q\n%s", src, diff(canonFile(f2), canonFile(f)))
			}
			b1, err1 := printer.Bytes(f)
			b2, err2 := printer.Bytes(f2)
			if err1 != nil || err2 != nil || !bytes.Equal(b1, b2) {
				return fail("print after expansion: %q (%v)\nprinted and parsed before: %q (%v)", b1, err1, b2, err2)
			}
			switch i {
			case 0:
				ea = f
			case 1:
				eb = f
			case 2:
				both = f
			}
		}
		if (errs&4 != 0) != (errs&3 != 0) {
			return fail("expansion of one file fails, of both together not, or the reverse (%b)\ntexts: %q, %q", errs, c.TA, c.TB)
		}
		_, ok := expandModel(append(append([]*Rule{}, c.A...), c.B...))
		if ok != (errs == 0) {
			return fail("expansion: errors %b, consistent: %v\ntexts: %q, %q", errs, ok, c.TA, c.TB)
		}
		if errs != 0 {
			return Outcome{Labels: []string{"incompatible"}, Trivial: true}
		}
		if got, want := canonFile(both), canonAstRules(append(append([]*ast.Rule{}, ea.Rules...), eb.Rules...)); got != want {
			return fail("expanded together and separately:\n%s", diff(got, want))
		}
		// Features.
		k := 0
		out := Outcome{}
		for _, r := range append(append([]*Rule{}, c.A...), c.B...) {
			alts, _ := r.alternatives()
			if len(alts) > 1 {
				out.Labels = append(out.Labels, "expanded")
			}
			o := toRule(r)
			for range alts {
				if k >= len(both.Rules) {
					return fail("too few expanded rules (%d)\ntexts: %q, %q", k, c.TA, c.TB)
				}
				e := both.Rules[k]
				k++
				for name, has := range map[string]func(*ast.Rule) bool{"binding": rules.HasBinding, "type": rules.HasType, "aux": rules.HasAux, "auxint": rules.HasAuxInt, "ellipsis": rules.HasEllipsis, "trailing": rules.HasTrailing} {
					if has(o) != has(e) {
						return fail("%s: %v before expansion, %v after\nrule: %s", name, has(o), has(e), canonRule(r))
					}
				}
				if (o.Condition == nil) != (e.Condition == nil) || o.Condition != nil && canonGoExpr(o.Condition.Expr) != canonGoExpr(e.Condition.Expr) {
					return fail("the condition changed in expansion\nrule: %s", canonRule(r))
				}
				if o.Block != e.Block {
					return fail("the block changed in expansion\nrule: %s", canonRule(r))
				}
			}
		}
		if k != len(both.Rules) {
			return fail("%d expanded rules instead of %d\ntexts: %q, %q", len(both.Rules), k, c.TA, c.TB)
		}
		// Expanded, expanded and reparsed, written directly.
		b, err := printer.Bytes(both)
		if err != nil {
			return fail("expanded rules do not print: %v", err)
		}
		re, err := parse.String(string(b))
		if err != nil {
			return fail("printed expanded rules do not parse: %v\n%s", err, b)
		}
		direct, err := parse.String(c.TE)
		if err != nil {
			return fail("valid text rejected: %v\ntext: %q", err, c.TE)
		}
		if len(re.Rules) != len(both.Rules) || len(direct.Rules) != len(both.Rules) {
			return fail("%d expanded rules, %d printed and parsed, %d written directly", len(both.Rules), len(re.Rules), len(direct.Rules))
		}
		scripts, refused := 0, 0
		for i := range both.Rules {
			s0, err0 := smt2.Generate(both.Rules[i])
			s1, err1 := smt2.Generate(re.Rules[i])
			s2, err2 := smt2.Generate(direct.Rules[i])
			if (err0 == nil) != (err1 == nil) || (err0 == nil) != (err2 == nil) {
				return fail("SMT of an expanded rule: %v, printed and parsed: %v, written directly: %v\n%s", err0, err1, err2, canonAstRule(both.Rules[i]))
			}
			if !bytes.Equal(s0, s1) || !bytes.Equal(s0, s2) {
				return fail("SMT of an expanded rule:\n%s\nprinted and parsed:\n%s\nwritten directly:\n%s", s0, s1, s2)
			}
			if err0 == nil {
				scripts++
			} else {
				refused++
			}
		}
		if scripts > 0 {
			out.Labels = append(out.Labels, "scripts")
		}
		if refused > 0 {
			out.Labels = append(out.Labels, "refusals")
		}
		out.Trivial = len(both.Rules) == 0
		return out
	}
	genFlow := func(g *G) flowCase {
		var c flowCase
		rs := func() (rs []*Rule) {
			for k := g.size(2, 8); k > 0; k-- {
				switch g.n(4) {
				case 0:
					o := fullopts
					o.maxargs, o.depth, o.altk = 6, 3, 1+g.n(3)
					if g.chance(3) {
						rs = append(rs, g.rule(o))
					} else {
						rs = append(rs, g.consistentRule(o))
					}
				case 1:
					rs = append(rs, g.altSMTRule())
				default:
					r := g.cliRule()
					if _, ok := r.alternatives(); ok || g.chance(3) {
						rs = append(rs, r)
					}
				}
			}
			return g.echoes(rs)
		}
		c.A, c.B = rs(), rs()
		src := func(rs []*Rule) string {
			if len(rs) == 0 {
				return ""
			}
			return g.source(rs)
		}
		c.TA, c.TB = src(c.A), src(c.B)
		if e, ok := expandModel(append(append([]*Rule{}, c.A...), c.B...)); ok {
			c.TE = src(e)
		}
		return c
	}
	register(&Prop{
		ID: "C19", Level: "exploration",
		Rule: "two files of random rules (arbitrary, with alternates, translatable, nearly translatable) in random layouts; expansion before and after printing and reparsing, separate and joined expansion, the features of every expanded rule and of its origin, and the SMT scripts or refusals of expanded, reparsed and directly written rules are compared. Non-trivial: consistent and at least one rule.",
		Subs: []*Sub{
			mk("flow", 12000, 600000, genFlow, checkFlow),
		},
	})
}

func (g *G) pickN(ns []int) int { return ns[g.n(len(ns))] }

var bundledFiles []string

// bundled lists the rule files of the repository that are not too large.
func bundled() []string {
	if bundledFiles == nil {
		ms, _ := filepath.Glob("/repo/internal/testdata/*.rules")
		sort.Strings(ms)
		for _, m := range ms {
			if fi, err := os.Stat(m); err == nil && fi.Size() < 40000 {
				bundledFiles = append(bundledFiles, m)
			}
		}
		if len(bundledFiles) == 0 {
			fatalf("no bundled rule files")
		}
	}
	return bundledFiles
}

func mustParse(text string) *ast.File {
	f, err := parse.String(text)
	if err != nil {
		return nil
	}
	return f
}

// spareFile makes the tree of rules with slices that have spare room and that
// share their arrays where that can be.
func spareFile(rs []*Rule) *ast.File {
	f := toFile(rs)
	var args []ast.Value
	var ss []*ast.SExpr
	var collect func(v ast.Value)
	collect = func(v ast.Value) {
		if s, ok := v.(*ast.SExpr); ok {
			ss = append(ss, s)
			for _, a := range s.Args {
				collect(a)
			}
		}
	}
	for _, r := range f.Rules {
		collect(r.Match)
		collect(r.Result)
	}
	total := 0
	for _, s := range ss {
		total += len(s.Args)
	}
	args = make([]ast.Value, total+2)
	args[total], args[total+1] = ast.Variable("spare"), ast.Variable("spare")
	n := 0
	for _, s := range ss {
		k := copy(args[n:], s.Args)
		s.Args = args[n : n+k]
		n += k
		if p, ok := s.Op.(ast.OpcodeParts); ok {
			q := make(ast.OpcodeParts, len(p), len(p)+3)
			copy(q, p)
			q[:len(p)+1][len(p)] = ast.Opcode("spare")
			s.Op = q
		}
	}
	rules := make([]*ast.Rule, len(f.Rules), len(f.Rules)+4)
	copy(rules, f.Rules)
	f.Rules = rules
	return f
}

// fullCanon is the canonical text of a file with the spare room of its slices.
func fullCanon(f *ast.File) string {
	if f == nil {
		return "invalid"
	}
	var b strings.Builder
	b.WriteString(canonFile(f))
	spare := func(vs []ast.Value) {
		for _, v := range vs[len(vs):cap(vs)] {
			if v == nil {
				b.WriteString(" nil")
			} else {
				canonValue(&b, v)
			}
		}
	}
	var rec func(v ast.Value)
	rec = func(v ast.Value) {
		if s, ok := v.(*ast.SExpr); ok {
			spare(s.Args)
			if p, ok := s.Op.(ast.OpcodeParts); ok {
				fmt.Fprintf(&b, "%#v", p[:cap(p)])
			}
			for _, a := range s.Args {
				rec(a)
			}
		}
	}
	for _, r := range f.Rules {
		rec(r.Match)
		rec(r.Result)
	}
	for _, r := range f.Rules[len(f.Rules):cap(f.Rules)] {
		fmt.Fprintf(&b, "%v", r != nil)
	}
	return b.String()
}

var operateMain, coldMain func()

// scribble changes everything that belongs to the caller of the parser.
func scribble(f *ast.File) {
	if f == nil {
		return
	}
	expr := func(e *ast.Expr) {
		if e == nil {
			return
		}
		goast.Inspect(e.Expr, func(n goast.Node) bool {
			switch x := n.(type) {
			case *goast.Ident:
				x.Name = "scribbled"
			case *goast.BasicLit:
				x.Value = "99"
			case *goast.CallExpr:
				if len(x.Args) > 0 {
					x.Args[0] = goast.NewIdent("scribbled")
				}
			}
			return true
		})
		e.Expr = goast.NewIdent("scribbled")
	}
	var value func(v ast.Value)
	value = func(v ast.Value) {
		switch x := v.(type) {
		case *ast.Expr:
			expr(x)
		case *ast.SExpr:
			for i, a := range x.Args {
				value(a)
				x.Args[i] = ast.Variable("scribbled")
			}
			expr(x.AuxInt)
			expr(x.Aux)
			if parts, ok := x.Op.(ast.OpcodeParts); ok {
				for i, p := range parts {
					if alt, ok := p.(ast.OpcodeAlt); ok {
						for j := range alt {
							alt[j] = "Scribbled"
						}
					}
					parts[i] = ast.Opcode("Scribbled")
				}
			}
			*x = ast.SExpr{Op: ast.Opcode("Scribbled"), Binding: "s", Type: "s", Ellipsis: !x.Ellipsis, Trailing: !x.Trailing}
		}
	}
	for i, r := range f.Rules {
		value(r.Match)
		value(r.Result)
		expr(r.Condition)
		*r = ast.Rule{Match: ast.Variable("scribbled"), Result: ast.Variable("scribbled")}
		f.Rules[i] = nil
	}
	f.Rules = nil
}

// zero clears what the caller of a printing operation owns.
func zero(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = '#'
	}
}

// positions finds source positions left in a tree. The place of a final "..."
// is the only record of it and may be any constant, but everywhere the same.
func positions(x any) string {
	pos := reflect.TypeOf(gotoken.NoPos)
	ellipsis := int64(0)
	var rec func(v reflect.Value, path string) string
	rec = func(v reflect.Value, path string) string {
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if !v.IsNil() {
				return rec(v.Elem(), path)
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				if m := rec(v.Index(i), fmt.Sprintf("%s[%d]", path, i)); m != "" {
					return m
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				name := v.Type().Field(i).Name
				if v.Type() == reflect.TypeOf(goast.CallExpr{}) && name == "Ellipsis" {
					switch n := v.Field(i).Int(); {
					case n == 0:
					case ellipsis == 0:
						ellipsis = n
					case n != ellipsis:
						return fmt.Sprintf("%s.%s is %d, elsewhere %d", path, name, n, ellipsis)
					}
					continue
				}
				if m := rec(v.Field(i), path+"."+name); m != "" {
					return m
				}
			}
		default:
			if v.Type() == pos && v.Int() != 0 {
				return fmt.Sprintf("%s is %d", path, v.Int())
			}
		}
		return ""
	}
	return rec(reflect.ValueOf(x), "")
}

var operations = []string{"parsing", "printing", "printing to a writer", "dumping", "walking", "predicates", "SMT generation", "expansion", "printing a rule", "inspecting"}

// operate runs one operation on an input and returns all it gives as text.
func operate(text *string, f *ast.File, op int) string {
	var b strings.Builder
	switch operations[op] {
	case "parsing":
		if text == nil {
			return ""
		}
		f, err := parse.String(*text)
		fmt.Fprintf(&b, "%v\n%s", err, canonFile(f))
	case "printing":
		p, err := printer.Bytes(f)
		fmt.Fprintf(&b, "%v\n%s", err, p)
	case "printing to a writer":
		err := printer.Fprint(&b, f)
		fmt.Fprintf(&b, "%v", err)
	case "dumping":
		for _, r := range f.Rules {
			err := ast.Fprint(&b, r)
			fmt.Fprintf(&b, "%v", err)
		}
	case "walking":
		ast.Inspect(f, func(n ast.Node) bool {
			fmt.Fprintf(&b, "%T;", n)
			return true
		})
	case "predicates":
		for _, r := range f.Rules {
			fmt.Fprintln(&b, rules.HasBinding(r), rules.HasType(r), rules.HasAux(r), rules.HasAuxInt(r), rules.HasEllipsis(r), rules.HasTrailing(r))
		}
	case "SMT generation":
		for _, r := range f.Rules {
			s, err := smt2.Generate(r)
			fmt.Fprintf(&b, "%v\n%s\n", err, s)
		}
	case "expansion":
		// Of a file of its own, with the shared rules.
		g := &ast.File{Rules: f.Rules}
		err := pass.ExpandAlternates(g)
		fmt.Fprintf(&b, "%v\n%s", err, canonFile(g))
	case "printing a rule":
		for _, r := range f.Rules {
			p, err := printer.Bytes(r)
			fmt.Fprintf(&b, "%v %s\n", err, p)
		}
	case "inspecting":
		n := 0
		found := ast.Contains(f, func(x ast.Node) bool { n++; v, ok := x.(ast.Variable); return ok && v == "x" })
		fmt.Fprintln(&b, found)
	}
	return b.String()
}

// raceReport is the report of the race detector so far, of this process.
func raceReport() string {
	ms, _ := filepath.Glob(filepath.Join(env.Scratch, fmt.Sprintf("race.%d", os.Getpid())))
	for _, m := range ms {
		b, err := os.ReadFile(m)
		if err != nil {
			continue
		}
		// Reports of the code under test first.
		s := string(b)
		parts := strings.Split(s, "==================")
		for i := len(parts) - 1; i >= 0; i-- {
			if strings.Contains(parts[i], "mmcloughlin/ssarules") {
				return tail(strings.TrimSpace(parts[i]), 3000)
			}
		}
		return tail(s, 2000)
	}
	return "no report"
}
