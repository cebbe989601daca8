package main

// Coverage-guided search. Every random choice of a generator goes through G.n,
// so a case is a function of the list of its choices. Lists whose case reaches
// new branches of the code under test (or old ones more often) are kept, and
// changed lists make new cases: as a coverage-guided fuzzer does with bytes,
// but every case is one that the generator can give.

import (
	"debug/elf"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"time"
	"unsafe"
)

// choice is a number drawn from 0..max-1.
type choice struct{ max, val int }

// span is the part of a list that one part of the case was drawn with.
type span struct {
	kind       spanKind
	start, end int32
}

type spanKind int8

const (
	spanWord spanKind = iota
	spanText
	spanOp
	spanGX
	spanCall
	spanVal
	spanRule
)

func (g *G) begin(kind spanKind) int {
	if g.tape != nil {
		g.tape.begin(kind)
	}
	if len(g.list) > maxChoices {
		return -1
	}
	g.spans = append(g.spans, span{kind, int32(len(g.list)), -1})
	return len(g.spans) - 1
}

func (g *G) end(i int) {
	if g.tape != nil {
		g.tape.end()
	}
	if i >= 0 {
		g.spans[i].end = int32(len(g.list))
	}
}

const maxChoices = 1 << 14 // longer lists are not kept

// plan is what a case is to be drawn with. Where the generator takes another
// way than the plan, the spans tell which part of the plan goes with which
// part of the case; without spans, choices are just taken in order.
type plan struct {
	list  []choice
	spans []span // by start, outer ones first
}

// tape is where the choices of a case come from in place of rapid.
type tape struct {
	rnd *rand.Rand
	plan
	pos   int
	next  int     // the first span that was not entered or skipped
	open  []int32 // ends of those entered
	loose int     // how many parts are open that the plan does not have
}

func (t *tape) begin(kind spanKind) {
	switch {
	case t.spans == nil:
		return
	case t.loose > 0:
		t.loose++
		return
	}
	pos, next := t.pos, t.next
	for skips := 0; skips < 4; skips++ {
		if next >= len(t.spans) || t.spans[next].start != int32(pos) || t.spans[next].end > t.limit() {
			break
		}
		if s := t.spans[next]; s.kind == kind {
			t.pos, t.next = pos, next+1
			t.open = append(t.open, s.end)
			return
		}
		pos = int(t.spans[next].end)
		next = t.after(next)
	}
	t.loose = 1
}

func (t *tape) end() {
	switch {
	case t.spans == nil:
	case t.loose > 0:
		t.loose--
	default:
		n := len(t.open) - 1
		t.pos = int(t.open[n])
		t.open = t.open[:n]
		for t.next < len(t.spans) && t.spans[t.next].start < int32(t.pos) {
			t.next++
		}
	}
}

// limit is where the part of the plan ends that is being used.
func (t *tape) limit() int32 {
	if n := len(t.open); n > 0 {
		return t.open[n-1]
	}
	return int32(len(t.list))
}

// after is the first span that is not within the one given.
func (t *tape) after(i int) int {
	end := t.spans[i].end
	for i++; i < len(t.spans) && t.spans[i].start < end; i++ {
	}
	return i
}

func (t *tape) draw(max int) int {
	if t.loose == 0 {
		// Parts that the case does not have are left out.
		for t.next < len(t.spans) && t.spans[t.next].start == int32(t.pos) && t.spans[t.next].end > int32(t.pos) {
			t.pos = int(t.spans[t.next].end)
			t.next = t.after(t.next)
		}
		if t.pos < int(t.limit()) {
			c := t.list[t.pos]
			t.pos++
			return c.val % max
		}
	}
	// Mildly small, as rapid has it.
	if v := t.rnd.IntN(max); t.rnd.IntN(3) > 0 {
		return v
	} else if v > 0 {
		return t.rnd.IntN(v + 1)
	}
	return 0
}

// counters are the branch counters of the code under test, which
// -gcflags=-d=libfuzzer adds; none if it is built without.
var counters = findCounters()

func findCounters() []byte {
	f, err := elf.Open("/proc/self/exe")
	if err != nil || f.Type != elf.ET_EXEC {
		return nil
	}
	defer f.Close()
	s := f.Section(".go.fuzzcntrs")
	if s == nil || s.Size == 0 {
		return nil
	}
	addr := uintptr(s.Addr)
	return unsafe.Slice(*(**byte)(unsafe.Pointer(&addr)), int(s.Size))
}

// pool keeps the lists of choices that reached something new.
type pool struct {
	feats [][4]feature // per counter, by class of counts
	seen  []*feature   // those that some case had
	near  []*kept      // lists that came closer at some comparison
	picks int
	start time.Time // of the case being run
	share *exchange // with the pools of other workers, if set
	sweep []*sweep  // the last is next
}

// sweep changes the choices of a list one at a time, in random order.
type sweep struct {
	*kept
	order []int
}

const maxSweep = 1000 // longer lists are not swept

// feature is that a branch is taken about so many times.
type feature struct {
	freq int   // how many cases had it
	best *kept // the shortest list that has it
}

func (f *feature) cost() int {
	return (8 + f.freq) * (64 + len(f.best.list)) * int(200+f.best.took/time.Microsecond)
}

type kept struct {
	list  []choice
	spans []span
	took  time.Duration
}

func newPool() *pool {
	clear(tracing.seen[:])
	return &pool{feats: make([][4]feature, len(counters))}
}

// watch starts the counters again, for the case that is run next.
func (p *pool) watch() {
	clear(counters)
	tracing.on, tracing.fresh = true, false
	p.start = time.Now()
}

// consider keeps the list if the counters show anything new, or if it is the
// shortest to show something.
func (p *pool) consider(list []choice, spans []span) {
	tracing.on = false
	var mine *kept
	keep := func() *kept {
		if mine == nil {
			mine = &kept{append([]choice(nil), list...), append([]span(nil), spans...), time.Since(p.start)}
		}
		return mine
	}
	fresh := false
	ok := len(list) > 0 && len(list) <= maxChoices
	for i, c := range counters {
		if c == 0 {
			continue
		}
		counters[i] = 0
		f := &p.feats[i][classes[c]]
		f.freq++
		if !ok {
			continue
		}
		if f.best == nil {
			f.best = keep()
			p.seen = append(p.seen, f)
			fresh = true
		} else if len(list)*5 < len(f.best.list)*4 {
			f.best = keep()
		}
	}
	if fresh && p.share != nil {
		p.share.put(list)
		p.push(mine)
	}
	if ok && mine == nil && tracing.fresh {
		if len(p.near) < 256 {
			p.near = append(p.near, keep())
		} else {
			copy(p.near, p.near[1:])
			p.near[255] = keep()
		}
	}
}

func (p *pool) push(k *kept) {
	if len(k.list) <= maxSweep && k.took < 20*time.Millisecond {
		p.sweep = append(p.sweep, &sweep{kept: k})
	}
}

// begin makes the pool ready for guided search: the lists with what few cases
// had are swept.
func (p *pool) begin(share *exchange) {
	p.share = share
	sort.Slice(p.seen, func(i, j int) bool { return p.seen[i].cost() < p.seen[j].cost() })
	for i := min(len(p.seen), 30) - 1; i >= 0; i-- {
		p.push(p.seen[i].best)
	}
}

var classes = func() (t [256]int8) {
	for c := range t {
		switch {
		case c < 2:
		case c < 4:
			t[c] = 1
		case c < 16:
			t[c] = 2
		default:
			t[c] = 3
		}
	}
	return t
}()

// pick draws a list, mostly one that has something that few cases have.
func (p *pool) pick(r *rand.Rand) *kept {
	if n := len(p.near); n > 0 && r.IntN(6) == 0 {
		return p.near[r.IntN(n)]
	}
	if p.picks%256 == 0 {
		sort.Slice(p.seen, func(i, j int) bool { return p.seen[i].cost() < p.seen[j].cost() })
	}
	p.picks++
	u := r.Float64()
	return p.seen[int(float64(len(p.seen))*u*u*u*u)].best
}

// change makes a plan from one or two lists of the pool.
func (p *pool) change(r *rand.Rand) plan {
	if n := len(p.sweep); n > 0 && r.IntN(2) == 0 {
		w := p.sweep[n-1]
		if w.order == nil {
			w.order = r.Perm(len(w.list))
		}
		i := w.order[0]
		if w.order = w.order[1:]; len(w.order) == 0 {
			p.sweep = p.sweep[:n-1]
		}
		l := append([]choice(nil), w.list...)
		switch c := &l[i]; {
		case c.max > 64 || c.max > 2 && r.IntN(3) == 0:
			c.val = r.IntN(c.max)
		case c.val != c.max-1:
			c.val = c.max - 1
		default:
			c.val = 0
		}
		return plan{l, w.spans}
	}
	from := p.pick(r)
	to := plan{append([]choice(nil), from.list...), from.spans}
	if len(from.spans) > 0 && r.IntN(2) == 0 {
		to = p.graft(from, r)
	}
	l := to.list
	for k := r.IntN(3); k > 0 && len(l) > 0; k-- {
		if r.IntN(2) == 0 && k < 8 {
			k++
		}
		switch c := &l[r.IntN(len(l))]; r.IntN(4) {
		case 0, 1:
			c.val = r.IntN(c.max)
		case 2:
			if c.val++; c.val >= c.max {
				c.val = 0
			}
		default:
			if c.val--; c.val < 0 {
				c.val = c.max - 1
			}
		}
	}
	if r.IntN(4) > 0 {
		return to
	}
	// Changes that move choices to other places.
	for k := 1 + r.IntN(2); k > 0 && len(l) > 0; k-- {
		i := r.IntN(len(l))
		switch r.IntN(6) {
		case 0: // another end
			l = l[:i]
		case 1: // less
			n := min(len(l)-i, 1+r.IntN(16))
			l = append(l[:i:i], l[i+n:]...)
		case 2: // a part again
			n := min(len(l)-i, 1+r.IntN(32))
			j := i + n
			if r.IntN(2) == 0 {
				j = r.IntN(len(l) + 1)
			}
			l = append(append(append([]choice(nil), l[:j]...), l[i:i+n]...), l[j:]...)
		case 3: // the end of another list, from a choice of the same kind
			o := p.pick(r).list
			j := r.IntN(len(o))
			for t := 0; t < 20 && o[j].max != l[i].max; t++ {
				j = r.IntN(len(o))
			}
			l = append(l[:i:i], o[j:]...)
		case 4: // part of another list
			o := p.pick(r).list
			j := r.IntN(len(o))
			n := min(len(o)-j, 1+r.IntN(32))
			l = append(append(append([]choice(nil), l[:i]...), o[j:j+n]...), l[i:]...)
		case 5: // the same choices as elsewhere
			for t := 0; t < 10; t++ {
				if j := r.IntN(len(l)); j != i && l[j].max == l[i].max {
					n := 1 + r.IntN(6)
					for m := 0; m < n && i+m < len(l) && j+m < len(l) && l[i+m].max == l[j+m].max; m++ {
						l[i+m].val = l[j+m].val
					}
					break
				}
			}
		}
	}
	return plan{l[:min(len(l), maxChoices)], nil}
}

// graft puts another part of its kind, from the same or another case, in the
// place of a part; at times with the old part inside.
func (p *pool) graft(from *kept, r *rand.Rand) plan {
	ai := r.IntN(len(from.spans))
	a := from.spans[ai]
	other := from
	if r.IntN(2) == 0 {
		other = p.pick(r)
	}
	same := plan{append([]choice(nil), from.list...), from.spans}
	if len(other.spans) == 0 || a.end < a.start {
		return same
	}
	for t := 0; t < 30; t++ {
		bi := r.IntN(len(other.spans))
		b := other.spans[bi]
		if b.kind != a.kind || b.end <= b.start {
			continue
		}
		part := plan{other.list[b.start:b.end], shifted(within(other.spans, b), -b.start)}
		if c := other.spans[bi+r.IntN(len(other.spans)-bi)]; c.kind == a.kind && b.start < c.start && c.end <= b.end && r.IntN(3) == 0 {
			old := plan{from.list[a.start:a.end], shifted(within(from.spans, a), -a.start)}
			c.start -= b.start
			c.end -= b.start
			part = replaced(part, c, old)
		}
		if to := replaced(plan{from.list, from.spans}, a, part); len(to.list) <= maxChoices {
			return to
		}
	}
	return same
}

// within lists the spans inside s, and s itself.
func within(spans []span, s span) (in []span) {
	for _, x := range spans {
		if s.start <= x.start && x.end <= s.end && x.start < s.end && (x.start != s.start || x.end != s.end || x == s) {
			in = append(in, x)
		}
	}
	return in
}

func shifted(spans []span, by int32) []span {
	out := make([]span, len(spans))
	for i, x := range spans {
		out[i] = span{x.kind, x.start + by, x.end + by}
	}
	return out
}

// replaced puts part in the place of span a.
func replaced(in plan, a span, part plan) plan {
	var out plan
	out.list = append(append(append(out.list, in.list[:a.start]...), part.list...), in.list[a.end:]...)
	by := int32(len(part.list)) - (a.end - a.start)
	put := false
	for _, x := range in.spans {
		switch {
		case x.start >= a.end && a.end > a.start:
			if !put {
				out.spans = append(out.spans, shifted(part.spans, a.start)...)
				put = true
			}
			out.spans = append(out.spans, span{x.kind, x.start + by, x.end + by})
		case x == a:
			if !put {
				out.spans = append(out.spans, shifted(part.spans, a.start)...)
				put = true
			}
		case x.start >= a.start && x.end <= a.end && x.end-x.start < a.end-a.start:
		case x.end >= a.end:
			out.spans = append(out.spans, span{x.kind, x.start, x.end + by})
		default:
			out.spans = append(out.spans, x)
		}
	}
	return out
}

// shrink looks for a shorter list of smaller choices that fails as well.
func shrinkChoices(list []choice, fails func(list []choice) ([]choice, bool)) {
	end := time.Now().Add(20 * time.Second)
	try := func(l []choice) bool {
		got, bad := fails(l)
		if bad && smaller(got, list) {
			list = append([]choice(nil), got...)
			return true
		}
		return false
	}
	for again := true; again && time.Now().Before(end); {
		again = false
		for n := len(list); n > 0; n /= 2 {
			for i := 0; i+n <= len(list) && time.Now().Before(end); {
				if !try(append(append([]choice(nil), list[:i]...), list[i+n:]...)) {
					i += n
				} else {
					again = true
				}
			}
		}
		for i := 0; i < len(list) && time.Now().Before(end); i++ {
			for v := list[i].val; v > 0; {
				v /= 2
				l := append([]choice(nil), list...)
				l[i].val = v
				if try(l) {
					again = true
					break
				}
				if i >= len(list) {
					break
				}
			}
		}
	}
}

func smaller(a, b []choice) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i].val != b[i].val {
			return a[i].val < b[i].val
		}
	}
	return false
}

func guidedRand(seed uint64) *rand.Rand { return rand.New(rand.NewPCG(seed, 0x5eed)) }

// canGuide reports whether the search of a check can be guided: what runs in
// other processes or goroutines cannot, and very large cases should not.
func canGuide(p *Prop, s *Sub) bool {
	switch p.ID {
	case "C15", "C16", "C18":
		return false
	}
	switch s.Name {
	case "deep", "huge", "crowd", "bundled":
		return false
	}
	return s.gen != nil && len(counters) > 0 && os.Getenv("VERIF_GUIDED") != "off"
}

// exchange passes lists between the workers of a run through files.
type exchange struct {
	out  *os.File
	from []string
	read []int64
}

func newExchange(dir, name string, shard, shards int) *exchange {
	x := &exchange{}
	for i := 0; i < shards; i++ {
		path := filepath.Join(dir, fmt.Sprintf("lists-%s-%d", name, i))
		if i != shard {
			x.from = append(x.from, path)
			continue
		}
		f, err := os.Create(path)
		if err != nil {
			fatalf("%v", err)
		}
		x.out = f
	}
	x.read = make([]int64, len(x.from))
	return x
}

func (x *exchange) put(list []choice) {
	b := binary.LittleEndian.AppendUint32(nil, uint32(len(list)))
	for _, c := range list {
		b = binary.LittleEndian.AppendUint64(b, uint64(c.max))
		b = binary.LittleEndian.AppendUint64(b, uint64(c.val))
	}
	x.out.Write(b)
}

// get returns the lists that the others have put since the last call.
func (x *exchange) get() (lists [][]choice) {
	for i, path := range x.from {
		f, err := os.Open(path)
		if err != nil {
			continue
		}
		b, _ := io.ReadAll(io.NewSectionReader(f, x.read[i], 1<<25))
		f.Close()
		for len(b) >= 4 {
			n := int(binary.LittleEndian.Uint32(b))
			if n > maxChoices || len(b) < 4+16*n {
				break
			}
			l := make([]choice, n)
			for j := range l {
				l[j].max = int(binary.LittleEndian.Uint64(b[4+16*j:]))
				l[j].val = int(binary.LittleEndian.Uint64(b[12+16*j:]))
			}
			lists = append(lists, l)
			b = b[4+16*n:]
			x.read[i] += int64(4 + 16*n)
		}
	}
	return lists
}
