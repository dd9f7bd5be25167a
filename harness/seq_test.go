package verifharness

import (
	"fmt"
	"iter"
	"runtime"
	"time"

	"github.com/dball/destructive/internal/iterator"
	. "github.com/dball/destructive/internal/types"
	"pgregory.net/rapid"
)

// seqCase is a history of a database and an index, and a program that uses their sequences.
type seqCase struct {
	DB  dbCase  `json:"db"`
	Idx idxCase `json:"idx"`
	Ops []seqOp `json:"ops"`
}

type seqOp struct {
	// K: "" open from the database, "idx" open from an index, "full", "part", "pull", "next", "stop",
	// "nest", "concat", "write" a step, "during" write a step in the midst of a pass, "change" an index.
	K  string     `json:"k,omitempty"`
	I  int        `json:"i,omitempty"`
	J  int        `json:"j,omitempty"`
	N  int        `json:"n,omitempty"`
	M  int        `json:"m,omitempty"`
	Is []int      `json:"is,omitempty"`
	Q  *querySpec `json:"q,omitempty"`
	S  *stepSpec  `json:"s,omitempty"`
	X  *idxOp     `json:"x,omitempty"`
}

// sequence is a sequence and what each pass must yield.
type sequence struct {
	name string
	seq  iter.Seq[Datum]
	want []string
	idx  int
}

// pulled is a pass in progress.
type pulled struct {
	s    *sequence
	next func() (Datum, bool)
	stop func()
	n    int
	done bool
}

func datumKey(d Datum) string { return fmt.Sprint(uint64(d.E), uint64(d.A), keyOf(d.V), uint64(d.T)) }

var seqProps = []string{"C23"}

type seqRun struct {
	d     *dbRun
	x     *idxRun
	frozn map[int]bool
	seqs  []*sequence
	pulls []*pulled
	snaps []Snapshot
	// part and inter count partial passes and passes interleaved with writes.
	part, inter int
}

func (s *seqRun) fail(what string, format string, args ...any) {
	s.d.fail(what, seqProps, format, args...)
}

// elem checks the nth element of a pass.
func (s *seqRun) elem(q *sequence, n int, d Datum, how string) bool {
	if n >= len(q.want) {
		s.fail("seq", "%s of %s yields %v as element %d of %d", how, q.name, d, n, len(q.want))
		return false
	}
	if got := datumKey(d); got != q.want[n] {
		s.fail("seq", "%s of %s yields %v as element %d, not %v", how, q.name, d, n, q.want[n])
		return false
	}
	return true
}

// pass ranges over at most n elements, all if n is negative, calling f for each.
func (s *seqRun) pass(q *sequence, n int, how string, f func(i int)) {
	i := 0
	for d := range q.seq {
		if !s.elem(q, i, d, how) {
			return
		}
		if f != nil {
			f(i)
		}
		i++
		if n >= 0 && i > n {
			return
		}
	}
	if i != len(q.want) {
		s.fail("seq", "%s of %s ends after %d elements of %d", how, q.name, i, len(q.want))
	}
}

// open adds a sequence that no pass has consumed. Another of the same datums says what each pass must yield.
func (s *seqRun) open(name string, open func() iter.Seq[Datum], idx int) {
	if len(s.seqs) >= 20 {
		return
	}
	seq, other := open(), open()
	if seq == nil || other == nil {
		s.fail("seq", "%s is nil", name)
		return
	}
	q := &sequence{name: name, seq: seq, idx: idx}
	for d := range other {
		q.want = append(q.want, datumKey(d))
		if len(q.want) > 500000 {
			s.fail("seq", "%s does not end", name)
			return
		}
	}
	s.seqs = append(s.seqs, q)
}

func (s *seqRun) write(step *stepSpec) {
	if step == nil {
		return
	}
	plain := *step
	plain.Queries = nil
	s.d.doStep(plain)
	if len(s.snaps) < 10 {
		s.snaps = append(s.snaps, s.d.db.Read())
	}
}

func (s *seqRun) do(op seqOp) {
	switch op.K {
	case "":
		snap, _ := at(s.snaps, op.I)
		var claim Claim
		if op.Q != nil {
			claim, _ = s.d.renderQuery(*op.Q)
		}
		s.open("the selection "+describeClaim(claim), func() iter.Seq[Datum] { return snap.Select(claim) }, -1)
		return
	case "idx":
		i := abs(op.I) % len(s.x.states)
		st := s.x.states[i]
		partials := idxPartials[s.x.kind]
		k := abs(op.J) % (len(partials) + 1)
		// An index must not change while it is read.
		s.frozn[i] = true
		if k == len(partials) {
			s.open("the scan of the "+idxKinds[s.x.kind]+" index", st.idx.All, i)
			return
		}
		var x idxOp
		if op.X != nil {
			x = *op.X
		}
		f := s.x.queryFact(st, x)
		s.open(fmt.Sprintf("the selection of the %s index by %s %v", idxKinds[s.x.kind], partials[k].name, f),
			func() iter.Seq[Datum] { return st.idx.Select(partials[k].p, datumOf(f, 0)) }, i)
		return
	case "change":
		if op.X == nil {
			return
		}
		i := abs(op.X.I) % len(s.x.states)
		if s.frozn[i] {
			// Change a clone instead.
			n := len(s.x.states)
			s.x.do(idxOp{K: "clone", I: i})
			if len(s.x.states) == n {
				return
			}
			i = n
		}
		x := *op.X
		x.I = i
		s.x.do(x)
		return
	case "write":
		s.write(op.S)
		return
	}
	q, ok := at(s.seqs, op.I)
	if !ok {
		return
	}
	switch op.K {
	case "full":
		s.pass(q, -1, "a full pass", nil)
	case "part":
		s.part++
		s.pass(q, abs(op.N)%(len(q.want)+1), "a partial pass", nil)
	case "during":
		s.inter++
		s.pass(q, -1, "a pass with a write", func(i int) {
			if i == abs(op.N)%(len(q.want)+1) {
				s.write(op.S)
			}
		})
	case "nest":
		r, _ := at(s.seqs, op.J)
		s.inter++
		s.pass(q, 30, "an outer pass", func(i int) {
			if i < 10 {
				s.pass(r, (abs(op.N)+i*abs(op.M))%(len(r.want)+1), "an inner pass", nil)
			}
		})
	case "pull":
		if len(s.pulls) >= 10 {
			return
		}
		next, stop := iter.Pull(q.seq)
		s.pulls = append(s.pulls, &pulled{s: q, next: next, stop: stop})
	case "next", "stop":
		p, ok := at(s.pulls, op.J)
		if !ok {
			return
		}
		if op.K == "stop" {
			p.stop()
			p.done = true
		}
		for i := 0; i <= abs(op.N)%50 && !p.done; i++ {
			s.inter++
			d, ok := p.next()
			if !ok {
				if p.n != len(p.s.want) {
					s.fail("seq", "an interleaved pass of %s ends after %d elements of %d", p.s.name, p.n, len(p.s.want))
				}
				p.done = true
				break
			}
			if !s.elem(p.s, p.n, d, "an interleaved pass") {
				p.done = true
			}
			p.n++
		}
		if p.done {
			if _, ok := p.next(); ok {
				s.fail("seq", "an ended pass of %s goes on", p.s.name)
			}
		}
	case "concat":
		s.concat(op)
	}
}

func (s *seqRun) concat(op seqOp) {
	var seqs []iter.Seq[Datum]
	all := &sequence{name: "a concatenation"}
	started := make([]int, len(op.Is))
	produced := make([]int, len(op.Is))
	stopped := false
	var lens []int
	for k, i := range op.Is {
		q, _ := at(s.seqs, i)
		all.want = append(all.want, q.want...)
		lens = append(lens, len(q.want))
		seqs = append(seqs, func(yield func(Datum) bool) {
			started[k]++
			if stopped {
				s.fail("seq", "a concatenation starts its part %d after the consumer has stopped", k)
			}
			for d := range q.seq {
				if stopped {
					s.fail("seq", "a concatenation goes on with its part %d after the consumer has stopped", k)
					return
				}
				produced[k]++
				if !yield(d) {
					return
				}
			}
		})
	}
	all.seq = iterator.Concat(seqs...)
	for round := 0; round < 3; round++ {
		for k := range started {
			started[k], produced[k] = 0, 0
		}
		stopped = false
		n := -1
		if op.N%2 == 1 && round < 2 {
			n = abs(op.M) % (len(all.want) + 1)
			s.part++
		}
		i := 0
		for d := range all.seq {
			if !s.elem(all, i, d, "a pass") {
				return
			}
			i++
			if n >= 0 && i > n {
				stopped = true
				break
			}
		}
		if !stopped && i != len(all.want) {
			s.fail("seq", "a concatenation ends after %d elements of %d", i, len(all.want))
		}
		// What was produced is what was consumed, and later parts are not started.
		rest := i
		for k := range started {
			want := min(rest, lens[k])
			if produced[k] != want {
				s.fail("seq", "a concatenation consumed for %d elements takes %d of part %d, not %d", i, produced[k], k, want)
			}
			if stopped && rest <= 0 && started[k] > 0 {
				s.fail("seq", "a concatenation consumed for %d elements starts part %d", i, k)
			}
			rest -= want
		}
	}
}

// goroutines waits for no more goroutines to be left than there were.
func goroutines(before int) (left int) {
	for i := 0; i < 200; i++ {
		if left = runtime.NumGoroutine() - before; left <= 0 {
			return
		}
		time.Sleep(time.Duration(i) * 100 * time.Microsecond)
	}
	return
}

func runSeq(c *seqCase, r *run) {
	before := runtime.NumGoroutine()
	defer func() {
		// Abandoned passes leave nothing running.
		if len(r.mismatches) == 0 {
			if left := goroutines(before); left > 0 {
				r.fail("seq", seqProps, "%d goroutines are left of abandoned passes", left)
			}
		}
	}()
	d := runDB(r, &c.DB, dbOptions{noFinal: true})
	if d == nil || len(r.mismatches) > 0 {
		return
	}
	x := newIdxRun(r, &c.Idx)
	if x == nil {
		return
	}
	for _, op := range c.Idx.Ops {
		if !x.guard("an index operation", func() { x.do(op) }) {
			return
		}
	}
	s := &seqRun{d: d, x: x, frozn: map[int]bool{}, snaps: []Snapshot{d.db.Read()}}
	defer func() {
		for _, p := range s.pulls {
			p.stop()
		}
	}()
	for i, op := range c.Ops {
		if !d.guard(fmt.Sprintf("the sequence operation %d", i), func() { s.do(op) }) || len(r.mismatches) > 0 {
			return
		}
	}
	// In the end, all is as it must be.
	d.guard("the passes at the end", func() {
		for _, q := range s.seqs {
			s.pass(q, -1, "a pass at the end", nil)
			s.pass(q, -1, "another pass at the end", nil)
		}
		n := len(d.mismatches)
		d.compareDump(d.db.Read(), "at the end", nil)
		x.finish()
		for i := n; i < len(d.mismatches); i++ {
			d.mismatches[i].Props = append(d.mismatches[i].Props, "C23")
		}
	})
	if s.part > 0 {
		r.class("partial passes")
	}
	if s.inter > 0 {
		r.class("interleaved passes")
	}
	r.nontrivial = len(s.seqs) >= 2 && s.part+s.inter > 0
}

func init() {
	p := baseProfile
	p.bad, p.maxSteps, p.queries, p.maxClaims, p.pool = 2, 4, 0, 8, 4
	genDB := p.gen()
	queries := p.queryGen()
	claims := p.claimGen()
	ops := rapid.Custom(func(t *rapid.T) (op seqOp) {
		k := choose(t, 25, 10, 6, 8, 10, 15, 5, 8, 8, 8, 8, 6)
		op.K = []string{"", "idx", "full", "part", "pull", "next", "stop", "nest", "concat", "write", "during", "change"}[k]
		op.I, op.J = pick(t, 20), pick(t, 20)
		op.N, op.M = pick(t, 60), pick(t, 60)
		switch op.K {
		case "":
			op.N, op.M = 0, 0
			if chance(t, 60) {
				q := queries.Draw(t, "query")
				op.Q = &q
			}
		case "idx", "change":
			x := drawIdxOp(t)
			for op.K == "change" && (x.K == "query" || x.K == "all") {
				x.K = "del"
			}
			op.X = &x
		case "concat":
			for n := pick(t, 5); n > 0; n-- {
				op.Is = append(op.Is, pick(t, 20))
			}
		case "write", "during":
			op.S = &stepSpec{Claims: rapid.SliceOfN(claims, 1, 6).Draw(t, "claims")}
		}
		return
	})
	register("C23", check{
		rule: "A case is a database history and an index with clones, and a program that opens sequences from snapshots and indexes and consumes them in full, in part, by interleaved pulls, nested and concatenated, with writes before, between and in the midst of passes; every pass is compared with the first. Non-trivial: at least two sequences and a partial, nested or interleaved pass.",
		gen: func(t *rapid.T) any {
			c := &seqCase{DB: *genDB(t).(*dbCase)}
			c.Idx = idxCase{Kind: pick(t, 3), Degree: []int{2, 3, 8}[pick(t, 3)]}
			for n := pick(t, 5); n > 0; n-- {
				op := drawIdxOp(t)
				if op.K == "" || op.K == "query" {
					op.K, op.N, op.P = "fill", 10+pick(t, 40), 1+pick(t, 26)
				}
				c.Idx.Ops = append(c.Idx.Ops, op)
			}
			c.Ops = list(t, ops, 25)
			return c
		},
		blank: func() any { return &seqCase{} },
		run:   func(c any, r *run) { runSeq(c.(*seqCase), r) },
	})
}
