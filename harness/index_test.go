package verifharness

import (
	"fmt"
	"iter"
	"math"
	"sort"

	"github.com/dball/destructive/internal/index"
	. "github.com/dball/destructive/internal/types"
	"pgregory.net/rapid"
)

// idxCase is a sequence of operations on an index and its clones.
type idxCase struct {
	Kind   int     `json:"kind"` // 0 EAV, 1 AEV, 2 AVE, 3 VAE
	Degree int     `json:"degree"`
	Ops    []idxOp `json:"ops"`
}

type idxOp struct {
	// K: "" insert, "del", "fill" insert N datums, "vast" insert thousands, "drain" delete N datums, "clone", "swap" the types,
	// "all", "query", "first".
	K string `json:"k,omitempty"`
	I int    `json:"i,omitempty"`
	E int    `json:"e,omitempty"`
	A int    `json:"a,omitempty"`
	V int    `json:"v,omitempty"`
	N int    `json:"n,omitempty"`
	P int    `json:"p,omitempty"`
}

var idxKinds = []string{"eav", "aev", "ave", "vae"}

// The attributes 1 to 12 have the six types in turn, so that each type has two attributes that
// other types' attributes separate.
const idxAttrs = 12

func idxAttr(n int) ID { return ID(1 + abs(n)%idxAttrs) }

func idxType(a ID) ID { return ID(11 + (a-1)%6) }

func abs(n int) int {
	if n < 0 {
		n = -n
	}
	if n < 0 {
		n = 0
	}
	return n
}

var idxEnts = []ID{firstID, firstID + 1, firstID + 2, 1, firstID + 3, 2, math.MaxUint64, 1 << 63, firstID + 1<<32}

func idxEnt(n int) ID {
	n = abs(n)
	if n < len(idxEnts) {
		return idxEnts[n]
	}
	if n >= besideAt {
		// One bit from another.
		n -= besideAt
		return max(1, idxEnt(n/64%30)^1<<(n%64))
	}
	return firstID + ID(n)
}

var idxRefs = []ID{firstID, 1, 0, firstID + 1, math.MaxUint64, 1 << 63, 2, 3}

func idxValue(a ID, n int) Value {
	n = abs(n)
	typ := idxType(a)
	if n >= besideAt && typ != 14 {
		n -= besideAt
		if typ == 11 {
			return idxEnt(besideAt + n*7)
		}
		return beside(idxValue(a, n/16%30), n%16)
	}
	switch typ {
	case 11:
		if n < len(idxRefs) {
			return idxRefs[n]
		}
		return ID(n)
	case 12:
		if n >= len(stringPool) {
			return String(fmt.Sprint("s", n*2654435761%100003))
		}
	case 13:
		if n >= len(intPool) {
			return Int(n*2654435761%100003 - 50000)
		}
	case 16:
		if n >= len(floatPool) {
			return Float(float64(n*2654435761%100003)/7 - 7000)
		}
	}
	return poolValue(typ, n)
}

// besideAt and what follows are values beside others.
const besideAt = 1 << 24

type idxState struct {
	idx   index.Index
	facts map[fact]ID
}

func (s *idxState) sorted(kind int) []fact {
	list := make([]fact, 0, len(s.facts))
	for f := range s.facts {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return compareIdx(kind, list[i], list[j]) < 0 })
	return list
}

func compareIdx(kind int, x, y fact) int {
	e := func() int {
		if x.E < y.E {
			return -1
		} else if x.E > y.E {
			return 1
		}
		return 0
	}
	a := func() int {
		if x.A < y.A {
			return -1
		} else if x.A > y.A {
			return 1
		}
		return 0
	}
	v := func() int { return compareKeys(x.V, y.V) }
	var order []func() int
	switch kind {
	case 0:
		order = []func() int{e, a, v}
	case 1:
		order = []func() int{a, e, v}
	case 2:
		order = []func() int{a, v, e}
	default:
		order = []func() int{v, a, e}
	}
	for _, f := range order {
		if c := f(); c != 0 {
			return c
		}
	}
	return 0
}

func datumOf(f fact, t ID) Datum { return Datum{E: f.E, A: f.A, V: f.V.value(), T: t} }

// partial is a query that an index kind supports.
type partial struct {
	name  string
	p     index.PartialIndex
	match func(f, q fact) bool
}

var idxPartials = [][]partial{
	{
		{"ea", index.EA, func(f, q fact) bool { return f.E == q.E && f.A == q.A }},
		{"e", index.E, func(f, q fact) bool { return f.E == q.E }},
	},
	{
		{"ae", index.AE, func(f, q fact) bool { return f.E == q.E && f.A == q.A }},
		{"a", index.A, func(f, q fact) bool { return f.A == q.A }},
	},
	{
		{"av", index.AV, func(f, q fact) bool { return f.A == q.A && f.V == q.V }},
		{"a", index.A, func(f, q fact) bool { return f.A == q.A }},
	},
	{},
}

type idxRun struct {
	*run
	kind   int
	states []*idxState
	txn    ID
	splits bool
	// diverged is the number of indexes changed after they were cloned
	changes int
}

func newIdxRun(r *run, c *idxCase) *idxRun {
	kind := abs(c.Kind) % 4
	degree := max(2, min(c.Degree, 1000))
	types := map[ID]ID{}
	for a := ID(1); a <= idxAttrs; a++ {
		types[a] = idxType(a)
	}
	it := []index.IndexType{index.EAVIndex, index.AEVIndex, index.AVEIndex, index.VAEIndex}[kind]
	x := &idxRun{run: r, kind: kind, txn: 100}
	if !x.guard("NewCompositeIndex", func() {
		x.states = []*idxState{{idx: index.NewCompositeIndex(degree, it, types), facts: map[fact]ID{}}}
	}) {
		return nil
	}
	r.class("kind:" + idxKinds[kind])
	return x
}

var idxProps = []string{"C14"}

func (x *idxRun) insert(s *idxState, e, a, v int) {
	attr := idxAttr(a)
	value := idxValue(attr, v)
	f := fact{idxEnt(e), attr, keyOf(value)}
	x.txn++
	_, was := s.facts[f]
	if !was {
		s.facts[f] = x.txn
	}
	datum := Datum{E: f.E, A: f.A, V: value, T: x.txn}
	if got := s.idx.Find(datum); got != was {
		x.fail("find", idxProps, "Find(%v) is %v, not %v", datum, got, was)
	}
	if got := s.idx.Insert(datum); got != was {
		x.fail("insert", idxProps, "Insert(%v) is %v, not %v", datum, got, was)
	}
	if !s.idx.Find(datum) {
		x.fail("find", idxProps, "Find(%v) is false after its insertion", datum)
	}
}

func (x *idxRun) delete(s *idxState, f fact, value Value) {
	_, was := s.facts[f]
	delete(s.facts, f)
	datum := Datum{E: f.E, A: f.A, V: value, T: 7}
	if got := s.idx.Delete(datum); got != was {
		x.fail("delete", idxProps, "Delete(%v) is %v, not %v", datum, got, was)
	}
	if s.idx.Find(datum) {
		x.fail("find", idxProps, "Find(%v) is true after its deletion", datum)
	}
}

// do runs an operation and reports whether it changed an index.
func (x *idxRun) do(op idxOp) {
	s, _ := at(x.states, op.I)
	switch op.K {
	case "", "ins":
		x.insert(s, op.E, op.A, op.V)
		x.changes++
	case "fill":
		for i := 0; i < abs(op.N)%200; i++ {
			x.insert(s, op.E+i*(op.P%3), op.A+i*(op.P/3%3), op.V+i*(op.P/9%3))
		}
		x.changes++
	case "vast":
		for i := 0; i < 1000+abs(op.N)%200*30; i++ {
			x.insert(s, op.E+i*(op.P%3), op.A+i*(op.P/3%3), op.V+i*(op.P/9%3))
		}
		x.changes++
	case "del":
		attr := idxAttr(op.A)
		value := idxValue(attr, op.V)
		x.delete(s, fact{idxEnt(op.E), attr, keyOf(value)}, value)
		x.changes++
	case "drain":
		list := s.sorted(x.kind)
		if len(list) == 0 {
			return
		}
		for i := 0; i < abs(op.N)%200 && i < len(list); i++ {
			f := list[(abs(op.V)+i*(1+abs(op.P)%3))%len(list)]
			x.delete(s, f, f.V.value())
		}
		x.changes++
	case "clone":
		if len(x.states) >= 6 {
			return
		}
		facts := make(map[fact]ID, len(s.facts))
		for f, t := range s.facts {
			facts[f] = t
		}
		x.states = append(x.states, &idxState{idx: s.idx.Clone(), facts: facts})
	case "all":
		x.compareAll(s, "")
	case "query":
		q := x.queryFact(s, op)
		for _, p := range idxPartials[x.kind] {
			x.compare(s, p, q, "")
		}
	}
	for _, s := range x.states {
		if len(s.facts) > 40 {
			x.splits = true
		}
	}
}

// queryFact is a held fact or a drawn one.
func (x *idxRun) queryFact(s *idxState, op idxOp) fact {
	if list := s.sorted(x.kind); op.P%2 == 0 && len(list) > 0 {
		return list[abs(op.N)%len(list)]
	}
	attr := idxAttr(op.A)
	return fact{idxEnt(op.E), attr, keyOf(idxValue(attr, op.V))}
}

func (x *idxRun) collect(seq iter.Seq[Datum], limit int, what string) (list []Datum) {
	if seq == nil {
		x.fail("nil", idxProps, "%s: nil sequence", what)
		return
	}
	for d := range seq {
		list = append(list, d)
		if len(list) > limit {
			x.fail("endless", idxProps, "%s: more than %d datums", what, limit)
			return
		}
	}
	return
}

func (x *idxRun) compareList(got []Datum, want []fact, ts map[fact]ID, ordered bool, what string) {
	if !ordered {
		sort.SliceStable(got, func(i, j int) bool {
			return compareIdx(x.kind, fact{got[i].E, got[i].A, keyOf(got[i].V)}, fact{got[j].E, got[j].A, keyOf(got[j].V)}) < 0
		})
	}
	if len(got) != len(want) {
		x.fail("select", idxProps, "%s: %d datums, not %d: %v", what, len(got), len(want), got)
		return
	}
	for i, d := range got {
		f := fact{d.E, d.A, keyOf(d.V)}
		if f != want[i] {
			x.fail("select", idxProps, "%s: the datum %d is %v, not %v", what, i, d, want[i])
			return
		}
		if d.T != ts[f] {
			x.fail("select", idxProps, "%s: the datum %v must have the transaction %v", what, d, ts[f])
			return
		}
		if !readBack(d.V) {
			x.fail("select", idxProps, "%s: the datum %v has an odd value", what, d)
			return
		}
	}
}

func (x *idxRun) compareAll(s *idxState, what string) {
	what = fmt.Sprintf("All of the %s index%s", idxKinds[x.kind], what)
	x.compareList(x.collect(s.idx.All(), len(s.facts)+10, what), s.sorted(x.kind), s.facts, x.kind == 0, what)
}

func (x *idxRun) compare(s *idxState, p partial, q fact, what string) {
	what = fmt.Sprintf("the %s index%s by %s %v", idxKinds[x.kind], what, p.name, q)
	var want []fact
	for _, f := range s.sorted(x.kind) {
		if p.match(f, q) {
			want = append(want, f)
		}
	}
	datum := Datum{E: q.E, A: q.A, V: q.V.value()}
	x.compareList(x.collect(s.idx.Select(p.p, datum), len(s.facts)+10, what), want, s.facts, true, "Select of "+what)
	if n := s.idx.Count(p.p, datum); n != len(want) {
		x.fail("count", idxProps, "Count of %s is %d, not %d", what, n, len(want))
	}
	first, ok := s.idx.First(p.p, datum)
	switch {
	case ok != (len(want) > 0):
		x.fail("first", idxProps, "First of %s is %v, %v, of %d", what, first, ok, len(want))
	case ok:
		x.compareList([]Datum{first}, want[:1], s.facts, true, "First of "+what)
	}
}

func (x *idxRun) finish() {
	for i, s := range x.states {
		where := fmt.Sprintf(" %d at the end", i)
		x.compareAll(s, where)
		asked := map[string]bool{}
		n := 0
		list := s.sorted(x.kind)
		for step, k := max(1, len(list)/40), 0; k < len(list); k += step {
			f := list[k]
			if n++; n > 60 {
				break
			}
			if !s.idx.Find(datumOf(f, 1)) {
				x.fail("find", idxProps, "Find(%v) is false%s", f, where)
			}
			for _, p := range idxPartials[x.kind] {
				key := p.name
				switch p.name {
				case "e":
					key += fmt.Sprint(f.E)
				case "a":
					key += fmt.Sprint(f.A)
				case "av":
					key += fmt.Sprint(f.A, f.V)
				default:
					key += fmt.Sprint(f.E, f.A)
				}
				if !asked[key] {
					asked[key] = true
					x.compare(s, p, f, where)
				}
			}
		}
	}
}

func drawIdxOp(t *rapid.T) (op idxOp) {
	k := choose(t, 40, 12, 10, 18, 8, 4, 8)
	op.K = []string{"", "query", "fill", "del", "drain", "all", "clone"}[k]
	op.I = pick(t, 6)
	wide := 4
	if chance(t, 30) {
		wide = 30
	}
	op.E, op.A, op.V = pick(t, wide), pick(t, 12), pick(t, wide)
	if op.K == "fill" || op.K == "drain" {
		op.N = []int{5, 20, 60, 199}[choose(t, 2, 3, 3, 1)] + pick(t, 5)
		op.P = 1 + pick(t, 26)
	}
	if (op.K == "" || op.K == "del") && chance(t, 6) {
		op.V = besideAt + pick(t, 480)
	}
	if op.K != "clone" && op.K != "all" && chance(t, 8) {
		op.E = besideAt + pick(t, 8)*64 + pick(t, 64)
	}
	if op.K == "query" {
		op.N, op.P = pick(t, 200), pick(t, 2)
	}
	return
}

func init() {
	register("C14", check{
		rule: "A case is a sequence of inserts, deletes (single and in bulk), clones and queries on an index of one of the four orders, of degree 2 or more, and its clones, over all value types; every answer is compared with a sorted list. Non-trivial: an index of more than 40 datums or at least two indexes, and at least three changes.",
		gen: func(t *rapid.T) any {
			c := &idxCase{
				Kind:   choose(t, 4, 4, 4, 1),
				Degree: []int{2, 3, 4, 5, 16, 64}[pick(t, 6)],
				Ops:    list(t, rapid.Custom(drawIdxOp), 25),
			}
			if choose(t, 996, 4) == 1 && len(c.Ops) > 0 {
				i := pick(t, len(c.Ops))
				c.Ops[i].K, c.Ops[i].N, c.Ops[i].P = "vast", pick(t, 200), []int{1 + pick(t, 26), 1, 9}[pick(t, 3)]
			}
			return c
		},
		blank: func() any { return &idxCase{} },
		run: func(c any, r *run) {
			x := newIdxRun(r, c.(*idxCase))
			if x == nil {
				return
			}
			for i, op := range c.(*idxCase).Ops {
				if !x.guard(fmt.Sprintf("operation %d", i), func() { x.do(op) }) || len(x.mismatches) > 0 {
					return
				}
			}
			x.guard("comparing", x.finish)
			if x.splits {
				r.class("large")
			}
			if len(x.states) > 1 {
				r.class("clones")
			}
			r.nontrivial = (x.splits || len(x.states) > 1) && x.changes >= 3
		},
	})
}
