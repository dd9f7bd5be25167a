package verifharness

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
	pkg "github.com/dball/destructive/pkg/database"
	"pgregory.net/rapid"
)

// concCase is a history written by one goroutine, then programs that goroutines run at the same time, of a database
// (DB) or of a database of structs (View). All requests are made from the state after the history, and every
// write also asserts a marker, so the writes that a snapshot includes are known from the snapshot.
type concCase struct {
	DB      *dbCase    `json:"db,omitempty"`
	View    *viewCase  `json:"view,omitempty"`
	Workers [][]concOp `json:"workers"`
}

type concOp struct {
	// W or S is the request of a write.
	W *stepSpec `json:"w,omitempty"`
	S *viewStep `json:"s,omitempty"`
	// New, if not 0, adds a struct of a type whose attributes are not declared yet.
	New int `json:"new,omitempty"`
	// Of other operations, R is what is read: 0 the database, else the snapshot in a slot.
	R int `json:"r,omitempty"`
	// Slot is where the snapshot is left for others.
	Slot    int         `json:"slot,omitempty"`
	Queries []querySpec `json:"q,omitempty"`
	Finds   []viewRead  `json:"f,omitempty"`
	// Pause delays the operation.
	Pause int `json:"p,omitempty"`
	// Sync has it wait for the others' operation of the same number.
	Sync bool `json:"y,omitempty"`
	// Bare has a write make no assertions, so the marker is an entity it retracts.
	Bare bool `json:"bare,omitempty"`
}

const concSlots = 4
const concMark = 1000000

// The types of the concurrent struct cases.

type cDecl struct {
	ID    uint64     `attr:"sys/db/id"`
	Name  *string    `attr:"v/name,identity"`
	Email *string    `attr:"v/email,unique"`
	Code  *int       `attr:"v/code,identity"`
	N     *int       `attr:"v/n"`
	F     *float64   `attr:"v/f"`
	B     *bool      `attr:"v/b"`
	T     *time.Time `attr:"v/t"`
	When  *time.Time `attr:"v/when,unique"`
	S     *string    `attr:"v/s"`
	Boss  *vRef      `attr:"v/boss"`
	Buddy *vRef      `attr:"v/buddy,identity"`
	Other *string    `attr:"v/other"`
	Mark  *int       `attr:"c/mark"`
}

type cScan struct {
	ID    uint64     `attr:"sys/db/id"`
	Ident *string    `attr:"sys/db/ident"`
	Rank  *int       `attr:"sys/db/rank"`
	At    *time.Time `attr:"sys/tx/at"`
	Name  *string    `attr:"v/name"`
	Email *string    `attr:"v/email"`
	Code  *int       `attr:"v/code"`
	N     *int       `attr:"v/n"`
	F     *float64   `attr:"v/f"`
	B     *bool      `attr:"v/b"`
	T     *time.Time `attr:"v/t"`
	When  *time.Time `attr:"v/when"`
	S     *string    `attr:"v/s"`
	Boss  *vRef      `attr:"v/boss"`
	Buddy *vRef      `attr:"v/buddy"`
	Other *string    `attr:"v/other"`
	Mark  *int       `attr:"c/mark"`
	NewI  *int       `attr:"c/new"`
	NewS  *string    `attr:"c/more"`
}

type cMark struct {
	ID uint64 `attr:"sys/db/id"`
	N  int    `attr:"c/mark"`
}

type cNewInt struct {
	ID uint64 `attr:"sys/db/id"`
	N  int    `attr:"c/new"`
}

type cNewMore struct {
	N int    `attr:"c/new"`
	S string `attr:"c/more"`
}

// cNewString declares an attribute with another type than the others.
type cNewString struct {
	ID uint64 `attr:"sys/db/id"`
	N  string `attr:"c/new"`
}

// concRun is an operation that was run.
type concRun struct {
	worker, n int
	write     bool
	// inv and resp are when it began and ended.
	inv, resp int64
	accepted  bool
	// k is how many accepted writes come before it.
	k        int
	panicked string
	text     string

	req   Request
	res   Response
	view  *viewReq
	vres  pkg.Response
	newID uint64
	newN  int
	obs   []*concObs
}

// concObs is what was seen of a snapshot.
type concObs struct {
	// timed observations are of the database's state at some time from inv to resp.
	timed     bool
	inv, resp int64
	k         int
	text      string

	snap    Snapshot
	dump    []Datum
	idents  []ID
	queries []answers

	vsnap *pkg.Snapshot
	// scan is shared by those that read the snapshot again.
	scan  pkg.TypedSnapshot[cScan]
	ids   []ID
	hits  []*cScan
	finds []concFind
}

type concFind struct {
	name string
	id   ID
	v    reflect.Value
}

// answers are what a snapshot answered.
type answers struct {
	Snapshot
	claim Claim
	list  []Datum
	count int
	has   bool
}

func (r answers) Select(Claim) iter.Seq[Datum] {
	return func(yield func(Datum) bool) {
		for _, datum := range r.list {
			if !yield(datum) {
				return
			}
		}
	}
}
func (r answers) Count(Claim) int { return r.count }
func (r answers) Has(Claim) bool  { return r.has }

func record(snap Snapshot, claim Claim) answers {
	r := answers{claim: claim}
	for datum := range snap.Select(claim) {
		r.list = append(r.list, datum)
		if len(r.list) > 10000 {
			break
		}
	}
	r.count = snap.Count(claim)
	r.has = snap.Has(claim)
	return r
}

// conc runs operations at the same time.
type conc struct {
	*run
	clock  atomic.Int64
	ops    []*concRun
	order  [][2]int
	stable atomic.Int64
}

func (c *conc) now() int64 { return c.clock.Add(1) }

// spin delays an operation.
func spin(n int) {
	switch n % 4 {
	case 1:
		runtime.Gosched()
	case 2:
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
	case 3:
		time.Sleep(time.Duration(n) * time.Microsecond)
	}
}

// do runs the programs, at the same time or, if there is an order, one after another.
func (c *conc) do(programs [][]concOp, op func(r *concRun, spec concOp)) {
	runs := make([][]*concRun, len(programs))
	for w := range programs {
		for n := range programs[w] {
			r := &concRun{worker: w, n: n}
			runs[w] = append(runs[w], r)
			c.ops = append(c.ops, r)
		}
	}
	one := func(w, n int) (ok bool) {
		r := runs[w][n]
		defer func() {
			if x := recover(); x != nil {
				if _, is := x.(harnessError); is {
					panic(x)
				}
				r.panicked = fmt.Sprintf("%v %s", x, trimStack(debug.Stack()))
				ok = false
			}
		}()
		op(r, programs[w][n])
		return true
	}
	if c.order != nil {
		for _, wn := range c.order {
			if !one(wn[0], wn[1]) {
				return
			}
		}
		return
	}
	most := 0
	for _, ops := range programs {
		most = max(most, len(ops))
	}
	arrived := make([]atomic.Int64, most)
	expect := make([]int64, most)
	for _, ops := range programs {
		for n := range ops {
			expect[n]++
		}
	}
	var wait sync.WaitGroup
	for w := range programs {
		wait.Add(1)
		go func() {
			defer wait.Done()
			for n := range programs[w] {
				arrived[n].Add(1)
				if n == 0 || programs[w][n].Sync {
					for i := 0; i < 3000 && arrived[n].Load() < expect[n]; i++ {
						if i > 500 {
							runtime.Gosched()
						}
					}
				}
				spin(programs[w][n].Pause)
				if !one(w, n) {
					return
				}
			}
		}()
	}
	wait.Wait()
}

// crashed reports the operations that panicked.
func (c *conc) crashed() (bad bool) {
	for _, r := range c.ops {
		if r.panicked != "" {
			c.fail("panic", []string{"*"}, "worker %d, operation %d (%s) panicked: %s", r.worker, r.n, r.text, r.panicked)
			bad = true
		}
	}
	return
}

// timing checks that an order of the accepted writes and what the others saw is consistent with when they ran.
func (c *conc) timing(accepted []*concRun) {
	bad := func(format string, args ...any) { c.fail("linearizability", []string{"C15"}, format, args...) }
	for i, a := range accepted {
		for _, b := range accepted[:i] {
			if a.resp < b.inv {
				bad("the write %s ended before the write %s began, but comes after it", a.text, b.text)
			}
		}
	}
	var list []*concObs
	for _, r := range c.ops {
		if r.write && !r.accepted {
			list = append(list, &concObs{timed: true, inv: r.inv, resp: r.resp, k: r.k, text: "the rejected " + r.text})
		}
		for _, o := range r.obs {
			if o.timed {
				list = append(list, o)
			}
		}
	}
	for _, o := range list {
		for i, w := range accepted {
			if w.resp < o.inv && i >= o.k {
				bad("%s misses the write %s, which ended before it began", o.text, w.text)
			}
			if w.inv > o.resp && i < o.k {
				bad("%s includes the write %s, which began after it ended", o.text, w.text)
			}
		}
		for _, p := range list {
			if p.resp < o.inv && p.k > o.k {
				bad("%s misses writes that %s includes, which ended before it began", o.text, p.text)
			}
		}
	}
}

// serial is an order of the operations in which they have the same outcomes.
func (c *conc) serial() (order [][2]int) {
	type key struct{ at, inv int64 }
	keys := map[*concRun]key{}
	for _, r := range c.ops {
		k := key{int64(2 * r.k), r.inv}
		if r.write && r.accepted {
			k.at++
		}
		if !r.write && len(r.obs) > 0 {
			k.at = int64(2 * r.obs[0].k)
		}
		keys[r] = k
	}
	ops := append([]*concRun{}, c.ops...)
	sort.SliceStable(ops, func(i, j int) bool {
		a, b := keys[ops[i]], keys[ops[j]]
		return a.at < b.at || a.at == b.at && a.inv < b.inv
	})
	for _, r := range ops {
		order = append(order, [2]int{r.worker, r.n})
	}
	return
}

func tameRef(s *refSpec) {
	if s.K == "future" || s.K == "gap" {
		s.K = "noident"
	}
}

// tame replaces references to ids that operations may issue.
func tame(s stepSpec) stepSpec {
	c := stepSpec{}
	for _, claim := range s.Claims {
		tameRef(&claim.E)
		tameRef(&claim.A)
		tameRef(&claim.V.R)
		c.Claims = append(c.Claims, claim)
	}
	for _, r := range s.Retractions {
		r.Refs = append([]refSpec{}, r.Refs...)
		for i := range r.Refs {
			tameRef(&r.Refs[i])
		}
		c.Retractions = append(c.Retractions, r)
	}
	return c
}

var concIdents = []string{"en/0", "en/1", "en/2", "at/0", "at/7", "mark/n", "sys/db/ident", "no/0"}

// runConcDB runs a case of a database; an order, if given, is run by one goroutine.
func runConcDB(r *run, cc *concCase, order [][2]int) (c *conc) {
	c = &conc{run: r, order: order}
	d := runDB(r, cc.DB, dbOptions{noFinal: true})
	if d == nil || len(r.mismatches) > 0 {
		return
	}
	mark := TempID("mark")
	if !d.write(Request{Claims: []Claim{{E: mark, A: aIdent, V: String("mark/n")}, {E: mark, A: aType, V: sys.AttrTypeInt}}}) {
		return
	}
	markID := d.m.ident("mark/n")
	// The markers to retract.
	bare := map[[2]int]ID{}
	isBare := map[IDRef]bool{}
	for w, ops := range cc.Workers {
		for n, op := range ops {
			if op.W == nil || !op.Bare {
				continue
			}
			ents := append([]ID{}, d.m.ents...)
			value := Int(-concMark - 100*w - n)
			if !d.write(Request{Claims: []Claim{{E: mark, A: Ident("mark/n"), V: value}}}) {
				return
			}
			d.m.ents = ents
			for datum := range d.db.Read().Select(Claim{A: Ident("mark/n"), V: value}) {
				bare[[2]int{w, n}] = datum.E
				isBare[datum.E] = true
			}
		}
	}
	d.opts.offline = true
	// The requests and queries.
	type plan struct {
		req     Request
		queries []Claim
	}
	plans := make([][]plan, len(cc.Workers))
	for w, ops := range cc.Workers {
		for n, op := range ops {
			var p plan
			if op.W != nil {
				p.req = d.request(tame(*op.W))
				p.req.Claims = slices.DeleteFunc(p.req.Claims, func(c Claim) bool {
					e, _ := c.E.(ID)
					return isBare[e] || d.attrID(c.A) == markID
				})
				p.req.Retractions = slices.DeleteFunc(p.req.Retractions, func(r Retraction) bool {
					for ref := range r.Constraints {
						if isBare[ref] {
							return true
						}
					}
					return false
				})
				if id := bare[[2]int{w, n}]; id != 0 {
					p.req.Claims = nil
					p.req.Retractions = append(p.req.Retractions, Retraction{Constraints: map[IDRef]Void{id: {}}})
				} else {
					p.req.Claims = append(p.req.Claims, Claim{E: TxnID{}, A: Ident("mark/n"), V: Int(concMark + 100*w + n)})
				}
			}
			for _, q := range op.Queries {
				claim, _ := d.renderQuery(q)
				p.queries = append(p.queries, claim)
			}
			plans[w] = append(plans[w], p)
		}
	}
	look := func(o *concObs, p plan) *concObs {
		for _, claim := range p.queries {
			o.queries = append(o.queries, record(o.snap, claim))
		}
		for datum := range o.snap.Select(Claim{}) {
			o.dump = append(o.dump, datum)
			if len(o.dump) > 20000 {
				break
			}
		}
		for _, ident := range concIdents {
			o.idents = append(o.idents, o.snap.ResolveIdent(Ident(ident)))
		}
		for _, claim := range p.queries {
			o.queries = append(o.queries, record(o.snap, claim))
		}
		return o
	}
	var slots [concSlots]atomic.Pointer[concObs]
	c.do(cc.Workers, func(r *concRun, op concOp) {
		p := plans[r.worker][r.n]
		if op.W != nil {
			r.write = true
			r.text = fmt.Sprintf("by worker %d: %s", r.worker, describe(p.req))
			r.inv = c.now()
			r.res = d.db.Write(cloneRequest(p.req))
			r.resp = c.now()
			r.req = p.req
			r.accepted = r.res.Error == nil
			if r.res.Snapshot != nil {
				o := look(&concObs{snap: r.res.Snapshot, text: "the snapshot of the write " + r.text}, p)
				r.obs = append(r.obs, o)
				slots[op.Slot%concSlots].Store(o)
			}
			return
		}
		r.text = fmt.Sprintf("a read by worker %d", r.worker)
		if op.R > 0 {
			if o := slots[(op.R-1)%concSlots].Load(); o != nil {
				r.obs = append(r.obs, look(&concObs{snap: o.snap, text: "reading again " + o.text}, p))
				return
			}
		}
		o := &concObs{timed: true, text: fmt.Sprintf("the read %d of worker %d", r.n, r.worker)}
		o.inv = c.now()
		o.snap = d.db.Read()
		o.resp = c.now()
		slots[op.Slot%concSlots].Store(o)
		r.obs = append(r.obs, look(o, p))
	})
	if c.crashed() {
		return
	}
	// The accepted writes, in the order of their transactions.
	marks := func(o *concObs) (k int) {
		seen := map[Int]bool{}
		k = len(bare)
		for _, datum := range o.dump {
			n, ok := datum.V.(Int)
			switch {
			case !ok || datum.A != markID:
			case isBare[datum.E]:
				k--
			case n >= concMark && datum.E == datum.T && !seen[n]:
				seen[n] = true
				k++
			}
		}
		return
	}
	var accepted []*concRun
	for _, r := range c.ops {
		if r.write && len(r.obs) == 0 {
			c.fail("no-snapshot", []string{"C15", "C02", "C03"}, "%s: no snapshot (error %v)", r.text, r.res.Error)
			return
		}
		for _, o := range r.obs {
			o.k = marks(o)
		}
		if r.write {
			r.k = r.obs[0].k
		}
		if r.accepted {
			accepted = append(accepted, r)
		}
	}
	sort.SliceStable(accepted, func(i, j int) bool { return accepted[i].res.ID < accepted[j].res.ID })
	for i, r := range accepted {
		r.k = i
	}
	c.timing(accepted)
	// What each did must be what it does in that order.
	states := []*model{d.m}
	for i := 0; i <= len(accepted); i++ {
		for _, r := range c.ops {
			if r.write && !r.accepted && r.k == i {
				d.opts.offline = true
				if !d.outcome(d.m.judge(r.req), r.req, r.res, func() string { return "the write " + r.text }) {
					return
				}
			}
		}
		if i < len(accepted) {
			r := accepted[i]
			// An outcome may change the state it starts from.
			d.m = d.m.clone()
			if !d.outcome(d.m.judge(r.req), r.req, r.res, func() string { return "the write " + r.text }) {
				return
			}
			states = append(states, d.m)
		}
	}
	for _, r := range c.ops {
		for _, o := range r.obs {
			if o.k >= len(states) {
				c.fail("linearizability", []string{"C15"}, "%s includes %d writes, of %d", o.text, o.k, len(accepted))
				return
			}
			m := states[o.k]
			if r.accepted && o.k != r.k+1 {
				c.fail("linearizability", []string{"C15"}, "the snapshot of the write %s includes %d writes, but it is number %d", r.text, o.k, r.k+1)
				return
			}
			what := fmt.Sprintf("%s, after %d of the writes", o.text, o.k)
			d.m = m
			d.compareDump(answers{list: o.dump}, what, nil)
			facts := m.sorted()
			for _, q := range o.queries {
				d.compareQuery(q, m, facts, q.claim, m.resolveQuery(q.claim), what)
			}
			for i, ident := range concIdents {
				if want := m.ident(Ident(ident)); o.idents[i] != want {
					c.fail("ident", []string{"C15", "C11"}, "%s: the ident %q is %d, not %d", what, ident, o.idents[i], want)
				}
			}
			d.compareDump(o.snap, "at the end, "+what, nil)
			if len(c.mismatches) > 0 {
				return
			}
		}
	}
	d.m = states[len(accepted)]
	d.guard("reading at the end", func() { d.compareDump(d.db.Read(), "after all writes", nil) })
	c.summary(accepted)
	return
}

// summary notes how much the operations overlapped.
func (c *conc) summary(accepted []*concRun) {
	overlaps, reads := 0, 0
	for i, a := range c.ops {
		if !a.write {
			reads++
		}
		for _, b := range c.ops[:i] {
			if a.write && b.write && a.worker != b.worker && a.inv < b.resp && b.inv < a.resp {
				overlaps++
			}
		}
	}
	if overlaps > 0 {
		c.class("writes overlap")
	}
	rejected := len(c.ops) - reads - len(accepted)
	if rejected > 0 {
		c.class("some rejected")
	}
	c.class(fmt.Sprintf("concurrent accepted:%d", min(10, len(accepted))))
	c.nontrivial = len(accepted) >= 2 && len(c.ops) >= 4 && overlaps > 0
}

func tameView(s viewStep) viewStep {
	s.Bad, s.Many = nil, 0
	s.Objs = append([]viewObj{}, s.Objs...)
	for i := range s.Objs {
		for _, id := range []*refSpec{&s.Objs[i].ID, &s.Objs[i].ID2} {
			if id.K == "gap" {
				id.K = "future"
			}
		}
	}
	return s
}

// concNews are structs of types that are not used before.
func concNew(kind, n int) any {
	switch kind {
	case 1:
		return &cNewInt{N: n}
	case 2:
		return cNewMore{N: n, S: fmt.Sprint("more", n)}
	}
	return cNewString{N: fmt.Sprint("new", n)}
}

func scanOf(snap *pkg.Snapshot) pkg.TypedSnapshot[cScan] {
	ts, err := pkg.BuildTypedSnapshot[cScan](snap)
	if err != nil {
		panic(fmt.Sprint("building a view: ", err))
	}
	return ts
}

// runConcViews runs a case of a database of structs.
func runConcViews(r *run, cc *concCase, order [][2]int) (c *conc) {
	c = &conc{run: r, order: order}
	s := declareViews(r, cDecl{})
	if s == nil {
		return
	}
	for i, step := range cc.View.Steps {
		s.stepNo = i
		step.Bad = nil
		if !s.step(i+1, step) {
			return
		}
	}
	if len(r.mismatches) > 0 {
		return
	}
	s.offline = true
	// The entities of the markers, some of which are to be retracted.
	bare := map[uint64]bool{}
	var marks []any
	base := make([]int, len(cc.Workers))
	for w, ops := range cc.Workers {
		base[w] = len(marks)
		for range ops {
			marks = append(marks, cMark{N: len(marks)})
		}
	}
	res := s.db.Write(pkg.Request{Assertions: marks})
	if res.Error != nil || len(res.IDs) != len(marks) {
		return
	}
	isMark := map[uint64]bool{}
	for _, id := range res.IDs {
		isMark[id] = true
		s.extra[ID(id)] = true
		s.m.issued[ID(id)] = true
		s.m.top = max(s.m.top, ID(id))
	}
	type plan struct {
		req   *viewReq
		finds []concFind
	}
	plans := make([][]plan, len(cc.Workers))
	newKinds := map[bool]int{}
	for w, ops := range cc.Workers {
		for n, op := range ops {
			var p plan
			if op.S != nil {
				p.req = s.prepare(n, tameView(*op.S))
				p.req.what = fmt.Sprintf("by worker %d: %s", w, p.req.what)
				if op.New > 0 {
					kind := 1 + (op.New-1)%3
					newKinds[kind == 3]++
					p.req.req.Assertions = append(p.req.req.Assertions, concNew(kind, 100*w+n))
					p.req.what += fmt.Sprintf("; assert the new %d", kind)
				}
				marker := cMark{res.IDs[base[w]+n], concMark + 100*w + n}
				if op.Bare && op.New == 0 && len(p.req.req.Assertions) == 0 {
					bare[marker.ID] = true
					p.req.req.Retractions = append(p.req.req.Retractions, marker)
				} else {
					p.req.req.Assertions = append(p.req.req.Assertions, marker)
				}
			}
			for _, f := range op.Finds {
				id, _ := at(s.m.ents, f.Ent)
				p.finds = append(p.finds, concFind{name: mod(viewNames, f.Type), id: id})
			}
			plans[w] = append(plans[w], p)
		}
	}
	// Entities are looked for among those known before, and those that were issued since.
	known := append([]ID{}, s.m.ents...)
	for _, id := range res.IDs {
		known = append(known, ID(id))
	}
	var issued [64]atomic.Uint64
	var issues atomic.Int64
	look := func(o *concObs, p plan) *concObs {
		for _, f := range p.finds {
			v, err := types[f.name].find(o.vsnap, uint64(f.id))
			if err != nil {
				panic(fmt.Sprint("building a view: ", err))
			}
			o.finds = append(o.finds, concFind{f.name, f.id, v})
		}
		ts := o.scan
		o.ids = append([]ID{}, known...)
		for i := range issued {
			if id := ID(issued[i].Load()); id != 0 {
				o.ids = append(o.ids, id)
			}
		}
		for _, id := range o.ids {
			if x := ts.Find(uint64(id)); x != nil {
				if x.ID != uint64(id) {
					panic(fmt.Sprintf("finding %d finds %d", id, x.ID))
				}
				o.hits = append(o.hits, x)
			}
		}
		for _, f := range p.finds {
			v, _ := types[f.name].find(o.vsnap, uint64(f.id))
			o.finds = append(o.finds, concFind{f.name, f.id, v})
		}
		return o
	}
	var slots [concSlots]atomic.Pointer[concObs]
	c.do(cc.Workers, func(r *concRun, op concOp) {
		p := plans[r.worker][r.n]
		if op.S != nil {
			r.write = true
			r.view = p.req
			r.text = p.req.what
			r.inv = c.now()
			r.vres = s.db.Write(p.req.req)
			r.resp = c.now()
			r.accepted = r.vres.Error == nil
			for _, id := range r.vres.IDs {
				if id < 1<<39 {
					issued[issues.Add(1)%int64(len(issued))].Store(id)
				}
			}
			if r.vres.Snap != nil {
				o := look(&concObs{vsnap: r.vres.Snap, scan: scanOf(r.vres.Snap), text: "the snapshot of the write " + r.text}, p)
				r.obs = append(r.obs, o)
				slots[op.Slot%concSlots].Store(o)
			}
			return
		}
		r.text = fmt.Sprintf("a read by worker %d", r.worker)
		if op.R > 0 {
			if o := slots[(op.R-1)%concSlots].Load(); o != nil {
				r.obs = append(r.obs, look(&concObs{vsnap: o.vsnap, scan: o.scan, text: "reading again " + o.text}, p))
				return
			}
		}
		o := &concObs{timed: true, text: fmt.Sprintf("the read %d of worker %d", r.n, r.worker)}
		o.inv = c.now()
		o.vsnap = s.db.Read()
		o.scan = scanOf(o.vsnap)
		o.resp = c.now()
		slots[op.Slot%concSlots].Store(o)
		r.obs = append(r.obs, look(o, p))
	})
	if c.crashed() {
		return
	}
	count := func(o *concObs) (k int) {
		seen := map[uint64]bool{}
		k = len(bare)
		for _, x := range o.hits {
			if seen[x.ID] {
				continue
			}
			seen[x.ID] = true
			switch {
			case x.Mark == nil:
			case *x.Mark >= concMark:
				k++
			case bare[x.ID]:
				k--
			}
		}
		return
	}
	var accepted []*concRun
	for _, r := range c.ops {
		if r.write && len(r.obs) == 0 {
			c.fail("no-snapshot", []string{"C15", "C02"}, "%s: no snapshot (error %v)", r.text, r.vres.Error)
			return
		}
		for _, o := range r.obs {
			o.k = count(o)
		}
		if !r.write {
			continue
		}
		r.k = r.obs[0].k
		if !r.accepted {
			continue
		}
		r.k--
		accepted = append(accepted, r)
		if want := len(r.view.req.Assertions); len(r.vres.IDs) != want {
			c.fail("ids", []string{"C15", "C16", "C18"}, "%s: the response has the ids %v, for %d assertions", r.text, r.vres.IDs, want)
			return
		}
		for _, id := range r.vres.IDs[len(r.view.roots):] {
			s.extra[ID(id)] = true
		}
	}
	sort.SliceStable(accepted, func(i, j int) bool { return accepted[i].k < accepted[j].k })
	for i, r := range accepted {
		if r.k != i {
			c.fail("linearizability", []string{"C15"}, "the snapshot of the write %s includes %d writes before it, but it is number %d", r.text, r.k, i)
			return
		}
	}
	c.timing(accepted)
	var winner *concRun
	states := []*model{s.m}
	for i := 0; i <= len(accepted); i++ {
		for n, r := range c.ops {
			if r.write && !r.accepted && r.k == i {
				if cc.Workers[r.worker][r.n].New > 0 && len(newKinds) > 1 {
					// Another type may have been declared first.
					continue
				}
				s.stepNo = n
				if !s.outcome(r.view, r.vres) {
					return
				}
			}
		}
		if i < len(accepted) {
			r := accepted[i]
			s.m = s.m.clone()
			res := r.vres
			res.IDs = res.IDs[:len(r.view.roots)]
			for _, id := range r.vres.IDs[len(r.view.roots):] {
				if isMark[id] {
					continue
				}
				if s.m.issued[ID(id)] || id < uint64(firstID) {
					c.fail("ids", []string{"C15", "C18"}, "%s: the id %d is not new", r.text, id)
					return
				}
				s.m.issued[ID(id)] = true
				s.m.top = max(s.m.top, ID(id))
			}
			if !s.outcome(r.view, res) {
				return
			}
			states = append(states, s.m)
			if op := cc.Workers[r.worker][r.n]; op.New > 0 {
				kind := 1 + (op.New-1)%3
				n := 100*r.worker + r.n
				if winner == nil {
					winner = r
				} else if was := 1 + (cc.Workers[winner.worker][winner.n].New-1)%3; (was == 3) != (kind == 3) {
					c.fail("schema", []string{"C15", "C09", "C17"}, "%s and %s were both accepted, but declare an attribute of different types", r.text, winner.text)
					return
				}
				if !c.foundNew(r.vres.Snap, r.vres.IDs[len(r.vres.IDs)-2], kind, n) || !c.foundNew(s.db.Read(), r.vres.IDs[len(r.vres.IDs)-2], kind, n) {
					c.fail("state", []string{"C15", "C16"}, "%s: its new struct is not found", r.text)
					return
				}
			}
		}
	}
	compare := func(o *concObs) {
		m := states[o.k]
		what := fmt.Sprintf("%s, after %d of the writes", o.text, o.k)
		got, want := map[fact]bool{}, s.expected(m)
		for _, x := range o.hits {
			s.factsOf(ID(x.ID), reflect.ValueOf(x).Elem(), got)
			if !m.has(ID(x.ID)) && !s.extra[ID(x.ID)] && x.Ident == nil && x.At == nil && x.Rank == nil {
				c.fail("state", []string{"C15"}, "%s: the entity %d is found, but has no datums", what, x.ID)
			}
		}
		for f := range got {
			if !want[f] {
				c.fail("state", []string{"C15"}, "%s: %v of %s is held, but must not be", what, f, m.attrs[f.A].Ident)
			}
		}
		looked := map[ID]bool{}
		for _, id := range o.ids {
			looked[id] = true
		}
		for f := range want {
			if _, isAttr := m.attrs[f.E]; looked[f.E] && !got[f] && !isAttr {
				c.fail("state", []string{"C15"}, "%s: %v of %s is not held, but must be", what, f, m.attrs[f.A].Ident)
			}
		}
		for _, f := range o.finds {
			if !m.has(f.id) {
				if !f.v.IsNil() && !s.extra[f.id] {
					c.fail("view", []string{"C15"}, "%s: %d is found as %s, but has no datums", what, f.id, f.name)
				}
				continue
			}
			if f.v.IsNil() {
				c.fail("view", []string{"C15"}, "%s: %d is not found as %s", what, f.id, f.name)
				continue
			}
			if diff := s.compareView(m, f.v.Elem(), f.id, 4, f.name); diff != "" {
				c.fail("view", []string{"C15"}, "%s: finding %d: %s", what, f.id, diff)
			}
		}
	}
	known = append(known, s.m.ents...)
	for _, r := range c.ops {
		for _, o := range r.obs {
			if o.k >= len(states) {
				c.fail("linearizability", []string{"C15"}, "%s includes %d writes, of %d", o.text, o.k, len(accepted))
				return
			}
			compare(o)
			if len(c.mismatches) > 0 {
				return
			}
			again := look(&concObs{vsnap: o.vsnap, scan: o.scan, k: o.k, text: "at the end, " + o.text}, plans[r.worker][r.n])
			compare(again)
			if len(c.mismatches) > 0 {
				return
			}
		}
	}
	last := s.db.Read()
	final := look(&concObs{vsnap: last, scan: scanOf(last), k: len(accepted), text: "the database at the end"}, plan{})
	compare(final)
	c.summary(accepted)
	c.class("structs")
	return
}

func (c *conc) foundNew(snap *pkg.Snapshot, id uint64, kind, n int) bool {
	switch kind {
	case 1:
		ts, err := pkg.BuildTypedSnapshot[cNewInt](snap)
		if err != nil {
			return false
		}
		x := ts.Find(id)
		return x != nil && x.ID == id && x.N == n
	case 2:
		ts, err := pkg.BuildTypedSnapshot[cNewMore](snap)
		if err != nil {
			return false
		}
		x := ts.Find(id)
		return x != nil && x.N == n && x.S == fmt.Sprint("more", n)
	}
	ts, err := pkg.BuildTypedSnapshot[cNewString](snap)
	if err != nil {
		return false
	}
	x := ts.Find(id)
	return x != nil && x.ID == id && x.N == fmt.Sprint("new", n)
}

func runConc(r *run, cc *concCase, order [][2]int) *conc {
	if cc.View != nil {
		return runConcViews(r, cc, order)
	}
	if cc.DB == nil {
		cc.DB = &dbCase{}
	}
	return runConcDB(r, cc, order)
}

// checkConc runs a case, and if it does not go as it must, sees whether concurrency is to blame.
func checkConc(r *run, cc *concCase) {
	sub := &run{prop: r.prop, classes: r.classes}
	c := runConc(sub, cc, nil)
	r.nontrivial = sub.nontrivial
	if len(sub.mismatches) > 0 {
		if len(c.ops) > 0 {
			alone := &run{prop: r.prop, classes: map[string]bool{}}
			runConc(alone, cc, c.serial())
			if len(alone.mismatches) == 0 {
				for i := range sub.mismatches {
					sub.mismatches[i].Props = append(sub.mismatches[i].Props, "C15")
				}
			} else {
				// It goes no better one operation after another.
				for i := range sub.mismatches {
					if sub.mismatches[i].Kind != "panic" {
						sub.mismatches[i].Props = without(sub.mismatches[i].Props, "C15")
					}
				}
			}
		}
	}
	r.mismatches = append(r.mismatches, sub.mismatches...)
}

func without(list []string, x string) (kept []string) {
	for _, y := range list {
		if x != y {
			kept = append(kept, y)
		}
	}
	return
}

func concGen() func(t *rapid.T) any {
	p := baseProfile
	p.bad, p.maxSteps, p.maxClaims, p.queries = 6, 3, 4, 0
	p.pool, p.unique = 5, 60
	setup := p.gen()
	worker := p
	worker.claims = [6]int{45, 12, 18, 10, 8, 1}
	writes := worker.claimGen()
	queries := worker.queryGen()
	pv := baseViews
	pv.steps, pv.views, pv.given = 3, 0, 50
	vsetup := viewGen(pv)
	pv.steps = 1
	vstep := viewGen(pv)
	return func(t *rapid.T) any {
		c := &concCase{}
		structs := chance(t, 40)
		if structs {
			c.View = vsetup(t).(*viewCase)
			for i := range c.View.Steps {
				c.View.Steps[i].Views = nil
			}
		} else {
			c.DB = setup(t).(*dbCase)
			for i := range c.DB.Steps {
				c.DB.Steps[i].Queries = nil
			}
		}
		op := rapid.Custom(func(t *rapid.T) (op concOp) {
			op.Slot = pick(t, concSlots)
			op.Pause = []int{0, 0, 0, 0, 1, 2, 3, 6, 11, 30, 51}[pick(t, 11)]
			op.Sync = chance(t, 60)
			write := chance(t, 65)
			if !write {
				op.R = []int{0, 0, 1, 2, 3, 4}[pick(t, 6)]
			}
			if structs {
				if write {
					steps := vstep(t).(*viewCase).Steps
					if len(steps) == 0 {
						steps = []viewStep{{}}
					}
					steps[0].Views = nil
					op.S = &steps[0]
					if chance(t, 15) {
						op.Bare = true
						op.S.Assert = nil
					}
					if chance(t, 20) {
						op.New = 1 + choose(t, 4, 4, 1)
					}
				}
				for i := pick(t, 3); i > 0; i-- {
					op.Finds = append(op.Finds, viewRead{Type: pick(t, len(viewNames)), Ent: pick(t, 8)})
				}
				return
			}
			if write {
				op.W = &stepSpec{}
				if chance(t, 15) {
					op.W.Retractions = []retractDef{{Refs: []refSpec{{N: pick(t, 8), F: drawForm(t, &worker)}}}}
				}
				op.Bare = chance(t, 12)
				if !op.Bare && chance(t, 90) {
					op.W.Claims = rapid.SliceOfN(writes, 1, 4).Draw(t, "claims")
				}
			}
			if chance(t, 50) {
				op.Queries = rapid.SliceOfN(queries, 1, 3).Draw(t, "queries")
			}
			return
		})
		for i := 2 + pick(t, 4); i > 0; i-- {
			c.Workers = append(c.Workers, rapid.SliceOfN(op, 1, 5).Draw(t, "ops"))
		}
		return c
	}
}

func init() {
	info := func(name string) typeInfo { return typeInfo{Name: name, Role: "conc", Family: -3} }
	regType[cDecl](info("cDecl"))
	regType[cScan](info("cScan"))
	register("C15", check{
		rule: "A case is a history written by one goroutine, then programs of two to five goroutines that run at the same time under the race detector, of requests (or of requests of structs), reads of the database and queries of new, old and each other's snapshots. " +
			"Every write adds a marker; the writes accepted, in the order of their transactions, must have the outcomes they have in the reference model in that order, everything seen must be the state after a prefix of them, and the order must respect what ended before what began. " +
			"Non-trivial: at least two accepted writes, some of which overlapped in time.",
		gen:   concGen(),
		blank: func() any { return &concCase{} },
		run: func(c any, r *run) {
			checkConc(r, c.(*concCase))
		},
	})
}
