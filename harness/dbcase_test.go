package verifharness

import (
	"fmt"
	"iter"
	"maps"
	"math"
	"os"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/dball/destructive/internal/database"
	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// dbCase is a history of a database, as plain data with symbolic references, all of which
// resolve to something whatever the numbers are.
type dbCase struct {
	Degree int `json:"degree"`
	// Temps is the style of the temp ids.
	Temps  int        `json:"temps,omitempty"`
	Schema []declSpec `json:"schema"`
	Steps  []stepSpec `json:"steps"`
}

type declSpec struct {
	Ident  int `json:"i,omitempty"`
	Type   int `json:"t,omitempty"`
	Card   int `json:"c,omitempty"`
	Unique int `json:"u,omitempty"`
	// Omit: 1 leaves the ident out, 2 the type.
	Omit int `json:"omit,omitempty"`
	// Order, if not 0, permutes the claims.
	Order int `json:"order,omitempty"`
	// Undo, if not 0, is the one of the claims which is retracted too.
	Undo int `json:"undo,omitempty"`
}

type stepSpec struct {
	Claims      []claimSpec  `json:"claims,omitempty"`
	Retractions []retractDef `json:"retractions,omitempty"`
	Queries     []querySpec  `json:"queries,omitempty"`
	// Repeat, if not 0, is how often the step is done, with other numbers each time.
	Repeat int `json:"repeat,omitempty"`
	// Order, if not 0, permutes the claims.
	Order int `json:"order,omitempty"`
}

// permute reorders the list, in a way that only depends on its length and the order.
func permute[T any](list []T, order int) {
	if order == 0 {
		return
	}
	for i := len(list) - 1; i > 0; i-- {
		j := int(scatter(order*1000+i) % uint64(i+1))
		list[i], list[j] = list[j], list[i]
	}
}

type retractDef struct {
	Refs []refSpec `json:"refs"`
}

type claimSpec struct {
	// K: "" plain, "held" a datum held, "swap" its attribute with another value,
	// "steal" its attribute and value for another entity (held, swap: an element with a K replaces that of the datum), "decl" an attribute declaration, "def" a datum
	// of a declaration, "chain" temp ids that are each an identity of the one before, "bulk" many values of an attribute, "decls" many declarations,
	// "crowd" values of many entities, "via" a datum held and a temp id for the entity or the value, "echo" an earlier claim of the request with another element, "offend" a datum, held or not, with a broken element.
	K string    `json:"k,omitempty"`
	E refSpec   `json:"e"`
	A refSpec   `json:"a"`
	V valSpec   `json:"v"`
	N int       `json:"n,omitempty"`
	D *declSpec `json:"d,omitempty"`
	R bool      `json:"r,omitempty"`
}

type refSpec struct {
	// K: "" entity, "tmp", "txn", "txnent", "at" user attribute, "sysat" system attribute, "sys" system
	// entity, "zero", "future", "nil", "noident", "nolookup", "ident", "newat" the newest user attribute,
	// "near" something that almost is an ident held, "beside" a lookup of almost a value held.
	K string `json:"k,omitempty"`
	N int    `json:"n,omitempty"`
	// F is the form: 0 id, 1 ident, 2 lookup, 3 lookup by a looked up attribute, 4 and 5 lookups nested deeper.
	F int `json:"f,omitempty"`
}

type valSpec struct {
	// K: "" of the attribute's type, "wrong" of another type, "nil", "ref" a reference for any attribute,
	// "beside" almost a value held.
	K string  `json:"k,omitempty"`
	N int     `json:"n,omitempty"`
	R refSpec `json:"r"`
}

type querySpec struct {
	E *refSpec `json:"e,omitempty"`
	A *refSpec `json:"a,omitempty"`
	V *valSpec `json:"v,omitempty"`
	// N, if not 0, makes this a query about a datum held, with the fields in the mask M.
	N int `json:"n,omitempty"`
	M int `json:"m,omitempty"`
}

// The pools of values. Small indexes collide often, greater ones are unusual.
// Some differ only in what a narrower representation would lose.
var intPool = []int{1, 2, 0, -1, 3, -2, 10, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, -5, 1 << 40, -(1 << 40),
	1 << 53, 1<<53 + 1, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, 1<<32 + 1, 128, 255, 256, math.MaxInt64 - 1, 257}
var floatPool = []float64{1.5, -1.5, 0, math.Copysign(0, -1), 2, -2.5, math.NaN(), math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat64, 1e-7, -1000,
	0.1, float64(float32(0.1)), 1.7, 1.2, 1 << 53, 1<<53 + 2, 1e15, 1e15 + 0.125, math.Nextafter(1.5, 2), 2 * math.MaxFloat32, 3 * math.MaxFloat32}
var stringPool = []string{"a", "b", "", "c", "ab", "a\x00", "A", "é", "\xff\xfe", "zz", strings.Repeat("long", 40), " ", "a/b", "0",
	strings.Repeat("long", 40) + "x", strings.Repeat("long", 40) + "y", "e\u0301", "a ", " a", "aa", "a\x00b", strings.Repeat("z", 300) + "1", strings.Repeat("z", 300) + "2", "a:b", strings.Repeat("q", 5000)}
var instPool = []time.Time{
	time.UnixMilli(1000).UTC(), time.UnixMilli(2000).UTC(), {}, time.UnixMilli(-1500).UTC(), time.UnixMilli(0).UTC(),
	time.UnixMilli(1000).Add(123 * time.Microsecond).UTC(), time.UnixMilli(1000).In(time.FixedZone("x", 3600)),
	time.UnixMilli(1001).UTC(), time.UnixMilli(-1).UTC(), time.UnixMilli(-1).Add(-999 * time.Microsecond),
	time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(1969, 12, 31, 23, 59, 59, 999500000, time.UTC),
	time.Date(-300, 1, 1, 0, 0, 0, 1, time.UTC),
	time.Date(9999, 12, 31, 23, 59, 59, 998000000, time.UTC), time.Date(2300, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1600, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Unix(1<<31, 0).UTC(), time.Unix(1<<31, 1e6).UTC(), time.Unix(1<<33, 0).UTC(), time.Unix(1, 500e6).UTC(),
	time.Date(2021, 3, 28, 2, 30, 0, 5e6, time.FixedZone("y", -7*3600)), time.Date(2021, 3, 28, 9, 30, 0, 5e6, time.UTC), time.Date(1969, 12, 31, 23, 59, 59, 999000000, time.UTC),
}

// scatter returns a number that is arbitrary, but the same for the same n.
func scatter(n int) uint64 {
	x := uint64(n) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	return x ^ x>>32
}

// arbitrary returns a value of the type of any magnitude.
func arbitrary(typ ID, n int) Value {
	x := scatter(n)
	size := int(x % 64)
	y := int64(scatter(n+1)) >> size
	switch typ {
	case sys.AttrTypeString:
		b := []byte{}
		for i := 0; i < int(x>>8%40); i++ {
			c := scatter(n + 2 + i)
			switch x >> 16 % 3 {
			case 0:
				b = append(b, byte(c))
			case 1:
				b = append(b, byte('a'+c%4))
			default:
				b = append(b, string(rune(c%0x3000))...)
			}
		}
		return String(b)
	case sys.AttrTypeInt:
		return Int(y)
	case sys.AttrTypeBool:
		return Bool(x%2 == 0)
	case sys.AttrTypeInst:
		return Inst(time.Unix(y%(1<<37), int64(x%1000000000)).UTC())
	case sys.AttrTypeFloat:
		if size < 32 {
			return Float(math.Float64frombits(scatter(n + 1)))
		}
		return Float(float64(y) / 16)
	}
	return ID(firstID + ID(n%100))
}

func mod[T any](pool []T, n int) T {
	if n < 0 {
		n = -n
	}
	return pool[n%len(pool)]
}

// poolValue returns the nth value of the (not ref) type.
func poolValue(typ ID, n int) Value {
	if n >= 100 && typ != sys.AttrTypeRef {
		return arbitrary(typ, n)
	}
	switch typ {
	case sys.AttrTypeString:
		return String(mod(stringPool, n))
	case sys.AttrTypeInt:
		return Int(mod(intPool, n))
	case sys.AttrTypeBool:
		return Bool(n%2 == 0)
	case sys.AttrTypeInst:
		return Inst(mod(instPool, n))
	case sys.AttrTypeFloat:
		return Float(mod(floatPool, n))
	}
	return ID(firstID + ID(n))
}

// bulkValue returns the nth of many values of the type, not in order.
func bulkValue(typ ID, n int) Value {
	k := n * 7919 % 1009
	switch typ {
	case sys.AttrTypeString:
		return String("bulk" + strconv.Itoa(k))
	case sys.AttrTypeInt:
		return Int(k - 500)
	case sys.AttrTypeBool:
		return Bool(k%2 == 0)
	case sys.AttrTypeInst:
		return Inst(time.UnixMilli(int64(k - 500)).UTC())
	case sys.AttrTypeFloat:
		return Float(float64(k-500) / 8)
	}
	return firstID + ID(k)
}

// beside returns a value that differs little from the value.
func beside(v Value, n int) Value {
	switch x := v.(type) {
	case String:
		s := string(x)
		list := []string{s + " ", " " + s, s + "\x00", s + "a", strings.ToUpper(s), s + s, strings.TrimSpace(s), strings.ToLower(s), s + "\n", s + "é", "\x00" + s, s + "\xff"}
		if len(s) > 0 {
			list = append(list, s[:len(s)-1], s[1:], s[:len(s)-1]+string([]byte{s[len(s)-1] + 1}))
		}
		return String(mod(list, n))
	case Int:
		return mod([]Int{x + 1, x - 1, -x, x + 256, x ^ 1<<32, x ^ math.MinInt64, x + 1<<16, x / 2}, n)
	case Float:
		f := float64(x)
		return Float(mod([]float64{math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), -f, math.Trunc(f), float64(float32(f)), f * 2, f + 1, math.Copysign(f, -1)}, n))
	case Inst:
		t := time.Time(x)
		ms := time.Millisecond
		return Inst(mod([]time.Time{t.Add(ms), t.Add(-ms), t.Add(time.Microsecond), t.Truncate(ms), t.Add(999 * ms), t.Add(time.Hour), t.In(time.FixedZone("z", 3600)), t.Add(17 * ms), t.Truncate(time.Second), t.Add(time.Nanosecond)}, n))
	case ID:
		return mod([]ID{x + 1, x - 1, x + 2}, n)
	}
	return v
}

// besideHeld returns a value that differs little from one held of the attribute.
func (d *dbRun) besideHeld(a ID, n int) (v Value, ok bool) {
	var list []fact
	for f := range d.m.facts {
		if f.A == a {
			list = append(list, f)
		}
	}
	sort.Slice(list, func(i, j int) bool { return compareEAV(list[i], list[j]) < 0 })
	f, ok := at(list, n/16)
	if ok {
		v = beside(f.V.value(), n%16)
	}
	return
}

// Idents by number: the first are for attributes, then those for entities, then odd ones.
func identName(n int) string {
	if n < 0 {
		n = -n
	}
	switch {
	case n < 20:
		return "at/" + strconv.Itoa(n)
	case n < 40:
		return "en/" + strconv.Itoa(n-20)
	}
	return mod([]string{"system/x", "sysx", "Sys/db", "a", "x/sys/", "sys", "", "sys/new", "sys/db/ident", "sys/attr/type/int", "sys/db/rank", "sys/db/id", "sys/", "é/ü", " sys/db"}, n-40)
}

// held is a snapshot taken in the past and what it must still answer.
type held struct {
	snap  Snapshot
	model *model
	what  string
	seq   iter.Seq[Datum]
	// attrs are the idents of attributes then, by id.
	attrs map[ID]Ident
}

// dbRun executes a case.
type dbRun struct {
	*run
	db    Database
	m     *model
	held  []held
	temps []string
	// twin, if any, is a database that is only given the requests this one accepted.
	twin Database
	opts dbOptions
	// tempStyle is the style of the temp ids.
	tempStyle int
	// deepLimit bounds the datums that deepCompare asks about, if not 0.
	deepLimit int
	// counters of this case
	accepted, rejected, open int
	step                     int
}

type dbOptions struct {
	hold    bool // keep every snapshot and check it again at the end
	twin    bool // compare with a database without the rejected requests
	deep    bool // check all query paths for all datums after each step
	seqs    bool // consume sequences in unusual ways
	mutate  bool // change the requests after they are written
	noFinal bool
	offline bool // the database may be ahead of the responses
}

var allDB = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13"}

func newDBRun(r *run, c *dbCase, opts dbOptions) *dbRun {
	degree := c.Degree
	if degree < 2 {
		degree = 2
	}
	d := &dbRun{run: r, m: newModel(), opts: opts, tempStyle: c.Temps}
	d.guard("NewIndexDatabase", func() { d.db = database.NewIndexDatabase(degree, 16, 16) })
	if opts.twin {
		d.twin = database.NewIndexDatabase(degree, 16, 16)
	}
	if d.db == nil {
		return nil
	}
	ok := true
	ok = d.guard("the initial snapshot", func() {
		snap := d.db.Read()
		d.hold(snap, "initial snapshot")
		if !d.compareDump(snap, "in the initial snapshot", nil) {
			ok = false
		}
		d.compareIdents(snap, "in the initial snapshot")
	}) && ok
	if !ok {
		return nil
	}
	return d
}

// runDB executes the whole case.
func runDB(r *run, c *dbCase, opts dbOptions) *dbRun {
	d := newDBRun(r, c, opts)
	if d == nil {
		return nil
	}
	var decls []claimSpec
	for i := range c.Schema {
		if i < 20 {
			decls = append(decls, claimSpec{K: "decl", D: &c.Schema[i], E: refSpec{K: "tmp", N: 1000 + i}})
		}
	}
	if len(decls) > 0 {
		if !d.doStep(stepSpec{Claims: decls}) {
			return d
		}
	}
	for i := range c.Steps {
		d.step = i + 1
		if !d.doStep(c.Steps[i]) {
			return d
		}
	}
	d.finish()
	return d
}

func (d *dbRun) hold(snap Snapshot, what string) {
	if d.opts.hold && len(d.held) < 40 {
		h := held{snap: snap, model: d.m.clone(), what: what, attrs: map[ID]Ident{}}
		for _, id := range d.attrProbes() {
			h.attrs[id] = snap.ResolveAttrIdent(id)
		}
		d.held = append(d.held, h)
	}
}

// attrProbes are ids that are or may become those of attributes.
func (d *dbRun) attrProbes() (ids []ID) {
	for id := ID(0); id < 24; id++ {
		ids = append(ids, id)
	}
	for id := firstID; id < d.m.top+40; id++ {
		ids = append(ids, id)
	}
	return
}

func (d *dbRun) finish() {
	if !d.opts.noFinal {
		d.guard("queries", func() {
			snap := d.db.Read()
			d.deepCompare(snap, d.m, "at the end", nil)
		})
	}
	for _, h := range d.held {
		d.guard("queries of "+h.what, func() { d.compareHeld(h) })
	}
}

// compareHeld checks that a snapshot from the past still answers as it must.
func (d *dbRun) compareHeld(h held) {
	sub := &dbRun{run: &run{prop: d.prop, classes: map[string]bool{}}, m: h.model, opts: dbOptions{}}
	sub.compareDump(h.snap, "in "+h.what, nil)
	sub.compareIdents(h.snap, "in "+h.what)
	sub.deepLimit = 12
	sub.deepCompare(h.snap, h.model, "in "+h.what, nil)
	for _, m := range sub.mismatches {
		d.fail("held-snapshot", []string{"C01"}, "%s changed: %s", h.what, m.Detail)
	}
	for id, ident := range h.attrs {
		if now := h.snap.ResolveAttrIdent(id); now != ident {
			d.fail("held-snapshot", []string{"C01"}, "%s changed: the attribute %v resolves to %q, not %q any more", h.what, id, now, ident)
		}
	}
	// Attributes declared since are unknown to it.
	facts := h.model.sorted()
	for id, attr := range d.m.attrs {
		if _, ok := h.model.attrs[id]; ok {
			continue
		}
		for i, claim := range []Claim{{A: id}, {A: id, V: poolValue(attr.Type, 0).(VRef)}} {
			q := concrete{mask: 2 + 4*i, a: id, none: true}
			n := len(sub.mismatches)
			sub.compareQuery(h.snap, h.model, facts, claim, q, "in "+h.what)
			for _, m := range sub.mismatches[n:] {
				d.fail("held-snapshot", []string{"C01"}, "%s changed: %s", h.what, m.Detail)
			}
		}
	}
}

// entity resolution of specs

// ents are the ids issued to entities that are not attributes.
func (d *dbRun) ents() (ids []ID) {
	for _, id := range d.m.ents {
		if _, isAttr := d.m.attrs[id]; !isAttr {
			ids = append(ids, id)
		}
	}
	return
}

func at[T any](list []T, n int) (x T, ok bool) {
	if len(list) == 0 {
		return
	}
	return mod(list, n), true
}

// form renders a known entity as a reference of the wanted form, if it has one.
func (d *dbRun) form(id ID, f int) any {
	switch f {
	case 1:
		if ident, ok := d.m.identOf(id); ok {
			return Ident(ident)
		}
	case 2, 3, 4, 5:
		if ref, ok := d.lookupOf(id, f-2, false); ok {
			return ref
		}
	}
	return id
}

// lookupOf returns a lookup of the entity by one of its unique values, whose attribute is in turn such a lookup, to the depth.
func (d *dbRun) lookupOf(id ID, depth int, last bool) (ref LookupRef, ok bool) {
	var best fact
	for f := range d.m.facts {
		if f.E == id && d.m.attrs[f.A].Unique != 0 && (!ok || (compareEAV(f, best) < 0) != last) {
			best, ok = f, true
		}
	}
	if !ok {
		return
	}
	ref = LookupRef{A: best.A, V: best.V.value()}
	if depth > 0 {
		// By any unique value of the attribute, preferably not its ident.
		if a, ok := d.lookupOf(best.A, depth-1, true); ok {
			ref.A = a
		}
	} else if int(best.A)%2 == 0 {
		ref.A = Ident(d.m.attrs[best.A].Ident)
	}
	return
}

// ref resolves a spec to an ID, Ident, LookupRef, TempID, TxnID or nil.
func (d *dbRun) ref(s refSpec) any {
	switch s.K {
	case "tmp":
		return d.temp(s.N)
	case "txn":
		return TxnID{}
	case "txnent":
		list := d.m.txns
		if s.N%4 != 0 {
			// Mostly those that say something of themselves.
			said := map[ID]bool{}
			for f := range d.m.facts {
				said[f.E] = true
			}
			var own []ID
			for _, id := range d.m.txns {
				if said[id] {
					own = append(own, id)
				}
			}
			if len(own) > 0 {
				list = own
			}
		}
		if id, ok := at(list, s.N/4); ok {
			return d.form(id, s.F)
		}
	case "at":
		if id, ok := at(d.m.attrIDs(true), s.N); ok {
			return d.form(id, s.F)
		}
		return d.form(aIdent, s.F)
	case "newat":
		if ids := d.m.attrIDs(true); len(ids) > 0 {
			return d.form(ids[max(0, len(ids)-1-s.N%len(ids))], s.F)
		}
		return d.form(aIdent, s.F)
	case "sysat":
		return d.form(mod([]ID{aIdent, aRank, aTxAt}, s.N), s.F)
	case "sys":
		return d.form(ID(s.N%20), s.F)
	case "zero":
		return ID(0)
	case "future":
		return d.m.top + ID(d.m.slack) + 1 + ID(s.N)
	case "gap":
		return firstID + ID(s.N)
	case "nil":
		return nil
	case "noident":
		return Ident("no/" + strconv.Itoa(s.N))
	case "ident":
		return Ident(identName(s.N))
	case "near":
		var held []string
		for f := range d.m.facts {
			if f.A == aIdent {
				held = append(held, f.V.S)
			}
		}
		sort.Strings(held)
		name := nearIdents(mod(held, s.N))
		return Ident(mod(name, s.F))
	case "beside":
		var list []ID
		for _, id := range d.m.attrIDs(false) {
			if d.m.attrs[id].Unique != 0 {
				list = append(list, id)
			}
		}
		a := mod(list, s.F)
		if v, ok := d.besideHeld(a, s.N); ok {
			return LookupRef{A: a, V: v}
		}
		return LookupRef{A: a, V: String("none")}
	case "nolookup":
		// A lookup of a value that may be unheld, ill typed, or of a not unique attribute.
		a := d.ref(refSpec{K: "at", N: s.N / 4, F: s.F})
		var v Value = poolValue(ID(11+s.N%6), s.N/3)
		if s.N%5 == 4 {
			v = nil
		}
		ref, _ := a.(IDRef)
		return LookupRef{A: ref, V: v}
	default:
		if id, ok := at(d.ents(), s.N); ok {
			return d.form(id, s.F)
		}
		return d.temp(s.N % 4)
	}
	return ID(0)
}

// temp returns the temp id of the number.
func (d *dbRun) temp(n int) TempID {
	name := "t" + strconv.Itoa(n)
	long := strings.Repeat("t", 300)
	switch d.tempStyle {
	case 1:
		name = mod([]string{"", " ", "t", "t ", "T", "\x00"}, n)
		if n > 5 {
			name = strconv.Itoa(n)
		}
	case 2:
		name = long + strconv.Itoa(n)
	case 3:
		name = strconv.Itoa(n) + long
	case 4:
		name = strings.Repeat("\xff", n)
	case 5:
		name = strconv.Itoa(int(firstID) + n)
	case 6:
		name = "sys/db/" + strconv.Itoa(n)
	}
	return TempID(name)
}

// oddID is one of the two ids after the base, or another.
func oddID(base ID, n int) ID {
	if n < 3 {
		return base + ID(n)
	}
	return mod([]ID{0, 0, 1, 4, 6, 7, 8, 9, 10, 11, 12, 16, 17, 18, 19, 20, firstID, firstID + 1, 1 << 40, 0}, n-3)
}

func (d *dbRun) attrID(a any) ID {
	switch x := a.(type) {
	case ID:
		return x
	case Ident:
		return d.m.ident(x)
	case LookupRef:
		return d.m.lookup(x)
	}
	return 0
}

// val resolves a value for an attribute.
func (d *dbRun) val(s valSpec, a ID) any {
	typ := d.m.attrs[a].Type
	switch s.K {
	case "nil":
		return nil
	case "ref":
		return d.ref(s.R)
	case "wrong":
		typ = ID(11 + (int(typ)+s.N%5+6-11)%6)
		if typ == d.m.attrs[a].Type {
			typ = ID(11 + (int(typ)+1-11)%6)
		}
	}
	if s.K == "beside" {
		if v, ok := d.besideHeld(a, s.N); ok {
			return v
		}
	}
	if a == aIdent && s.K == "" {
		return String(identName(s.N))
	}
	if typ == sys.AttrTypeRef || typ == 0 {
		return d.ref(s.R)
	}
	return poolValue(typ, s.N)
}

// userFacts are the facts held that are not attribute definitions.
func (d *dbRun) userFacts() (list []fact) {
	for f := range d.m.facts {
		if _, isAttr := d.m.attrs[f.E]; f.E >= firstID && (!isAttr || f.A > aCard) {
			list = append(list, f)
		}
	}
	sort.Slice(list, func(i, j int) bool { return compareEAV(list[i], list[j]) < 0 })
	return
}

func asE(x any) ERef {
	e, _ := x.(ERef)
	return e
}

func asA(x any) IDRef {
	a, _ := x.(IDRef)
	return a
}

func asV(x any) VRef {
	v, _ := x.(VRef)
	return v
}

func typeRef(n int) ID { return ID(11 + n%6) }

// claims renders the specs.
func (d *dbRun) claims(specs []claimSpec) (claims []Claim) {
	facts := d.userFacts()
	var defs []fact
	for _, f := range d.m.sorted() {
		if _, isAttr := d.m.attrs[f.E]; isAttr && f.E >= firstID && f.A <= aCard {
			defs = append(defs, f)
		}
	}
	for _, s := range specs {
		switch s.K {
		case "decl":
			if s.D == nil {
				continue
			}
			first := len(claims)
			e := asE(d.ref(s.E))
			a := func(id ID) IDRef { return asA(d.form(id, s.N%4)) }
			if s.D.Omit&1 == 0 {
				claims = append(claims, Claim{E: e, A: a(aIdent), V: String(identName(s.D.Ident))})
			}
			if s.D.Omit&2 == 0 {
				var typ VRef = typeRef(s.D.Type)
				switch {
				case s.D.Type >= 100:
					typ = ID(s.D.Type - 100)
				case s.D.Type >= 50:
					typ = Ident(d.m.facts0Ident(typeRef(s.D.Type)))
				}
				claims = append(claims, Claim{E: e, A: a(aType), V: typ})
			}
			if s.D.Card != 0 {
				claims = append(claims, Claim{E: e, A: a(aCard), V: oddID(8, s.D.Card)})
			}
			if s.D.Unique != 0 {
				claims = append(claims, Claim{E: e, A: a(aUnique), V: oddID(6, s.D.Unique)})
			}
			if n := len(claims) - first; s.D.Undo != 0 && n > 0 {
				undo := claims[first+(s.D.Undo-1)%n]
				undo.Retract = true
				claims = append(claims, undo)
			}
			permute(claims[first:], s.D.Order)
			continue
		case "bulk":
			a := d.ref(s.A)
			e, id := asE(d.ref(s.E)), d.attrID(a)
			attr := d.m.attrs[id]
			for i := 0; i < s.N; i++ {
				c := Claim{E: e, A: asA(a), V: asV(bulkValue(attr.Type, i)), Retract: s.R}
				if !attr.many() && !s.R {
					c.E = TempID("bulk" + strconv.Itoa(i))
				}
				claims = append(claims, c)
			}
			continue
		case "decls":
			for i := 0; i < s.N; i++ {
				e := TempID("many" + strconv.Itoa(i))
				n := scatter(i + s.E.N)
				claims = append(claims, Claim{E: e, A: aIdent, V: String("many/" + strconv.Itoa(i))}, Claim{E: e, A: ID(aType), V: typeRef(int(n % 6))})
				if n>>8%3 == 0 {
					claims = append(claims, Claim{E: e, A: ID(aCard), V: ID(10)})
				}
				if n>>16%3 == 0 {
					claims = append(claims, Claim{E: e, A: ID(aUnique), V: ID(7 + n>>24%2)})
				}
			}
			continue
		case "chain":
			claims = append(claims, d.chain(s)...)
			continue
		case "crowd":
			claims = append(claims, d.crowd(s)...)
			continue
		case "via":
			claims = append(claims, d.via(s, facts)...)
			continue
		case "echo":
			if c, ok := at(claims, s.N); ok {
				claims = append(claims, d.echo(c, s))
			}
			continue
		case "offend":
			claims = append(claims, d.offence(s, facts))
			continue
		case "held", "swap", "steal", "def":
			list := facts
			if s.K == "def" {
				list = defs
			}
			f, ok := at(list, s.N)
			if !ok {
				continue
			}
			c := Claim{E: asE(d.form(f.E, s.E.F)), A: asA(d.form(f.A, s.A.F)), V: f.V.value().(VRef), Retract: s.R}
			if f.V.T == 'r' && s.V.R.F != 0 {
				c.V = asV(d.form(f.V.id(), s.V.R.F))
			}
			if s.K == "swap" || s.V.K != "" {
				c.V = asV(d.val(s.V, f.A))
				if s.V.K == "beside" {
					c.V = asV(beside(f.V.value(), s.V.N))
				}
			}
			if s.K == "steal" || s.E.K != "" {
				c.E = asE(d.ref(s.E))
			}
			if s.A.K != "" {
				c.A = asA(d.ref(s.A))
			}
			claims = append(claims, c)
		default:
			a := d.ref(s.A)
			claims = append(claims, Claim{E: asE(d.ref(s.E)), A: asA(a), V: asV(d.val(s.V, d.attrID(a))), Retract: s.R})
		}
	}
	return
}

// chain renders claims that give each of a number of temp ids the next as an identity, and the last another identity.
func (d *dbRun) chain(s claimSpec) (claims []Claim) {
	var links, ends []ID
	for _, id := range d.m.attrIDs(true) {
		attr := d.m.attrs[id]
		switch {
		case attr.Unique != sys.AttrUniqueIdentity:
		case attr.Type == sys.AttrTypeRef:
			links = append(links, id)
		default:
			ends = append(ends, id)
		}
	}
	link, ok := at(links, s.A.N)
	if !ok {
		return
	}
	temp := func(i int) TempID { return TempID("c" + strconv.Itoa(s.E.N+i)) }
	n := 1 + s.N%8
	for i := 0; i < n; i++ {
		claims = append(claims, Claim{E: temp(i), A: asA(d.form(link, s.A.F)), V: temp(i + 1)})
	}
	end, ok := at(ends, s.A.N)
	if !ok {
		end = aIdent
	}
	return append(claims, Claim{E: temp(n), A: end, V: asV(d.val(valSpec{N: s.V.N}, end))})
}

// via renders a claim of a datum held, in which a temp id with an identity value stands for the entity or the value.
func (d *dbRun) via(s claimSpec, facts []fact) (claims []Claim) {
	identity := func(id ID) (f fact, ok bool) {
		for _, f := range facts {
			if f.E == id && d.m.attrs[f.A].Unique == sys.AttrUniqueIdentity {
				return f, true
			}
		}
		return
	}
	type way struct{ f, e, v fact }
	var ways []way
	for _, f := range facts {
		e, byE := identity(f.E)
		if byE {
			ways = append(ways, way{f: f, e: e})
		}
		if f.V.T == 'r' {
			v, byV := identity(f.V.id())
			if byV {
				ways = append(ways, way{f: f, v: v}, way{f: f, v: v})
			}
			if byE && byV {
				ways = append(ways, way{f, e, v})
			}
		}
	}
	w, ok := at(ways, s.N)
	if !ok {
		return
	}
	c := Claim{E: asE(d.form(w.f.E, s.E.F)), A: asA(d.form(w.f.A, s.A.F)), V: w.f.V.value().(VRef), Retract: s.R}
	name := func(t TempID, f fact) {
		claims = append(claims, Claim{E: t, A: asA(d.form(f.A, s.A.F)), V: f.V.value().(VRef)})
	}
	if w.e.E != 0 {
		t := d.temp(s.E.N)
		c.E = t
		name(t, w.e)
	}
	if w.v.E != 0 {
		t := d.temp(s.V.N)
		c.V = t
		name(t, w.v)
	}
	if s.V.K != "" && w.v.E == 0 {
		c.V = asV(d.val(s.V, w.f.A))
	}
	return append(claims, c)
}

// crowd renders claims about many entities, each of one value for an attribute.
func (d *dbRun) crowd(s claimSpec) (claims []Claim) {
	if s.E.K == "tmp" {
		a := d.ref(s.A)
		id := d.attrID(a)
		attr := d.m.attrs[id]
		n := s.N
		if attr.Unique != 0 && attr.Type == sys.AttrTypeBool {
			n = min(n, 2)
		}
		for i := 0; i < n; i++ {
			e := TempID("w" + strconv.Itoa(s.E.N+i))
			v := asV(bulkValue(attr.Type, i+s.V.N))
			switch {
			case id == aIdent:
				v = String("crowd/" + strconv.Itoa(i+s.V.N))
			case attr.Type == sys.AttrTypeRef && s.V.N%2 == 0:
				v = TempID("w" + strconv.Itoa(s.E.N+i+1))
			}
			claims = append(claims, Claim{E: e, A: asA(a), V: v, Retract: s.R})
		}
		return
	}
	ents, attrs := d.ents(), d.m.attrIDs(true)
	if len(attrs) == 0 {
		return
	}
	for i := 0; i < min(s.N, len(ents)*len(attrs)); i++ {
		e, a := mod(ents, i+s.E.N), mod(attrs, i/len(ents)+s.A.N)
		if _, isAttr := d.m.attrs[e]; isAttr {
			continue
		}
		claims = append(claims, Claim{E: asE(d.form(e, s.E.F)), A: asA(d.form(a, s.A.F)), V: asV(bulkValue(d.m.attrs[a].Type, i+s.V.N)), Retract: s.R})
	}
	return
}

// echo renders a claim of the request again, with another element.
func (d *dbRun) echo(c Claim, s claimSpec) Claim {
	id := d.attrID(c.A)
	switch s.E.N % 6 {
	case 0, 1:
		c.V = asV(d.val(s.V, id))
	case 2:
		c.E = asE(d.ref(s.V.R))
	case 3:
		c.Retract = !c.Retract
	case 4:
		c.A = asA(d.form(id, s.A.F))
		if e, ok := c.E.(ID); ok {
			c.E = asE(d.form(e, s.E.F))
		}
		if s.R {
			c.V = asV(d.val(s.V, id))
		}
	case 5:
		c.A = asA(d.ref(s.A))
		c.V = asV(d.val(s.V, d.attrID(c.A)))
	}
	return c
}

// offence renders a claim that is right but for one element.
func (d *dbRun) offence(s claimSpec, facts []fact) Claim {
	refs := s.V.K == "ref"
	var c Claim
	var attrs []ID
	for _, id := range d.m.attrIDs(false) {
		if !refs || d.m.attrs[id].Type == sys.AttrTypeRef {
			attrs = append(attrs, id)
		}
	}
	if refs {
		facts = slices.DeleteFunc(slices.Clone(facts), func(f fact) bool { return f.V.T != 'r' })
	}
	e, _ := at(d.ents(), s.N/7)
	id := aIdent
	if len(attrs) > 0 {
		id = mod(attrs, s.N/7)
	}
	f, held := at(facts, s.N/2)
	if held && s.N%2 == 0 {
		e, id = f.E, f.A
	}
	c = Claim{E: asE(d.form(e, s.N%3)), A: asA(d.form(id, s.N%4)), V: asV(d.val(valSpec{N: s.V.N, R: refSpec{N: s.V.N}}, id)), Retract: s.R}
	if held && s.N%2 == 0 {
		c.V = f.V.value().(VRef)
	}
	if e == 0 {
		c.E = TempID("t0")
	}
	switch {
	case s.E.K != "":
		c.E = asE(d.ref(s.E))
	case s.A.K != "":
		c.A = asA(d.ref(s.A))
	default:
		c.V = asV(d.val(s.V, id))
	}
	return c
}

func (m *model) facts0Ident(id ID) string {
	ident, _ := m.identOf(id)
	return ident
}

func (d *dbRun) request(s stepSpec) (req Request) {
	req.Claims = d.claims(s.Claims)
	permute(req.Claims, s.Order)
	for _, r := range s.Retractions {
		constraints := map[IDRef]Void{}
		for _, ref := range r.Refs {
			x, ok := d.ref(ref).(IDRef)
			if ok {
				constraints[x] = Void{}
			}
		}
		if len(constraints) > 0 || len(r.Refs) == 0 {
			req.Retractions = append(req.Retractions, Retraction{Constraints: constraints})
		}
	}
	return
}

func describe(req Request) string {
	var b strings.Builder
	for _, r := range req.Retractions {
		fmt.Fprintf(&b, "retract%v ", r.Constraints)
	}
	for _, c := range req.Claims {
		op := "assert"
		if c.Retract {
			op = "unassert"
		}
		fmt.Fprintf(&b, "%s(%#v %#v %v) ", op, c.E, c.A, c.V)
	}
	return b.String()
}

// doStep writes the step's request and compares the outcome with the model's.
func (d *dbRun) doStep(s stepSpec) (ok bool) {
	for i := 1; i < s.Repeat; i++ {
		again := stepSpec{Retractions: s.Retractions, Queries: s.Queries, Order: s.Order}
		for j, c := range s.Claims {
			if c.K == "bulk" || c.K == "decls" || c.K == "chain" || c.K == "crowd" {
				continue
			}
			c.N += i
			c.V.N += i
			if (i+j)%5 == 0 {
				c.E.N += i
			}
			if (i+j)%7 == 0 {
				c.A.N += i
			}
			again.Claims = append(again.Claims, c)
		}
		if !d.doStep(again) {
			return false
		}
	}
	ok = true
	if len(s.Claims) > 0 || len(s.Retractions) > 0 {
		req := d.request(s)
		if len(req.Claims)+len(req.Retractions) > 0 {
			ok = d.write(req)
		}
	}
	if ok {
		for _, q := range s.Queries {
			d.guard("a query", func() { d.query(q) })
		}
	}
	return
}

func cloneRequest(req Request) (c Request) {
	c.Claims = append([]Claim(nil), req.Claims...)
	for _, r := range req.Retractions {
		constraints := map[IDRef]Void{}
		for k := range r.Constraints {
			constraints[k] = Void{}
		}
		c.Retractions = append(c.Retractions, Retraction{Constraints: constraints})
	}
	return
}

// spoil changes a request after it was written.
func spoil(req Request) {
	for i := range req.Claims {
		req.Claims[i] = Claim{E: TempID("spoiled"), A: aIdent, V: String("spoiled"), Retract: true}
	}
	for _, r := range req.Retractions {
		for k := range r.Constraints {
			delete(r.Constraints, k)
		}
	}
}

// rejectProps are the properties broken by accepting what must be rejected.
func rejectProps(reason string) (props []string) {
	switch reason {
	case "retraction-unconstrained", "retraction-inconsistent":
		return []string{"C12"}
	case "retraction-unresolved":
		return []string{"C12", "C08"}
	case "retraction-system":
		return []string{"C10", "C12"}
	case "retraction-attr":
		return []string{"C09", "C12"}
	case "e-unresolved", "a-unresolved", "v-unresolved", "v-type", "v-nil":
		return []string{"C08"}
	case "system-entity":
		return []string{"C10", "C08"}
	case "system-ident":
		return []string{"C10"}
	case "identity-conflict":
		return []string{"C06", "C07"}
	case "unique-taken", "unique-twice":
		return []string{"C06", "C07"}
	case "multiple-values":
		return []string{"C05"}
	}
	return []string{"C09"}
}

// acceptProps are the properties broken by rejecting what must be accepted.
func acceptProps(v *verdict) (props []string) {
	props = []string{"C03"}
	for trait, list := range map[string][]string{
		"retraction": {"C12"}, "temp": {"C07"}, "txn": {"C07"}, "unique": {"C06"}, "identity": {"C06", "C07"}, "many": {"C05"}, "one": {"C05"},
		"ident": {"C10", "C11"}, "ident-ref": {"C11", "C08"}, "lookup-ref": {"C08", "C06"}, "schema": {"C09"}, "declare": {"C09"}, "attr-entity": {"C09"}} {
		if v.traits[trait] {
			props = append(props, list...)
		}
	}
	return
}

// factProps are the properties broken when a fact is wrongly present or absent.
func (d *dbRun) factProps(f fact, v *verdict) (props []string) {
	props = []string{"C03"}
	attr, ok := d.m.attrs[f.A]
	if !ok {
		props = append(props, "C08")
	}
	if _, isAttr := d.m.attrs[f.E]; isAttr {
		props = append(props, "C09")
	}
	if f.E < firstID {
		props = append(props, "C10")
	}
	props = append(props, "C05")
	if attr.Unique != 0 {
		props = append(props, "C06")
	}
	if f.A == aIdent {
		props = append(props, "C11", "C09")
	}
	if f.A == aType || f.A == aCard || f.A == aUnique {
		props = append(props, "C09")
	}
	if v != nil {
		if v.traits["retraction"] {
			props = append(props, "C12")
		}
		if v.traits["temp"] || v.traits["txn"] {
			props = append(props, "C07")
		}
	}
	return
}

// traced prints the requests of histories.
var traced = os.Getenv("VERIF_TRACE") != ""

// write judges a request, writes it and compares. It returns false if the case cannot go on.
func (d *dbRun) write(req Request) (ok bool) {
	v := d.m.judge(req)
	text := func() string { return fmt.Sprintf("step %d: %s", d.step, describe(req)) }
	for trait := range v.traits {
		d.class("trait:" + trait)
	}
	given := cloneRequest(req)
	var res Response
	if !d.guard("Write of "+text(), func() { res = d.db.Write(given) }) {
		return false
	}
	if traced {
		fmt.Printf("%s\n  %v %v %v; model: reject %v either %v\n", text(), res.ID, res.TempIDs, res.Error, v.reject, v.either)
	}
	if d.opts.mutate {
		spoil(given)
	}
	if d.twin != nil && (res.Error == nil || !v.mustReject() && !v.open()) {
		if !d.compareTwin(res, req, v.open(), text()) {
			return false
		}
	}
	return d.outcome(v, req, res, text)
}

// outcome compares a response with what was judged of its request.
func (d *dbRun) outcome(v *verdict, req Request, res Response, text func() string) (ok bool) {
	if res.Error == nil && v.mustReject() {
		var props []string
		for _, reason := range v.reject {
			props = append(props, rejectProps(reason)...)
		}
		d.fail("accepted", props, "%s was accepted, but %v", text(), v.reject)
		return false
	}
	if res.Error != nil && !v.mustReject() && !v.open() {
		d.fail("rejected", acceptProps(v), "%s was rejected: %v", text(), res.Error)
		return false
	}
	if v.open() {
		d.open++
		for _, reason := range v.either {
			d.class("either:" + reason)
		}
	}
	if res.Snapshot == nil {
		d.fail("no-snapshot", []string{"C02", "C03"}, "%s: no snapshot (error %v)", text(), res.Error)
		return false
	}
	if res.Error != nil {
		d.rejected++
		d.message(res.Error, []string{"C02", "C08"})
		for _, reason := range v.reject {
			d.class("reject:" + reason)
		}
		return d.afterReject(res, text())
	}
	d.accepted++
	return d.afterAccept(res, v, req, text())
}

func (d *dbRun) afterReject(res Response, text string) (ok bool) {
	if res.ID != 0 {
		d.fail("rejected-response", []string{"C02"}, "%s was rejected, but the response has the transaction %v", text, res.ID)
	}
	if len(res.TempIDs) != 0 {
		d.fail("rejected-response", []string{"C02"}, "%s was rejected, but the response has the temp ids %v", text, res.TempIDs)
	}
	ok = true
	for i, snap := range []Snapshot{res.Snapshot, nil} {
		if i == 1 && d.opts.offline {
			break
		}
		what := "in the response's snapshot after the rejected " + text
		if i == 1 {
			what = "in the database after the rejected " + text
		}
		good := d.guard("reading after the rejected "+text, func() {
			if i == 1 {
				snap = d.db.Read()
			}
			n := len(d.mismatches)
			d.compareDump(snap, what, nil)
			d.compareIdents(snap, what)
			for j := n; j < len(d.mismatches); j++ {
				d.mismatches[j].Props = append(d.mismatches[j].Props, "C02")
				ok = false
			}
		})
		ok = ok && good
		if d.opts.hold && good {
			d.hold(snap, fmt.Sprintf("the snapshot %d of the rejected step %d", i, d.step))
		}
	}
	return
}

func (d *dbRun) afterAccept(res Response, v *verdict, req Request, text string) (ok bool) {
	// The transaction.
	for _, txn := range d.m.txns {
		if res.ID <= txn {
			d.fail("txn-order", []string{"C03"}, "%s has the transaction %v, not after %v", text, res.ID, txn)
			return false
		}
	}
	if res.ID < firstID || d.m.issued[res.ID] {
		d.fail("txn-id", []string{"C03", "C07"}, "%s has the transaction %v, which is not new", text, res.ID)
		return false
	}
	// The temp ids.
	used := map[TempID]bool{}
	for _, c := range req.Claims {
		if t, ok := c.E.(TempID); ok {
			used[t] = true
		}
		if t, ok := c.V.(TempID); ok {
			used[t] = true
		}
	}
	good := len(res.TempIDs) == len(used)
	for t := range used {
		if id := res.TempIDs[t]; id < firstID {
			good = false
		}
	}
	if !good {
		d.fail("temp-ids", []string{"C07"}, "%s: the response has the temp ids %v", text, res.TempIDs)
		return false
	}
	holes := map[ID]ID{txnHole: res.ID}
	owners := map[ID]ID{res.ID: txnHole}
	exact := !v.open()
	if exact {
		for t := range used {
			want, got := v.temps[t], res.TempIDs[t]
			if want < txnHole {
				if got != want {
					d.fail("temp-ids", []string{"C07"}, "%s: the temp id %q is %v, not %v", text, t, got, want)
					return false
				}
				continue
			}
			if to, ok := holes[want]; ok {
				if to != got {
					d.fail("temp-ids", []string{"C07"}, "%s: the temp id %q is %v, not %v", text, t, got, to)
					return false
				}
				continue
			}
			if d.m.issued[got] || got < firstID {
				d.fail("temp-ids", []string{"C07"}, "%s: the temp id %q is the extant %v", text, t, got)
				return false
			}
			if _, ok := owners[got]; ok {
				d.fail("temp-ids", []string{"C07"}, "%s: the temp id %q is %v, as is another", text, t, got)
				return false
			}
			holes[want] = got
			owners[got] = want
		}
	}
	prev := d.m
	if exact {
		d.m = v.commit(holes)
		d.m.issue(res.ID, res.TempIDs)
	}
	ok = d.guard("reading after "+text, func() {
		if exact {
			good = d.compareDump(res.Snapshot, "in the response's snapshot after "+text, v) && good
		} else {
			good = d.adopt(res, v, prev, text) && good
		}
		if good {
			d.compareIdents(res.Snapshot, "in the response's snapshot after "+text)
		}
		if good && !d.opts.offline {
			snap := d.db.Read()
			good = d.compareDump(snap, "in the database after "+text, v)
			d.compareIdents(snap, "in the database after "+text)
			if good {
				touched := map[ID]bool{}
				for e := range v.touched {
					if to, ok := holes[e]; ok {
						e = to
					}
					touched[e] = true
				}
				if d.opts.deep {
					touched = nil
				}
				d.deepCompare(snap, d.m, "after "+text, touched)
			}
			d.hold(snap, fmt.Sprintf("the snapshot read after step %d", d.step))
		}
		d.hold(res.Snapshot, fmt.Sprintf("the snapshot of step %d", d.step))
	})
	return ok && good
}

// compareTwin writes the request to the database that has seen no rejected ones. The requests are those
// accepted, or that would have to be.
func (d *dbRun) compareTwin(res Response, req Request, open bool, text string) (ok bool) {
	n := len(d.mismatches)
	ok = d.guard("Write of "+text, func() {
		twin := d.twin.Write(req)
		switch {
		case twin.Error != nil && res.Error != nil:
		case twin.Error != nil:
			d.fail("twin", []string{"C02"}, "%s was accepted after rejected requests, but is rejected without them: %v", text, twin.Error)
		case res.Error != nil:
			d.fail("twin", []string{"C02"}, "%s was rejected after rejected requests, but is accepted without them: %v", text, res.Error)
		case twin.ID != res.ID:
			d.fail("twin", []string{"C02"}, "%s: the transaction is %v, but %v had there been no rejected requests", text, res.ID, twin.ID)
		case fmt.Sprint(twin.TempIDs) != fmt.Sprint(res.TempIDs):
			d.fail("twin", []string{"C02"}, "%s: the temp ids are %v, but %v had there been no rejected requests", text, res.TempIDs, twin.TempIDs)
		case res.Snapshot != nil && twin.Snapshot != nil:
			got, want := dumpSet(res.Snapshot), dumpSet(twin.Snapshot)
			for f, t := range got {
				if want[f] != t {
					d.fail("twin", []string{"C02"}, "%s: %v of the transaction %v is held, but would not be had there been no rejected requests", text, f, t)
					return
				}
			}
			for f, t := range want {
				if got[f] != t {
					d.fail("twin", []string{"C02"}, "%s: %v of the transaction %v is not held, but would be had there been no rejected requests", text, f, t)
					return
				}
			}
		}
	})
	if open && len(d.mismatches) > n {
		// The two may have chosen differently, and can no longer be compared.
		d.mismatches = d.mismatches[:n]
		d.twin = nil
		d.class("twin diverged")
	}
	return ok && len(d.mismatches) == n
}

func dumpSet(snap Snapshot) (set map[fact]ID) {
	set = map[fact]ID{}
	for datum := range snap.Select(Claim{}) {
		set[fact{datum.E, datum.A, keyOf(datum.V)}] = datum.T
	}
	return
}

// compareDump compares all datums with the model's.
func (d *dbRun) compareDump(snap Snapshot, what string, v *verdict) (ok bool) {
	ok = true
	seen := make(map[fact]bool, len(d.m.facts))
	var last fact
	i := 0
	for datum := range snap.Select(Claim{}) {
		f := fact{datum.E, datum.A, keyOf(datum.V)}
		if i++; i > len(d.m.facts)+1000 {
			d.fail("dump", []string{"C03", "C04"}, "%s: too many datums", what)
			return false
		}
		if i > 1 && compareEAV(last, f) >= 0 {
			d.fail("order", []string{"C04"}, "%s: %v comes after %v", what, f, last)
			ok = false
		}
		last = f
		t, extant := d.m.facts[f]
		switch {
		case !extant:
			d.fail("dump", d.factProps(f, v), "%s: the datum %v is held, but must not be", what, datum)
			ok = false
		case t != datum.T && v != nil && v.fresh[f]:
			d.m.facts[f] = datum.T
		case t != datum.T:
			props := []string{"C03"}
			switch datum.V.(type) {
			case Inst, Float:
				// It was likely taken for another value.
				props = append(props, "C13")
			}
			d.fail("dump", props, "%s: the datum %v must be of the transaction %v", what, datum, t)
			ok = false
		case !readBack(datum.V):
			d.fail("dump", []string{"C13"}, "%s: the datum %v has an odd value", what, datum)
			ok = false
		}
		seen[f] = true
	}
	if !ok || len(seen) != len(d.m.facts) {
		for f := range d.m.facts {
			if !seen[f] {
				props := append(d.factProps(f, v), "C13")
				d.fail("dump", props, "%s: the datum %v is not held, but must be", what, f)
				ok = false
			}
		}
	}
	return
}

// nearIdents are variants of an ident that are other idents.
func nearIdents(name string) []string {
	ns, rest, ok := strings.Cut(name, "/")
	if !ok {
		ns, rest = name, name
	}
	list := []string{":" + name, name + "/", "/" + name, " " + name, name + " ", strings.ToUpper(name), strings.ToLower(name),
		name[:len(name)-min(len(name), 1)], name + "0", name + "\x00", rest, ns, ns + "." + rest, ns + ":" + rest, ns + "//" + rest, strings.ToTitle(ns) + "/" + rest,
		strings.ReplaceAll(name, "/", "-"), strings.ReplaceAll(name, "-", "_"), "." + name, "@" + name, "\"" + name + "\"", "sys/" + name, "sys/db/" + rest, "db/" + rest}
	return slices.DeleteFunc(list, func(s string) bool { return s == name })
}

// compareIdents compares the resolution of idents with the model's.
func (d *dbRun) compareIdents(snap Snapshot, what string) {
	idents := map[string]ID{}
	for f := range d.m.facts {
		if f.A == aIdent {
			idents[f.V.S] = f.E
		}
	}
	for n := 0; n < 55; n++ {
		name := identName(n)
		if _, ok := idents[name]; !ok {
			idents[name] = 0
		}
	}
	idents["no/0"] = 0
	for name, id := range maps.Clone(idents) {
		if id == 0 {
			continue
		}
		for _, near := range nearIdents(name) {
			if _, ok := idents[near]; !ok {
				idents[near] = 0
			}
		}
	}
	for name, id := range idents {
		got := snap.ResolveIdent(Ident(name))
		if got != id {
			props := []string{"C11"}
			if id != 0 && id < firstID {
				props = append(props, "C10")
			}
			if _, ok := d.m.attrs[id]; ok {
				props = append(props, "C09")
			}
			d.fail("ident", props, "%s: the ident %q resolves to %v, not %v", what, name, got, id)
		}
	}
	for id, attr := range d.m.attrs {
		if got := snap.ResolveAttrIdent(id); string(got) != attr.Ident {
			d.fail("attr-ident", []string{"C11", "C09"}, "%s: the attribute %v resolves to %q, not %q", what, id, got, attr.Ident)
		}
	}
}

// adopt checks the invariants after a request whose outcome was left open, and adopts the outcome.
func (d *dbRun) adopt(res Response, v *verdict, prev *model, text string) (ok bool) {
	ok = true
	bad := func(props []string, format string, args ...any) {
		d.fail("open-outcome", props, "after %s: %s", text, fmt.Sprintf(format, args...))
		ok = false
	}
	next := prev.clone()
	next.facts = map[fact]ID{}
	for datum := range res.Snapshot.Select(Claim{}) {
		f := fact{datum.E, datum.A, keyOf(datum.V)}
		if _, dup := next.facts[f]; dup {
			bad([]string{"C04"}, "%v occurs twice", f)
		}
		next.facts[f] = datum.T
		if t, was := prev.facts[f]; datum.T != res.ID && (!was || t != datum.T) {
			bad([]string{"C03"}, "%v has the transaction %v", f, datum.T)
		}
		if _, declared := prev.attrs[f.A]; !declared {
			bad([]string{"C08"}, "%v has an undeclared attribute", f)
		} else if !typeMatches(prev.attrs[f.A].Type, datum.V) {
			bad([]string{"C08"}, "%v has an ill typed value", f)
		}
	}
	next.deriveAttrs()
	next.issue(res.ID, res.TempIDs)
	ones := map[fact]bool{}
	uniques := map[fact]bool{}
	for f := range next.facts {
		attr := prev.attrs[f.A]
		if !attr.many() {
			key := fact{E: f.E, A: f.A}
			if ones[key] {
				bad([]string{"C05"}, "%v is not the only value", f)
			}
			ones[key] = true
		}
		if attr.Unique != 0 {
			key := fact{A: f.A, V: f.V}
			if uniques[key] {
				bad([]string{"C06"}, "%v has several owners", f)
			}
			uniques[key] = true
		}
		if f.E < firstID && prev.facts[f] != next.facts[f] {
			bad([]string{"C10"}, "%v is new", f)
		}
		if f.A == aIdent && f.E >= firstID && strings.HasPrefix(f.V.S, "sys/") {
			bad([]string{"C10"}, "%v is reserved", f)
		}
	}
	known := map[ID]bool{}
	for e := range v.touched {
		known[e] = true
	}
	for _, id := range res.TempIDs {
		known[id] = true
	}
	known[res.ID] = true
	for f, t := range prev.facts {
		if t2, ok := next.facts[f]; (!ok || t2 != t) && !known[f.E] {
			bad([]string{"C03", "C12"}, "%v has changed", f)
		}
		if _, ok := next.facts[f]; !ok && f.E < firstID {
			bad([]string{"C10"}, "%v is lost", f)
		}
	}
	for f := range next.facts {
		if _, ok := prev.facts[f]; !ok && !known[f.E] {
			bad([]string{"C03"}, "%v is new", f)
		}
	}
	for id, attr := range prev.attrs {
		now := next.attrs[id]
		if now.Card == sys.AttrCardinalityOne && attr.Card == 0 {
			now.Card = 0
		}
		if now != attr {
			bad([]string{"C09"}, "the attribute %v changed from %v to %v", id, attr, now)
		}
	}
	for id, attr := range next.attrs {
		if prev.attrs[id] == attr {
			continue
		}
		if !validType(attr.Type) || attr.Ident == "" && !containsReason(v.either, "odd-ident") {
			bad([]string{"C09"}, "the attribute %v is %v", id, attr)
		}
	}
	for f := range next.facts {
		if f.A == aCard || f.A == aUnique {
			if _, ok := next.attrs[f.E]; !ok {
				bad([]string{"C09"}, "%v is of no attribute", f)
			}
		}
	}
	d.m = next
	return
}

func containsReason(list []string, x string) bool {
	for _, y := range list {
		if x == y {
			return true
		}
	}
	return false
}

// deepCompare asks all query shapes about the entities (all, if nil) and compares.
func (d *dbRun) deepCompare(snap Snapshot, m *model, what string, ents map[ID]bool) {
	asked := map[string]bool{}
	facts := m.sorted()
	limit := 60
	if d.deepLimit > 0 {
		limit = d.deepLimit
	}
	n := 0
	// Users' datums come last and matter most.
	for i := len(facts) - 1; i >= 0; i-- {
		f := facts[i]
		if ents != nil && !ents[f.E] || ents == nil && f.E < firstID && f.A != aIdent {
			continue
		}
		if n++; n > limit {
			break
		}
		for mask := 1; mask < 8; mask++ {
			q := concrete{mask: mask, e: f.E, a: f.A, v: f.V}
			if key := q.key(); asked[key] {
				continue
			} else {
				asked[key] = true
			}
			d.compareQuery(snap, m, facts, q.claim(), q, what)
		}
	}
	// Lookups of values held, and then of those beside them.
	for i, k := len(facts)-1, 0; i >= 0 && k < 12 && ents == nil; i-- {
		f := facts[i]
		if m.attrs[f.A].Unique == 0 || f.E < firstID && i%5 != 0 {
			continue
		}
		k++
		held := f.V.value()
		for j, v := range []Value{held, beside(held, i), beside(held, i/2+3)} {
			claim := Claim{E: LookupRef{A: f.A, V: v}}
			if j == 2 {
				claim = Claim{A: f.A, V: v.(VRef)}
			}
			d.compareQuery(snap, m, facts, claim, m.resolveQuery(claim), what)
		}
	}
	for e := range ents {
		q := concrete{mask: 1, e: e}
		if e < txnHole && e != 0 && !asked[q.key()] {
			d.compareQuery(snap, m, facts, q.claim(), q, what)
		}
	}
}

// concrete is a resolved query.
type concrete struct {
	mask int // 1 E, 2 A, 4 V
	e, a ID
	v    vkey
	none bool // matches nothing
	tags []string
}

func (q concrete) key() string {
	if q.mask&1 == 0 {
		q.e = 0
	}
	if q.mask&2 == 0 {
		q.a = 0
	}
	if q.mask&4 == 0 {
		q.v = vkey{}
	}
	return fmt.Sprint(q.mask, uint64(q.e), uint64(q.a), q.v)
}

func (q concrete) claim() (c Claim) {
	if q.mask&1 != 0 {
		c.E = q.e
	}
	if q.mask&2 != 0 {
		c.A = q.a
	}
	if q.mask&4 != 0 {
		c.V = q.v.value().(VRef)
	}
	return
}

// compareQuery compares selecting, counting and testing with filtering the model's facts.
func (d *dbRun) compareQuery(snap Snapshot, m *model, facts []fact, claim Claim, q concrete, what string) {
	want := map[fact]ID{}
	if !q.none {
		for _, f := range facts {
			if q.mask&1 != 0 && f.E != q.e || q.mask&2 != 0 && f.A != q.a || q.mask&4 != 0 && f.V != q.v {
				continue
			}
			want[f] = m.facts[f]
		}
	}
	props := append([]string{"C04", "C03"}, q.tags...)
	if q.mask&4 != 0 {
		props = append(props, "C13")
	}
	if q.mask&3 == 3 {
		props = append(props, "C05")
	}
	// replaced says whether a fact not held is of a single-valued attribute whose entity holds another value.
	replaced := func(f fact) bool {
		if m.attrs[f.A].many() {
			return false
		}
		for g := range m.facts {
			if g.E == f.E && g.A == f.A {
				return true
			}
		}
		return false
	}
	extra := false
	if q.mask&6 == 6 && m.attrs[q.a].Unique != 0 {
		props = append(props, "C06")
	}
	props = append(props, "C12")
	name := fmt.Sprintf("%s: the query %s", what, describeClaim(claim))
	got := map[fact]bool{}
	var last fact
	i := 0
	seq := snap.Select(claim)
	if seq == nil {
		d.fail("query", props, "%s selects a nil sequence", name)
		return
	}
	for datum := range seq {
		f := fact{datum.E, datum.A, keyOf(datum.V)}
		if i++; i > len(facts)+10 {
			d.fail("query", props, "%s selects too much", name)
			return
		}
		if got[f] {
			d.fail("query", props, "%s selects %v twice", name, datum)
		}
		got[f] = true
		t, ok := want[f]
		if !ok {
			more := props
			if replaced(f) {
				more = append(slices.Clone(props), "C05")
				extra = true
			}
			d.fail("query", more, "%s selects %v", name, datum)
		} else if t != datum.T {
			d.fail("query", []string{"C03", "C04"}, "%s selects %v with the transaction %v, not %v", name, f, datum.T, t)
		} else if !readBack(datum.V) {
			d.fail("query", []string{"C13"}, "%s selects %v with an odd value", name, datum)
		}
		if i > 1 && (q.mask&1 != 0 || q.mask == 0) && compareEAV(last, f) >= 0 {
			d.fail("query", []string{"C04"}, "%s selects %v after %v", name, f, last)
		}
		last = f
	}
	for f := range want {
		if !got[f] {
			d.fail("query", props, "%s does not select %v", name, f)
		}
	}
	if extra {
		props = append(slices.Clone(props), "C05")
	}
	if n := snap.Count(claim); n != len(want) {
		d.fail("query", props, "%s counts %d, not %d", name, n, len(want))
	}
	if has := snap.Has(claim); has != (len(want) > 0) {
		d.fail("query", props, "%s has %v, of %d", name, has, len(want))
	}
}

func describeClaim(c Claim) string { return fmt.Sprintf("(%#v %#v %#v)", c.E, c.A, c.V) }

// query asks a drawn query.
func (d *dbRun) query(s querySpec) {
	snap := d.db.Read()
	claim, q := d.renderQuery(s)
	d.class(fmt.Sprintf("query-mask:%d", q.mask))
	if q.none {
		d.class("query:none")
	}
	d.compareQuery(snap, d.m, d.m.sorted(), claim, q, fmt.Sprintf("after step %d", d.step))
}

func (d *dbRun) renderQuery(s querySpec) (claim Claim, q concrete) {
	if s.N > 0 {
		facts := d.m.sorted()
		f := facts[s.N%len(facts)]
		if s.M&1 != 0 {
			claim.E = asE(d.form(f.E, s.M>>3&3))
		}
		if s.M&2 != 0 {
			claim.A = asA(d.form(f.A, s.M>>5&3))
		}
		if s.M&4 != 0 {
			claim.V = f.V.value().(VRef)
			if f.V.T == 'r' {
				claim.V = asV(d.form(f.V.id(), s.M>>7&3))
			}
		}
	} else {
		if s.E != nil {
			claim.E = asE(d.ref(*s.E))
		}
		var a any
		if s.A != nil {
			a = d.ref(*s.A)
			claim.A = asA(a)
		}
		if s.V != nil {
			id := d.attrID(a)
			if id == 0 {
				id = mod(d.m.attrIDs(false), s.V.N)
			}
			claim.V = asV(d.val(*s.V, id))
		}
	}
	q = d.m.resolveQuery(claim)
	return
}

// resolveQuery resolves the references of a query.
func (m *model) resolveQuery(claim Claim) (q concrete) {
	given := func(x any, mask int) (id ID, ok bool) {
		switch x := x.(type) {
		case nil:
			return 0, false
		case ID:
			if x == 0 {
				return 0, false
			}
			q.mask |= mask
			return x, true
		case Ident:
			q.mask |= mask
			q.tags = append(q.tags, "C11")
			if id = m.ident(x); id == 0 {
				q.none = true
			}
			return id, true
		case LookupRef:
			q.mask |= mask
			q.tags = append(q.tags, "C06")
			if id = m.lookup(x); id == 0 {
				q.none = true
			}
			return id, true
		}
		// Temporary ids denote nothing.
		q.mask |= mask
		q.none = true
		return 0, true
	}
	q.e, _ = given(claim.E, 1)
	q.a, _ = given(claim.A, 2)
	switch x := claim.V.(type) {
	case nil:
	case Ident, LookupRef:
		id, _ := given(x, 4)
		q.v = refKey(id)
		q.mask |= 4
	case Value:
		q.mask |= 4
		q.v = keyOf(x)
	default:
		q.mask |= 4
		q.none = true
	}
	return
}
