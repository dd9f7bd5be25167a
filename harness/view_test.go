package verifharness

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	. "github.com/dball/destructive/internal/types"
	pkg "github.com/dball/destructive/pkg/database"
	"pgregory.net/rapid"
)

// The types of these cases are views of the same entities, which have these attributes: name and code are
// identities, email and when are unique values, buddy is a ref that is an identity.

type vRef struct {
	ID uint64 `attr:"sys/db/id"`
}

type vAll struct {
	ID    uint64     `attr:"sys/db/id"`
	Name  *string    `attr:"v/name,identity"`
	Email *string    `attr:"v/email,unique"`
	Code  *int       `attr:"v/code,identity"`
	N     *int       `attr:"v/n"`
	F     *float64   `attr:"v/f"`
	B     *bool      `attr:"v/b"`
	T     *time.Time `attr:"v/t"`
	When  *time.Time `attr:"v/when,unique"`
	S     *string    `attr:"v/s"`
	Boss  *vRef      `attr:"v/boss"`
	Buddy *vRef      `attr:"v/buddy,identity"`
	Other *string    `attr:"v/other"`
}

// vScan is vAll and what else an entity may have.
type vScan struct {
	ID    uint64     `attr:"sys/db/id"`
	Ident *string    `attr:"sys/db/ident"`
	At    *time.Time `attr:"sys/tx/at"`
	Rank  *int       `attr:"sys/db/rank"`
	Name  *string    `attr:"v/name"`
	Email *string    `attr:"v/email"`
	Code  *int       `attr:"v/code"`
	N     *int       `attr:"v/n"`
	F     *float64   `attr:"v/f"`
	B     *bool      `attr:"v/b"`
	T     *time.Time `attr:"v/t"`
	When  *time.Time `attr:"v/when"`
	S     *string    `attr:"v/s"`
	Boss  *vRef      `attr:"v/boss"`
	Buddy *vRef      `attr:"v/buddy"`
	Other *string    `attr:"v/other"`
}

type vPlain struct {
	Name string `attr:"v/name,identity"`
	ID   uint64 `attr:"sys/db/id"`
	N    int    `attr:"v/n"`
	S    string `attr:"v/s"`
}

type vIgn struct {
	Email string    `attr:"v/email,unique,ignoreempty"`
	Name  MyStr     `attr:"v/name,ignoreempty,identity"`
	Code  MyInt     `attr:"v/code,identity,ignoreempty"`
	N     int       `attr:"v/n,ignoreempty"`
	F     float64   `attr:"v/f,ignoreempty"`
	B     bool      `attr:"v/b,ignoreempty"`
	T     time.Time `attr:"v/t,ignoreempty"`
	When  time.Time `attr:"v/when,unique,ignoreempty"`
	S     MyStr     `attr:"v/s,ignoreempty"`
	ID    uint64    `attr:"sys/db/id"`
}

type vNoID struct {
	S    string `attr:"v/s"`
	Name string `attr:"v/name,identity,ignoreempty"`
	B    bool   `attr:"v/b"`
}

type vLoose struct {
	ID   uint64     `attr:"sys/db/id"`
	Name *string    `attr:"v/name"`
	N    *int       `attr:"v/n"`
	When *time.Time `attr:"v/when"`
	Note string
}

type vTwo struct {
	ID   uint64  `attr:"sys/db/id"`
	S    *string `attr:"v/s"`
	ID2  uint64  `attr:"sys/db/id"`
	Code *int    `attr:"v/code,identity"`
}

type vNode struct {
	Boss *vNode `attr:"v/boss"`
	ID   uint64 `attr:"sys/db/id"`
	Name string `attr:"v/name,identity,ignoreempty"`
	N    *int   `attr:"v/n"`
}

type vMini struct {
	Code int     `attr:"v/code,identity,ignoreempty"`
	F    float64 `attr:"v/f"`
}

type vVal struct {
	ID   uint64 `attr:"sys/db/id"`
	S    string `attr:"v/s"`
	Boss vMini  `attr:"v/boss"`
}

type vBuddy struct {
	ID    uint64 `attr:"sys/db/id"`
	Buddy *vMini `attr:"v/buddy,identity"`
	N     *int   `attr:"v/n"`
}

type vKeys struct {
	Email *string    `attr:"v/email,unique"`
	When  *time.Time `attr:"v/when,unique"`
	Name  *MyStr     `attr:"v/name,identity"`
}

type vOther struct {
	Other string `attr:"v/other"`
	ID    uint64 `attr:"sys/db/id"`
	chan1 chan int
}

// vOdd has fields of other kinds than their attributes.
type vOdd struct {
	ID   uint64   `attr:"sys/db/id"`
	N    string   `attr:"v/n"`
	Name *int     `attr:"v/name"`
	Boss *float64 `attr:"v/boss"`
	S    *vMini   `attr:"v/s"`
	F    *int     `attr:"v/f"`
	Code float64  `attr:"v/code"`
	B    MyStr    `attr:"v/b"`
}

// vHidden has fields that cannot be set.
type vHidden struct {
	ID   uint64 `attr:"sys/db/id"`
	s    string `attr:"v/s"`
	N    *int   `attr:"v/n"`
	boss *vMini `attr:"v/boss"`
}

var viewNames = []string{"vAll", "vPlain", "vIgn", "vNoID", "vLoose", "vTwo", "vNode", "vVal", "vBuddy", "vKeys", "vOther", "vRef", "vMini"}

func init() {
	info := func(name string) typeInfo { return typeInfo{Name: name, Role: "view", Family: -2} }
	regType[vAll](info("vAll"))
	regType[vPlain](info("vPlain"))
	regType[vIgn](info("vIgn"))
	regType[vNoID](info("vNoID"))
	regType[vLoose](info("vLoose"))
	regType[vTwo](info("vTwo"))
	regType[vNode](info("vNode"))
	regType[vVal](info("vVal"))
	regType[vBuddy](info("vBuddy"))
	regType[vKeys](info("vKeys"))
	regType[vOther](info("vOther"))
	regType[vRef](info("vRef"))
	regType[vMini](info("vMini"))
	regType[vOdd](info("vOdd"))
	regType[vHidden](info("vHidden"))
}

// viewCase is a history of requests of view structs.
type viewCase struct {
	Steps []viewStep `json:"steps"`
}

type viewStep struct {
	Objs    []viewObj  `json:"objs,omitempty"`
	Assert  []viewUse  `json:"assert,omitempty"`
	Retract []viewUse  `json:"retract,omitempty"`
	Views   []viewRead `json:"views,omitempty"`
	// Bad adds something unusable to the request: its kind, and whether it is retracted or comes first.
	Bad *badUse `json:"bad,omitempty"`
	// Many are asserted, or retracted if negative, besides.
	Many int `json:"many,omitempty"`
	// Repeat, if not 0, is how often the step is done, with other structs each time.
	Repeat int `json:"repeat,omitempty"`
}

// vary is the step with other numbers.
func (s viewStep) vary(n int) viewStep {
	if n == 0 {
		return s
	}
	s.Many, s.Repeat, s.Bad = 0, 0, nil
	s.Objs = append([]viewObj{}, s.Objs...)
	for i := range s.Objs {
		o := &s.Objs[i]
		o.Feed = append([]int{}, o.Feed...)
		for j := range o.Feed {
			if (n+i+j)%3 != 0 && o.Feed[j] > 0 {
				o.Feed[j] += n * (1 + j%2)
			}
		}
		if n%4 != 0 {
			o.ID.N += n
		}
		if n%5 == 4 {
			o.Type += n
		}
	}
	return s
}

type viewObj struct {
	Type int     `json:"t"`
	ID   refSpec `json:"id"`
	ID2  refSpec `json:"id2"`
	Feed []int   `json:"feed"`
}

type viewUse struct {
	Obj int `json:"o"`
	// Val is given by value.
	Val bool `json:"v,omitempty"`
}

type viewRead struct {
	Type int `json:"t"`
	Ent  int `json:"e"`
	// Scramble overwrites what was found.
	Scramble bool `json:"s,omitempty"`
}

type heldView struct {
	snap  *pkg.Snapshot
	facts map[fact]bool
	what  string
}

// viewRoot is what is asserted: its reference, and whether it is empty or an extra whose datums are not modelled.
type viewRoot struct {
	ref   ERef
	empty bool
	extra bool
}

type viewRun struct {
	*run
	db    pkg.Database
	m     *model
	attrs map[string]ID
	held  []heldView
	// extra are entities whose datums are not modelled.
	extra map[ID]bool
	fresh int
	// holes counts entities whose ids are not known.
	holes  int
	temps  int
	hold   bool
	mutate bool
	// offline means that the database may be ahead of the responses.
	offline bool
	// full scans include the attributes' entities even if nothing is known of them.
	full bool
	// odd requests may have declared attributes.
	odd      bool
	stepNo   int
	accepted int
	rejected int
	open     int
	// restates counts the accepted requests about extant entities, retracted those that retract.
	restated, retracted int
	badRejected         int
}

func newViewRun(r *run) (s *viewRun) { return declareViews(r, vAll{}) }

// declareViews starts a run whose attributes are declared by writing a struct without any values.
func declareViews(r *run, decl any) (s *viewRun) {
	s = &viewRun{run: r, m: newModel(), attrs: map[string]ID{}, extra: map[ID]bool{}}
	ok := s.guard("the initial write", func() {
		s.db = pkg.NewDatabase(pkg.Config{})
		res := s.db.Write(pkg.Request{Assertions: []any{decl}})
		if res.Error != nil {
			s.fail("rejected", []string{"C16", "C17", "C18", "C19", "C20", "C22"}, "declaring the attributes is rejected: %v", res.Error)
			return
		}
		sub := &structRun{run: r}
		seen, _ := sub.seenSchema(s.db.Read(), uint64(firstID), uint64(firstID)+60)
		for ident, a := range seen {
			id := ID(a.id)
			s.attrs[ident] = id
			s.m.facts[fact{id, aIdent, vkey{T: 's', S: ident}}] = txnHole
			s.m.facts[fact{id, aType, refKey(ID(a.def.typ))}] = txnHole
			switch a.def.unique {
			case "identity":
				s.m.facts[fact{id, aUnique, refKey(7)}] = txnHole
			case "unique":
				s.m.facts[fact{id, aUnique, refKey(8)}] = txnHole
			}
			if a.def.many {
				s.m.facts[fact{id, aCard, refKey(10)}] = txnHole
			}
			s.m.issued[id] = true
			s.m.top = max(s.m.top, id)
		}
		s.m.slack = 1 << 20
		s.m.deriveAttrs()
		for _, f := range tfields(reflect.TypeOf(decl)) {
			if !f.isID() && s.attrs[f.ident] == 0 {
				s.fail("schema", []string{"C17", "C18", "C19", "C20", "C22"}, "the attribute %q is not declared", f.ident)
			}
		}
	})
	if !ok || len(r.mismatches) > 0 {
		return nil
	}
	return
}

func (s *viewRun) id(r refSpec) ID {
	switch r.K {
	case "ent":
		if id, ok := at(s.m.ents, r.N); ok {
			return id
		}
	case "attr":
		ids := s.m.attrIDs(true)
		return mod(ids, r.N)
	case "sys":
		return 1 + ID(r.N%19)
	case "future":
		return ID(1<<40) + ID(r.N)
	case "gap":
		return firstID + ID(r.N)
	}
	return 0
}

// viewPools are the values of the attributes; the last of each is the zero value.
func (s *viewRun) poolScalar(v reflect.Value, ident string, n int) {
	small := map[string]bool{"v/name": true, "v/email": true, "v/code": true, "v/when": true}[ident]
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(n%2 == 0)
	case reflect.Int:
		if small {
			v.SetInt(int64(mod([]int{1, 2, 3, 0, -1, math.MinInt64}, n)))
		} else {
			v.SetInt(int64(mod(intPool, n)))
		}
	case reflect.String:
		if small && n%16 == 15 {
			v.SetString(strings.Repeat("z", 300) + strconv.Itoa(n/16%2))
		} else if small {
			v.SetString(mod([]string{"a", "b", "c", "", "a\x00"}, n))
		} else {
			v.SetString(mod(stringPool, n))
		}
	case reflect.Float64:
		v.SetFloat(mod(floatPool, n))
	case reflect.Struct:
		if small {
			v.Set(reflect.ValueOf(mod([]time.Time{instPool[0], instPool[1], instPool[5], {}, instPool[8]}, n)))
		} else {
			v.Set(reflect.ValueOf(mod(instPool, n)))
		}
	}
}

// fill builds the fields of an object; pointers to structs are to others of the objects.
func (s *viewRun) fill(v reflect.Value, f *feed, id, id2 ID, objs []reflect.Value) {
	ids := 0
	for _, field := range tfields(v.Type()) {
		fv := v.Field(field.index)
		if field.isID() {
			if ids == 0 {
				fv.SetUint(uint64(id))
			} else {
				fv.SetUint(uint64(id2))
			}
			ids++
			continue
		}
		n := f.n()
		switch {
		case scalarType(field.typ) != 0:
			if n == 0 {
				continue
			}
			s.poolScalar(fv, field.ident, n-1)
		case field.typ.Kind() == reflect.Pointer && scalarType(field.typ.Elem()) != 0:
			if n%3 == 0 {
				continue
			}
			fv.Set(reflect.New(field.typ.Elem()))
			s.poolScalar(fv.Elem(), field.ident, n/3)
		case field.typ.Kind() == reflect.Pointer:
			var fit []reflect.Value
			for _, o := range objs {
				if o.Type() == field.typ {
					fit = append(fit, o)
				}
			}
			if n%2 == 1 && len(fit) > 0 {
				fv.Set(fit[n/2%len(fit)])
			}
		default:
			s.fill(fv, f, 0, 0, objs)
		}
	}
}

// scan reads the entities of a snapshot as facts.
func (s *viewRun) scan(snap *pkg.Snapshot) (facts map[fact]bool, found map[ID]*vScan) {
	facts, found = map[fact]bool{}, map[ID]*vScan{}
	ts, err := pkg.BuildTypedSnapshot[vScan](snap)
	if err != nil {
		s.fail("view", []string{"C19"}, "building a view: %v", err)
		return
	}
	attrFacts := s.full
	for f := range s.m.facts {
		if _, isAttr := s.m.attrs[f.E]; isAttr && f.E >= firstID && strings.HasPrefix(s.m.attrs[f.A].Ident, "v/") {
			attrFacts = true
		}
	}
	for id := firstID; id <= s.m.top+12; id++ {
		if _, isAttr := s.m.attrs[id]; isAttr && !attrFacts {
			continue
		}
		x := ts.Find(uint64(id))
		if x == nil {
			continue
		}
		found[id] = x
		if x.ID != uint64(id) {
			s.fail("view", []string{"C19"}, "finding %d finds %d", id, x.ID)
		}
		s.factsOf(id, reflect.ValueOf(x).Elem(), facts)
	}
	return
}

func (s *viewRun) factsOf(id ID, v reflect.Value, facts map[fact]bool) {
	for _, f := range tfields(v.Type()) {
		fv := v.Field(f.index)
		if f.isID() || fv.IsNil() || !strings.HasPrefix(f.ident, "v/") {
			continue
		}
		if x, ok := fv.Interface().(*vRef); ok {
			facts[fact{id, s.attrs[f.ident], refKey(ID(x.ID))}] = true
			continue
		}
		facts[fact{id, s.attrs[f.ident], scalarKey(fv.Elem())}] = true
	}
}

func scalarKey(v reflect.Value) vkey { return keyOf(scalarOf(v)) }

func scalarOf(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.Bool:
		return Bool(v.Bool())
	case reflect.Int:
		return Int(v.Int())
	case reflect.String:
		return String(v.String())
	case reflect.Float64:
		return Float(v.Float())
	}
	return Inst(v.Interface().(time.Time))
}

// expected are the facts of the model as they must be scanned: references to empty entities show no id.
func (s *viewRun) expected(m *model) (facts map[fact]bool) {
	facts = map[fact]bool{}
	has := map[ID]bool{}
	for f := range m.facts {
		has[f.E] = true
	}
	for f := range m.facts {
		if !strings.HasPrefix(m.attrs[f.A].Ident, "v/") {
			continue
		}
		if f.V.T == 'r' && !has[f.V.id()] {
			f.V = refKey(0)
		}
		facts[f] = true
	}
	return
}

// compareScan compares what a snapshot holds with what it must.
func (s *viewRun) compareScan(snap *pkg.Snapshot, m *model, props []string, what string) (ok bool) {
	before := len(s.mismatches)
	s.guard("reading "+what, func() {
		got, found := s.scan(snap)
		want := s.expected(m)
		for f := range got {
			if !want[f] {
				s.fail("state", props, "%s: %v of %s is held, but must not be", what, f, m.attrs[f.A].Ident)
			}
		}
		for f := range want {
			if !got[f] {
				s.fail("state", props, "%s: %v of %s is not held, but must be", what, f, m.attrs[f.A].Ident)
			}
		}
		for id, x := range found {
			if !m.has(id) && !s.extra[id] && x.Ident == nil && x.At == nil && x.Rank == nil {
				s.fail("state", append([]string{"C19"}, props...), "%s: the entity %d is found, but has no datums", what, id)
			}
		}
		if len(s.mismatches) == before {
			for id, x := range found {
				if m.has(id) {
					if _, named := m.identOf(id); s.odd && !named {
						// It may be an attribute that the odd declared.
						x.Ident = nil
					}
					if diff := s.compareView(m, reflect.ValueOf(x).Elem(), id, 3, "vScan"); diff != "" {
						s.fail("view", append([]string{"C19"}, props...), "%s: %d: %s", what, id, diff)
					}
				}
			}
		}
	})
	return len(s.mismatches) == before
}

// compareView tells how a struct found differs from the entity's facts.
func (s *viewRun) compareView(m *model, v reflect.Value, e ID, depth int, path string) string {
	exists := m.has(e)
	values := map[ID]vkey{}
	for f := range m.facts {
		if f.E == e {
			values[f.A] = f.V
		}
	}
	tagged := map[int]bool{}
	for _, f := range tfields(v.Type()) {
		tagged[f.index] = true
		p := path + "." + f.name
		fv := v.Field(f.index)
		if f.isID() {
			want := uint64(e)
			if !exists {
				want = 0
			}
			if fv.Uint() != want {
				return fmt.Sprintf("%s is %d, not %d", p, fv.Uint(), want)
			}
			continue
		}
		a := s.attrs[f.ident]
		if strings.HasPrefix(f.ident, "sys/") {
			a = m.ident(Ident(f.ident))
		}
		want, ok := values[a]
		if !ok {
			if !fv.IsZero() {
				return fmt.Sprintf("%s is %s, but the entity has no such attribute", p, show(fv))
			}
			continue
		}
		if fv.Kind() == reflect.Pointer {
			if fv.IsNil() {
				return fmt.Sprintf("%s is nil, not %v", p, want.value())
			}
			fv = fv.Elem()
		}
		if scalarType(fv.Type()) == 0 {
			if depth > 0 {
				if diff := s.compareView(m, fv, want.id(), depth-1, p); diff != "" {
					return diff
				}
			}
			continue
		}
		if got := scalarKey(fv); got != want {
			return fmt.Sprintf("%s is %s, not %v", p, show(fv), want.value())
		}
		if t, ok := fv.Interface().(time.Time); ok && (t.Location() != time.UTC || t.Nanosecond()%1e6 != 0) {
			return fmt.Sprintf("%s is %v, not in milliseconds in UTC", p, t)
		}
	}
	for i := 0; i < v.NumField(); i++ {
		if !tagged[i] && !v.Field(i).IsZero() {
			return fmt.Sprintf("%s.%s has no tag, but is set", path, v.Type().Field(i).Name)
		}
	}
	return ""
}

// objKey identifies a struct in memory, whose first field may share its address.
type objKey struct {
	typ reflect.Type
	ptr uintptr
}

// shred states what asserting a struct claims.
type shred struct {
	s      *viewRun
	req    Request
	ptrs   map[objKey]ERef
	either []string
	reject []string
}

func (x *shred) assert(v reflect.Value, ptr bool) (e ERef, empty bool) {
	if ptr {
		if e, ok := x.ptrs[objKey{v.Type(), v.Addr().Pointer()}]; ok {
			return e, false
		}
	}
	x.s.temps++
	e = TempID(fmt.Sprintf("t%d", x.s.temps))
	var ids []ID
	fields := tfields(v.Type())
	for _, f := range fields {
		if f.isID() {
			ids = append(ids, ID(v.Field(f.index).Uint()))
		}
	}
	if len(ids) == 2 && ids[0] != ids[1] {
		if ids[0] != 0 && ids[1] != 0 {
			x.reject = append(x.reject, "ids-disagree")
		} else {
			x.either = append(x.either, "one of two ids")
		}
	}
	for _, id := range ids {
		if id != 0 {
			e = id
		}
	}
	if ptr {
		x.ptrs[objKey{v.Type(), v.Addr().Pointer()}] = e
	}
	empty = true
	for _, f := range fields {
		fv := v.Field(f.index)
		if f.isID() || !recorded(f, fv) {
			continue
		}
		empty = false
		c := Claim{E: e, A: x.s.attrs[f.ident]}
		switch fv.Kind() {
		case reflect.Map:
			keys := fv.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
			for _, k := range keys {
				c.V = x.element(fv.MapIndex(k)).(VRef)
				x.req.Claims = append(x.req.Claims, c)
			}
			continue
		case reflect.Slice:
			for i := 0; i < fv.Len(); i++ {
				ref := x.element(fv.Index(i))
				c.V = ref.(VRef)
				x.req.Claims = append(x.req.Claims, c, Claim{E: ref, A: aRank, V: Int(i)})
			}
			continue
		}
		isPtr := fv.Kind() == reflect.Pointer
		if isPtr {
			fv = fv.Elem()
		}
		if scalarType(fv.Type()) != 0 {
			c.V = scalarOf(fv).(VRef)
		} else {
			ref, _ := x.assert(fv, isPtr)
			c.V = ref.(VRef)
		}
		x.req.Claims = append(x.req.Claims, c)
	}
	if id, ok := e.(ID); ok && empty && x.s.m.status(id) != idIssued {
		x.either = append(x.either, "empty struct with an id")
	}
	return
}

// element states what an element of a collection claims.
func (x *shred) element(v reflect.Value) (e ERef) {
	if v.Kind() == reflect.Pointer {
		e, _ = x.assert(v.Elem(), true)
	} else {
		e, _ = x.assert(v, false)
	}
	return
}

func (x *shred) retract(v reflect.Value) {
	constraints := map[IDRef]Void{}
	var ids []ID
	for _, f := range tfields(v.Type()) {
		fv := v.Field(f.index)
		if f.isID() {
			if id := ID(fv.Uint()); id != 0 {
				ids = append(ids, id)
				constraints[id] = Void{}
			}
			continue
		}
		if f.unique == "" || !recorded(f, fv) {
			continue
		}
		if fv.Kind() == reflect.Pointer {
			fv = fv.Elem()
		}
		if scalarType(fv.Type()) == 0 {
			x.either = append(x.either, "retraction with a unique ref")
			continue
		}
		// One millisecond is one value.
		constraints[LookupRef{A: x.s.attrs[f.ident], V: scalarKey(fv).value()}] = Void{}
	}
	x.req.Retractions = append(x.req.Retractions, Retraction{Constraints: constraints})
}

// viewRejectProps are the properties broken by accepting what must be rejected.
func viewRejectProps(reason string) []string {
	switch {
	case strings.HasPrefix(reason, "retraction"):
		return []string{"C20"}
	case reason == "ids-disagree":
		return []string{"C21", "C18"}
	case reason == "multiple-values":
		return []string{"C05", "C18"}
	case reason == "vocabulary":
		return []string{"C10", "C09", "C20"}
	case strings.HasPrefix(reason, "unusable"):
		return []string{"C21"}
	}
	return []string{"C18"}
}

// viewReq is a request and what is known of it.
type viewReq struct {
	req   pkg.Request
	x     *shred
	roots []viewRoot
	objs  []reflect.Value
	what  string
	bad   bool
}

// prepare makes the request of a step.
func (s *viewRun) prepare(n int, step viewStep) (p *viewReq) {
	p = &viewReq{bad: step.Bad != nil}
	// The objects, first allocated, then filled.
	objs := make([]reflect.Value, len(step.Objs))
	p.objs = objs
	names := make([]string, len(step.Objs))
	for i, o := range step.Objs {
		names[i] = mod(viewNames, o.Type)
		objs[i] = reflect.New(types[names[i]].typ)
	}
	for i, o := range step.Objs {
		id := s.id(o.ID)
		id2 := id
		if o.ID2.K != "" {
			id2 = s.id(o.ID2)
			if o.ID2.K == "zero" {
				id2 = 0
			}
		}
		s.fill(objs[i].Elem(), &feed{data: o.Feed}, id, id2, objs)
	}
	x := &shred{s: s, ptrs: map[objKey]ERef{}}
	p.x = x
	var text []string
	for _, u := range step.Retract {
		if i := u.Obj; i < len(objs) {
			text = append(text, "retract "+s.describe(names[i], objs[i]))
			x.retract(objs[i].Elem())
			if u.Val {
				p.req.Retractions = append(p.req.Retractions, objs[i].Elem().Interface())
			} else {
				p.req.Retractions = append(p.req.Retractions, objs[i].Interface())
			}
		}
	}
	for _, u := range step.Assert {
		if i := u.Obj; i < len(objs) {
			how := "&"
			if u.Val {
				how = ""
			}
			text = append(text, "assert "+how+s.describe(names[i], objs[i]))
			ref, empty := x.assert(objs[i].Elem(), !u.Val)
			p.roots = append(p.roots, viewRoot{ref: ref, empty: empty})
			if u.Val {
				p.req.Assertions = append(p.req.Assertions, objs[i].Elem().Interface())
			} else {
				p.req.Assertions = append(p.req.Assertions, objs[i].Interface())
			}
		}
	}
	if step.Many != 0 {
		text = append(text, fmt.Sprintf("%d more", step.Many))
	}
	for _, o := range s.more(step.Many) {
		v := reflect.ValueOf(o)
		if step.Many < 0 {
			x.retract(reflect.Indirect(v))
			p.req.Retractions = append(p.req.Retractions, o)
			continue
		}
		ref, empty := x.assert(reflect.Indirect(v), v.Kind() == reflect.Pointer)
		p.roots = append(p.roots, viewRoot{ref: ref, empty: empty})
		p.req.Assertions = append(p.req.Assertions, o)
	}
	if step.Bad != nil {
		s.odd = true
		text = append(text, s.addBad(step.Bad, &p.req, x, &p.roots))
	}
	p.what = fmt.Sprintf("step %d: %s", n, strings.Join(text, "; "))
	return
}

// more are many structs, about as many known entities as there are, or some of these to retract if it is negative.
func (s *viewRun) more(n int) (list []any) {
	if n < 0 {
		for i, id := range s.m.ents {
			if i < -n && s.m.has(id) {
				list = append(list, vRef{uint64(id)})
			}
		}
		return
	}
	var last *vNode
	for i := 0; i < n; i++ {
		var id uint64
		if i%3 > 0 && i*2/3 < len(s.m.ents) {
			id = uint64(s.m.ents[i*2/3])
		}
		x := i
		switch i % 4 {
		case 0:
			list = append(list, &vLoose{ID: id, N: &x})
		case 1:
			list = append(list, vOther{ID: id, Other: fmt.Sprint("more", i)})
		case 2:
			last = &vNode{ID: id, N: &x, Boss: last}
			list = append(list, last)
		default:
			list = append(list, vLoose{ID: id, N: &x})
		}
	}
	return
}

func (p *viewReq) empty() bool { return len(p.req.Assertions)+len(p.req.Retractions) == 0 }

// outcome compares a response with what the model says of its request.
func (s *viewRun) outcome(p *viewReq, res pkg.Response) bool {
	what := p.what
	v := s.m.judge(p.x.req)
	v.either = append(v.either, p.x.either...)
	v.reject = append(v.reject, p.x.reject...)
	for e := range v.touched {
		if _, isAttr := s.m.attrs[e]; isAttr {
			s.full = true
		}
	}
	defer func() { s.full = false }()
	if res.Error == nil && v.mustReject() {
		var props []string
		for _, reason := range v.reject {
			props = append(props, viewRejectProps(reason)...)
		}
		s.fail("accepted", props, "%s was accepted, but %v", what, v.reject)
		return false
	}
	retracts := len(p.req.Retractions) > 0
	if res.Error != nil && !v.mustReject() && !v.open() {
		props := []string{"C18", "C19"}
		if retracts {
			props = append(props, "C20")
		}
		if p.bad {
			props = append(props, "C21")
		}
		s.fail("rejected", props, "%s was rejected: %v", what, res.Error)
		return false
	}
	if res.Snap == nil {
		s.fail("no-snapshot", []string{"C02"}, "%s: no snapshot (error %v)", what, res.Error)
		return false
	}
	for _, reason := range v.either {
		s.class("either:" + reason)
	}
	if res.Error != nil {
		s.rejected++
		s.message(res.Error, []string{"C02", "C21"})
		for _, reason := range v.reject {
			s.class("reject:" + reason)
		}
		if len(res.IDs) != 0 {
			s.fail("rejected-response", []string{"C02"}, "%s was rejected, but has ids %v", what, res.IDs)
		}
		props := []string{"C02", "C18"}
		if retracts {
			props = append(props, "C20")
		}
		if p.bad {
			s.badRejected++
			props = append(props, "C21")
		}
		return s.compareScan(res.Snap, s.m, props, "in the response's snapshot after the rejected "+what) &&
			(s.offline || s.compareScan(s.db.Read(), s.m, props, "in the database after the rejected "+what))
	}
	s.accepted++
	if v.open() {
		s.open++
	}
	if retracts {
		s.retracted++
	}
	refs := make([]ERef, len(p.roots))
	for i, r := range p.roots {
		refs[i] = r.ref
		if r.extra && i < len(res.IDs) {
			s.extra[ID(res.IDs[i])] = true
			s.m.top = max(s.m.top, ID(res.IDs[i]))
			s.learnExtras(res.Snap)
		}
	}
	return s.afterAccept(res, v, refs, retracts, what)
}

func (s *viewRun) step(n int, step viewStep) (ok bool) {
	p := s.prepare(n, step)
	if !p.empty() {
		var res pkg.Response
		if !s.guard(p.what, func() { res = s.db.Write(p.req) }) {
			return false
		}
		if s.mutate {
			for _, o := range p.objs {
				scramble(o.Elem())
			}
		}
		if !s.outcome(p, res) {
			return false
		}
		if s.hold && len(s.held) < 6 {
			s.held = append(s.held, heldView{res.Snap, s.expected(s.m), fmt.Sprintf("the snapshot of step %d", n)},
				heldView{s.db.Read(), s.expected(s.m), fmt.Sprintf("the snapshot read after step %d", n)})
		}
	}
	if step.Bad != nil && !s.badViews(step.Bad.Views) {
		return false
	}
	for _, r := range step.Views {
		if !s.read(r) {
			return false
		}
	}
	return true
}

func (s *viewRun) describe(name string, v reflect.Value) string {
	var b strings.Builder
	b.WriteString(name + "{")
	for _, f := range tfields(v.Elem().Type()) {
		fv := v.Elem().Field(f.index)
		if fv.Kind() == reflect.Pointer && !fv.IsNil() {
			if scalarType(fv.Type().Elem()) != 0 {
				fmt.Fprintf(&b, " %s:&%v", f.name, fv.Elem())
			} else {
				fmt.Fprintf(&b, " %s:->%s%+v", f.name, f.typ.Elem().Name(), fv.Elem())
			}
			continue
		}
		fmt.Fprintf(&b, " %s:%v", f.name, fv)
	}
	b.WriteString(" }")
	return b.String()
}

func (s *viewRun) afterAccept(res pkg.Response, v *verdict, roots []ERef, retracts bool, what string) (ok bool) {
	props := []string{"C18", "C19"}
	if retracts {
		props = append(props, "C20")
	}
	if len(res.IDs) != len(roots) {
		s.fail("ids", []string{"C16", "C18"}, "%s: the response has ids %v, for %d assertions", what, res.IDs, len(roots))
		return false
	}
	holes, owners := map[ID]ID{}, map[ID]ID{}
	temps := map[TempID]ID{}
	for i, ref := range roots {
		got := ID(res.IDs[i])
		switch x := ref.(type) {
		case ID:
			if got != x && !v.open() {
				s.fail("ids", []string{"C18"}, "%s: the id of assertion %d is %d, not %d", what, i, got, x)
				return false
			}
			if x >= firstID {
				s.restated++
			}
		case TempID:
			want, used := v.temps[x]
			if !used || v.open() {
				// Nothing is claimed of it.
				temps[x] = got
				continue
			}
			if want < txnHole {
				s.restated++
				s.class("identified")
				if got != want {
					s.fail("ids", []string{"C18"}, "%s: the id of assertion %d is %d, not %d", what, i, got, want)
					return false
				}
				continue
			}
			if to, ok := holes[want]; ok {
				s.class("same identity twice")
				if to != got {
					s.fail("ids", []string{"C18"}, "%s: the id of assertion %d is %d, not %d", what, i, got, to)
					return false
				}
				continue
			}
			_, taken := owners[got]
			if got < firstID || s.m.issued[got] || taken {
				s.fail("ids", []string{"C18"}, "%s: the id of assertion %d is %d, which is not new", what, i, got)
				return false
			}
			holes[want] = got
			owners[got] = want
			temps[x] = got
		}
	}
	prev := s.m
	for _, id := range res.IDs {
		// An empty struct may bear an id that was never issued.
		if id < 1<<39 {
			s.m.top = max(s.m.top, ID(id))
		}
	}
	if v.open() {
		return s.adopt(res, v, prev, temps, what)
	}
	// Learn the ids of the other new entities by following references.
	ok = s.guard("reading after "+what, func() {
		got, _ := s.scan(res.Snap)
		values := map[fact]ID{}
		for f := range got {
			if f.V.T == 'r' {
				values[fact{E: f.E, A: f.A}] = f.V.id()
			}
		}
		for changed := true; changed; {
			changed = false
			for f := range v.next.facts {
				if f.V.T != 'r' || f.V.id() < txnHole || holes[f.V.id()] != 0 {
					continue
				}
				e := f.E
				if to := holes[e]; to != 0 {
					e = to
				}
				id := values[fact{E: e, A: f.A}]
				if id == 0 {
					continue
				}
				if f.V.id() > 1<<61 {
					// A request left open referred to it; it may have been known.
					holes[f.V.id()] = id
					if _, taken := owners[id]; !taken && !s.m.issued[id] {
						owners[id] = f.V.id()
						s.temps++
						temps[TempID(fmt.Sprintf("t%d", s.temps))] = id
					}
					changed = true
					continue
				}
				if _, taken := owners[id]; taken || s.m.issued[id] || id < firstID {
					s.fail("state", props, "%s: %d refers to %d, which is not new", what, e, id)
					return
				}
				holes[f.V.id()] = id
				owners[id] = f.V.id()
				s.temps++
				temps[TempID(fmt.Sprintf("t%d", s.temps))] = id
				changed = true
			}
		}
		for f := range v.next.facts {
			for _, id := range []ID{f.E, f.V.id()} {
				if (id == f.E || f.V.T == 'r') && id >= txnHole && holes[id] == 0 && id < 1<<61 {
					s.holes++
					holes[id] = ID(1<<61 + s.holes)
				}
			}
		}
	})
	if !ok || len(s.mismatches) > 0 {
		return false
	}
	s.m = v.commit(holes)
	s.issue(temps)
	return s.compareScan(res.Snap, s.m, props, "in the response's snapshot after "+what) &&
		(s.offline || s.stepNo%3 != 0 || s.compareScan(s.db.Read(), s.m, props, "in the database after "+what))
}

// learnExtras notes the entities of a snapshot whose datums are not modelled: those nested in an extra root.
func (s *viewRun) learnExtras(snap *pkg.Snapshot) {
	s.guard("reading", func() {
		ts, err := pkg.BuildTypedSnapshot[vScan](snap)
		if err != nil {
			return
		}
		for id, last := firstID, s.m.top+12; id <= last; id++ {
			x := ts.Find(uint64(id))
			if x == nil || s.m.has(id) {
				continue
			}
			last = max(last, id+12)
			facts := map[fact]bool{}
			s.factsOf(id, reflect.ValueOf(x).Elem(), facts)
			if len(facts) == 0 {
				s.extra[id] = true
			}
		}
	})
}

func (s *viewRun) issue(temps map[TempID]ID) {
	s.m.issue(0, temps)
	// References to the extra would show what is not known of them.
	s.m.ents = slices.DeleteFunc(s.m.ents, func(id ID) bool { return s.extra[id] })
	s.m.slack = 1 << 20
}

// adopt takes over the outcome of a request that was left open, checking the invariants.
func (s *viewRun) adopt(res pkg.Response, v *verdict, prev *model, temps map[TempID]ID, what string) bool {
	props := []string{"C18", "C19", "C20"}
	before := len(s.mismatches)
	s.guard("reading after "+what, func() {
		got, _ := s.scan(res.Snap)
		for again := true; again; {
			// New entities may be known only from references to them.
			again = false
			for f := range got {
				if id := f.V.id(); f.V.T == 'r' && id > s.m.top && id < 1<<39 {
					s.m.top = id
					again = true
				}
			}
			got, _ = s.scan(res.Snap)
		}
		was := s.expected(prev)
		known := map[ID]bool{}
		for e := range v.touched {
			known[e] = true
		}
		for _, id := range res.IDs {
			known[ID(id)] = true
		}
		next := prev.clone()
		for f := range prev.facts {
			if strings.HasPrefix(prev.attrs[f.A].Ident, "v/") {
				delete(next.facts, f)
			}
		}
		uniques := map[fact]bool{}
		for f := range got {
			if prev.attrs[f.A].Unique != 0 && f.V != refKey(0) {
				key := fact{A: f.A, V: f.V}
				if uniques[key] {
					s.fail("open-outcome", []string{"C18", "C06"}, "after %s: %v has several owners", what, f)
				}
				uniques[key] = true
			}
			// A reference to an empty entity shows once that is not.
			if !was[f] && !known[f.E] && prev.issued[f.E] && f.V != refKey(0) && !(f.V.T == 'r' && known[f.V.id()]) {
				s.fail("open-outcome", props, "after %s: %v is new", what, f)
			}
			if !prev.issued[f.E] {
				s.temps++
				temps[TempID(fmt.Sprintf("t%d", s.temps))] = f.E
			}
			if f.V == refKey(0) {
				s.holes++
				f.V = refKey(ID(1<<61 + s.holes))
				// It may be a known entity that is empty.
				for g := range prev.facts {
					if g.E == f.E && g.A == f.A {
						f.V = g.V
					}
				}
			}
			next.facts[f] = txnHole
		}
		for f := range was {
			if !got[f] && !known[f.E] && f.V.T != 'r' {
				s.fail("open-outcome", props, "after %s: %v is lost", what, f)
			}
		}
		s.m = next
		s.issue(temps)
	})
	return len(s.mismatches) == before
}

// read finds an entity as a type.
func (s *viewRun) read(r viewRead) bool {
	before := len(s.mismatches)
	var id ID
	switch {
	case r.Ent == 0:
		id = 0
	case r.Ent == 1:
		id = 1 << 40
	default:
		id, _ = at(s.m.ents, r.Ent)
	}
	name := append(append([]string{}, viewNames...), "vOdd", "vHidden")[r.Type%(len(viewNames)+2)]
	s.guard(fmt.Sprintf("finding %d as %s", id, name), func() {
		snap := s.db.Read()
		find, err := types[name].finder(snap)
		if err != nil {
			s.fail("view", []string{"C19"}, "building a view of %s: %v", name, err)
			return
		}
		if other, ok := at(s.m.ents, r.Ent+1); ok && r.Ent%2 == 0 {
			// Finding one does not depend on what was found before.
			find(uint64(other))
		}
		v := find(uint64(id))
		if name == "vHidden" {
			return
		}
		if name == "vOdd" {
			// No value is one of another type.
			if !v.IsNil() {
				for _, field := range tfields(types[name].typ) {
					if fv := v.Elem().Field(field.index); !field.isID() && !fv.IsZero() {
						s.fail("view", []string{"C19", "C13"}, "finding %d as vOdd: %s is %s, which is no value of %s", id, field.name, show(fv), field.ident)
					}
				}
			}
			return
		}
		s.class("view of " + name)
		if !s.m.has(id) {
			if !v.IsNil() && !s.extra[id] {
				s.fail("view", []string{"C19", "C20"}, "%d is found as %s, but has no datums", id, name)
			}
			return
		}
		if v.IsNil() {
			s.fail("view", []string{"C19"}, "%d is not found as %s", id, name)
			return
		}
		if diff := s.compareView(s.m, v.Elem(), id, 4, name); diff != "" {
			s.fail("view", []string{"C19"}, "finding %d: %s", id, diff)
			return
		}
		if r.Scramble {
			if r.Ent%3 == 0 {
				v = find(uint64(id))
			}
			scramble(v.Elem())
			again := find(uint64(id))
			if again.IsNil() {
				s.fail("view", []string{"C01"}, "%d is not found as %s after changing what was found", id, name)
			} else if diff := s.compareView(s.m, again.Elem(), id, 4, name); diff != "" {
				s.fail("view", []string{"C01"}, "finding %d after changing what was found: %s", id, diff)
			}
			s.compareScan(s.db.Read(), s.m, []string{"C01"}, "in the database after changing what was found")
		}
	})
	return len(s.mismatches) == before
}

// scramble overwrites a struct and all it refers to.
func scramble(v reflect.Value) { scrambleDeep(v, map[uintptr]bool{}) }

func scrambleDeep(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == timeType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.UnixMilli(424242)))
			}
			return
		}
		if v.CanAddr() {
			if key := v.Addr().Pointer(); v.Type().Size() > 0 && seen[key] && false {
				return
			}
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scrambleDeep(v.Field(i), seen)
			}
		}
	case reflect.Pointer:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			scrambleDeep(v.Elem(), seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if e := v.MapIndex(k); e.Kind() == reflect.Pointer {
				scrambleDeep(e, seen)
			}
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scrambleDeep(v.Index(i), seen)
		}
	case reflect.String:
		v.SetString("scrambled")
	case reflect.Int:
		v.SetInt(424242)
	case reflect.Uint64:
		v.SetUint(1 << 50)
	case reflect.Float64:
		v.SetFloat(4242.5)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

func runViews(r *run, c *viewCase, hold bool) *viewRun {
	s := newViewRun(r)
	if s == nil {
		return nil
	}
	s.hold, s.mutate = hold, true
	for i, step := range c.Steps {
		s.stepNo = i
		for n := range max(1, step.Repeat) {
			if !s.step(i+1, step.vary(n)) {
				return s
			}
		}
	}
	s.full = true
	if !s.compareScan(s.db.Read(), s.m, []string{"C18", "C19", "C20"}, "in the database at the end") {
		return s
	}
	s.full = false
	for _, h := range s.held {
		s.guard("reading "+h.what, func() {
			got, _ := s.scan(h.snap)
			for f := range got {
				if !h.facts[f] {
					s.fail("held-snapshot", []string{"C01"}, "%s changed: %v is held", h.what, f)
				}
			}
			for f := range h.facts {
				if !got[f] {
					s.fail("held-snapshot", []string{"C01"}, "%s changed: %v is not held", h.what, f)
				}
			}
		})
	}
	return s
}

// viewProfile weighs what is generated.
type viewProfile struct {
	retract int // percentage of steps that retract
	given   int // percentage of objects with an id
	bad     int // percentage of ids that are odd
	badUse  int // percentage of steps with something unusable
	views   int
	steps   int
	kinds   []int // weights of the types, by viewNames
	// weights of the kinds of unusable things
	badKinds [4]int
	nils     int // percentage of fields left empty
}

func viewGen(p viewProfile) func(t *rapid.T) any {
	id := func(t *rapid.T) (r refSpec) {
		if !chance(t, p.given) {
			return
		}
		r = refSpec{K: "ent", N: pick(t, 8)}
		if chance(t, p.bad) {
			r = refSpec{K: []string{"attr", "sys", "future", "gap"}[choose(t, 4, 2, 3, 2)], N: pick(t, 40)}
		}
		return
	}
	obj := rapid.Custom(func(t *rapid.T) (o viewObj) {
		o.Type = choose(t, p.kinds...)
		o.ID = id(t)
		if viewNames[o.Type] == "vTwo" && chance(t, 30) {
			o.ID2 = id(t)
			if o.ID2.K == "" {
				o.ID2.K = "zero"
			}
		}
		o.Feed = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int {
			if chance(t, p.nils) {
				return 0
			}
			if chance(t, 75) {
				return pick(t, 13)
			}
			return pick(t, 60)
		}), 3, 13).Draw(t, "feed")
		return
	})
	step := rapid.Custom(func(t *rapid.T) (s viewStep) {
		s.Objs = rapid.SliceOfN(obj, 1, 4).Draw(t, "objs")
		use := func() viewUse { return viewUse{Obj: pick(t, len(s.Objs)), Val: chance(t, 45)} }
		if chance(t, p.retract) {
			u := use()
			switch choose(t, 30, 45, 25) {
			case 1:
				// By id alone.
				s.Objs[u.Obj] = viewObj{Type: []int{0, 2, 4, 6, 10, 11}[pick(t, 6)], ID: refSpec{K: "ent", N: pick(t, 12)}}
			case 2:
				// By one unique field, and perhaps the id.
				feed := make([]int, 12)
				field := []int{0, 1, 2, 7}[choose(t, 3, 2, 2, 1)]
				feed[field] = 1 + 3*pick(t, 3)
				if chance(t, 8) {
					// Long strings.
					feed[field] = []int{16, 45}[pick(t, 2)]
				}
				s.Objs[u.Obj] = viewObj{Feed: feed}
				if chance(t, 20) {
					s.Objs[u.Obj].ID = refSpec{K: "ent", N: pick(t, 12)}
				}
			}
			s.Retract = append(s.Retract, u)
			if chance(t, 20) {
				s.Retract = append(s.Retract, use())
			}
		}
		if len(s.Retract) == 0 || chance(t, 40) {
			for i := 0; i < 1+choose(t, 5, 3, 2); i++ {
				s.Assert = append(s.Assert, use())
			}
		}
		if choose(t, 980, 20) == 1 {
			s.Many = 20 + pick(t, 130)
			if p.retract > 0 && chance(t, 20) {
				s.Many = -s.Many
			}
		}
		if p.badUse > 0 && chance(t, p.badUse) {
			s.Bad = drawBadUse(t, p.badKinds)
		}
		s.Views = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) viewRead {
			return viewRead{Type: pick(t, len(viewNames)+2), Ent: pick(t, 12), Scramble: chance(t, 20)}
		}), 0, p.views).Draw(t, "views")
		return
	})
	return func(t *rapid.T) any {
		c := &viewCase{Steps: list(t, step, p.steps)}
		if len(c.Steps) > 0 && choose(t, 995, 5) == 1 {
			c.Steps[pick(t, len(c.Steps))].Repeat = 5 + pick(t, 45)
		}
		return c
	}
}

var baseViews = viewProfile{retract: 20, given: 40, bad: 8, views: 3, steps: 9, nils: 35,
	kinds: []int{20, 10, 14, 8, 8, 5, 10, 6, 6, 6, 4, 3, 5}}

func viewCheck(prop string, p viewProfile, rule string, nontrivial func(s *viewRun) bool) {
	register(prop, viewCheckOf(p, rule, nontrivial))
}

func viewCheckOf(p viewProfile, rule string, nontrivial func(s *viewRun) bool) check {
	return check{
		rule:  "A case is a list of requests that assert and retract structs of a dozen types over the same attributes (with identity, unique, plain and ref fields, given ids, shared and cyclic pointers, by value and by pointer); each outcome is compared with a reference model, reading every entity after every request. " + rule,
		gen:   viewGen(p),
		blank: func() any { return &viewCase{} },
		run: func(c any, r *run) {
			s := runViews(r, c.(*viewCase), true)
			if s == nil {
				return
			}
			if s.open > 0 {
				r.class("some left open")
			}
			r.class(fmt.Sprintf("accepted:%d", min(s.accepted, 10)))
			r.nontrivial = nontrivial(s)
		},
	}
}

func init() {
	p := func(edit func(p *viewProfile)) viewProfile {
		c := baseViews
		edit(&c)
		return c
	}
	viewCheck("C18", p(func(p *viewProfile) { p.views = 1; p.retract = 12 }),
		"Non-trivial: at least two accepted requests, one of which was about an entity extant, by id or identity.",
		func(s *viewRun) bool { return s.accepted >= 2 && s.restated > 0 })
	viewCheck("C19", p(func(p *viewProfile) { p.views = 6; p.retract = 8; p.given = 60; p.bad = 3 }),
		"Non-trivial: at least two accepted requests, one of which was about an entity extant, by id or identity.",
		func(s *viewRun) bool { return s.accepted >= 2 && s.restated > 0 })
	viewCheck("C20", p(func(p *viewProfile) {
		p.retract = 60
		p.views = 2
		p.given = 45
		p.bad = 5
		p.badUse = 6
		p.badKinds[3] = 1
	}),
		"Non-trivial: at least one accepted request that retracts a struct.",
		func(s *viewRun) bool { return s.retracted > 0 })
}

func sortedIDs(m map[ID]bool) (ids []ID) {
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return
}
