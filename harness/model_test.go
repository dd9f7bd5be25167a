package verifharness

import (
	"cmp"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/dball/destructive/internal/sys"
	. "github.com/dball/destructive/internal/types"
)

// vkey is the identity of a value: instants are equal by millisecond, NaN equals itself.
type vkey struct {
	T byte
	I int64
	F float64
	S string
	N bool // NaN
}

func keyOf(v Value) (k vkey) {
	switch x := v.(type) {
	case ID:
		k = vkey{T: 'r', I: int64(x)}
	case String:
		k = vkey{T: 's', S: string(x)}
	case Int:
		k = vkey{T: 'i', I: int64(x)}
	case Bool:
		k = vkey{T: 'b'}
		if x {
			k.I = 1
		}
	case Inst:
		k = vkey{T: 't', I: time.Time(x).UnixMilli()}
	case Float:
		k = vkey{T: 'f', F: float64(x)}
		if math.IsNaN(float64(x)) {
			k.F, k.N = 0, true
		}
		if k.F == 0 {
			k.F = 0 // drops the sign
		}
	}
	return
}

func (k vkey) id() ID { return ID(k.I) }

// value is the value as it must be read back.
func (k vkey) value() Value {
	switch k.T {
	case 'r':
		return ID(k.I)
	case 's':
		return String(k.S)
	case 'i':
		return Int(k.I)
	case 'b':
		return Bool(k.I == 1)
	case 't':
		return Inst(time.UnixMilli(k.I).UTC())
	case 'f':
		if k.N {
			return Float(math.NaN())
		}
		return Float(k.F)
	}
	return nil
}

func refKey(id ID) vkey { return vkey{T: 'r', I: int64(id)} }

// readBack reports whether v is in the form in which values of its kind must be read.
func readBack(v Value) bool {
	switch x := v.(type) {
	case ID, String, Int, Bool, Float:
		return true
	case Inst:
		t := time.Time(x)
		return t.Location() == time.UTC && t.Nanosecond()%1e6 == 0
	}
	return false
}

func compareKeys(a, b vkey) int {
	if a.T != b.T {
		return cmp.Compare(a.T, b.T)
	}
	if a.T == 's' {
		return strings.Compare(a.S, b.S)
	}
	if a.T == 'f' {
		fa, fb := a.F, b.F
		if a.N {
			fa = math.NaN()
		}
		if b.N {
			fb = math.NaN()
		}
		return cmp.Compare(fa, fb)
	}
	if a.T == 'r' {
		return cmp.Compare(uint64(a.I), uint64(b.I))
	}
	return cmp.Compare(a.I, b.I)
}

type fact struct {
	E ID
	A ID
	V vkey
}

func compareEAV(a, b fact) int {
	if c := cmp.Compare(a.E, b.E); c != 0 {
		return c
	}
	if c := cmp.Compare(a.A, b.A); c != 0 {
		return c
	}
	return compareKeys(a.V, b.V)
}

func (f fact) String() string {
	return fmt.Sprintf("[%d %d %v]", uint64(f.E), uint64(f.A), f.V.value())
}

// mattr is an attribute of the model.
type mattr struct {
	Ident  string
	Type   ID
	Card   ID
	Unique ID
}

func (a mattr) many() bool { return a.Card == sys.AttrCardinalityMany }

// The system vocabulary as documented, independently of the code under test.
var sysFacts = []fact{
	{1, 1, vkey{T: 's', S: "sys/db/ident"}}, {1, 2, refKey(12)}, {1, 3, refKey(7)},
	{3, 1, vkey{T: 's', S: "sys/attr/unique"}}, {3, 2, refKey(11)},
	{7, 1, vkey{T: 's', S: "sys/attr/unique/identity"}},
	{8, 1, vkey{T: 's', S: "sys/attr/unique/value"}},
	{6, 1, vkey{T: 's', S: "sys/tx/at"}}, {6, 2, refKey(15)},
	{2, 1, vkey{T: 's', S: "sys/attr/type"}}, {2, 2, refKey(11)},
	{11, 1, vkey{T: 's', S: "sys/attr/type/ref"}},
	{12, 1, vkey{T: 's', S: "sys/attr/type/string"}},
	{15, 1, vkey{T: 's', S: "sys/attr/type/inst"}},
	{13, 1, vkey{T: 's', S: "sys/attr/type/int"}},
	{14, 1, vkey{T: 's', S: "sys/attr/type/bool"}},
	{16, 1, vkey{T: 's', S: "sys/attr/type/float"}},
	{4, 1, vkey{T: 's', S: "sys/attr/cardinality"}}, {4, 2, refKey(11)},
	{9, 1, vkey{T: 's', S: "sys/attr/cardinality/one"}},
	{10, 1, vkey{T: 's', S: "sys/attr/cardinality/many"}},
	{17, 1, vkey{T: 's', S: "sys/attr/ref/type"}}, {17, 2, refKey(11)},
	{18, 1, vkey{T: 's', S: "sys/attr/ref/type/dependent"}},
	{19, 1, vkey{T: 's', S: "sys/db/rank"}}, {19, 2, refKey(13)},
}

const (
	aIdent  = ID(1)
	aType   = ID(2)
	aUnique = ID(3)
	aCard   = ID(4)
	aTxAt   = ID(6)
	aRef    = ID(17)
	aRank   = ID(19)
	firstID = ID(0x100000)
	maxID   = ID(1 << 62)
	// txnHole and newHole stand for ids that are known once the response is.
	txnHole = ID(1 << 60)
	newHole = ID(1<<60 + 1)
)

func validType(id ID) bool { return id >= 11 && id <= 16 }

func typeMatches(typ ID, v Value) bool {
	switch v.(type) {
	case ID:
		return typ == 11
	case String:
		return typ == 12
	case Int:
		return typ == 13
	case Bool:
		return typ == 14
	case Inst:
		return typ == 15
	case Float:
		return typ == 16
	}
	return false
}

// model is the reference model of a database.
type model struct {
	facts map[fact]ID
	attrs map[ID]mattr
	// issued are the ids known to have been issued to users.
	issued map[ID]bool
	// ents are the issued ids of entities, txns those of transactions, in order.
	ents []ID
	txns []ID
	// top is the greatest issued id; up to slack ids after it may have been issued unseen.
	top   ID
	slack int
}

func newModel() *model {
	m := &model{facts: map[fact]ID{}, issued: map[ID]bool{}, top: firstID - 1}
	for _, f := range sysFacts {
		m.facts[f] = 5
	}
	m.facts[fact{5, 6, vkey{T: 't', I: time.Time{}.UnixMilli()}}] = 5
	m.deriveAttrs()
	return m
}

func (m *model) clone() *model {
	c := &model{facts: make(map[fact]ID, len(m.facts)), attrs: m.attrs, issued: make(map[ID]bool, len(m.issued)), top: m.top, slack: m.slack}
	for k, v := range m.facts {
		c.facts[k] = v
	}
	for k := range m.issued {
		c.issued[k] = true
	}
	c.ents = append(c.ents, m.ents...)
	c.txns = append(c.txns, m.txns...)
	return c
}

func (m *model) deriveAttrs() {
	attrs := map[ID]mattr{}
	for f := range m.facts {
		if f.A == aType {
			a := attrs[f.E]
			a.Type = f.V.id()
			attrs[f.E] = a
		}
	}
	for f := range m.facts {
		a, ok := attrs[f.E]
		if !ok {
			continue
		}
		switch f.A {
		case aIdent:
			a.Ident = f.V.S
		case aCard:
			a.Card = f.V.id()
		case aUnique:
			a.Unique = f.V.id()
		default:
			continue
		}
		attrs[f.E] = a
	}
	m.attrs = attrs
}

func (m *model) sorted() []fact {
	list := make([]fact, 0, len(m.facts))
	for f := range m.facts {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return compareEAV(list[i], list[j]) < 0 })
	return list
}

// attrIDs are the ids of the declared attributes, in order.
func (m *model) attrIDs(user bool) (ids []ID) {
	for id := range m.attrs {
		if !user || id >= firstID {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return
}

// owner is the entity that holds a unique value.
func (m *model) owner(a ID, v vkey) (e ID) {
	for f := range m.facts {
		if f.A == a && f.V == v {
			return f.E
		}
	}
	return 0
}

func (m *model) ident(ident Ident) ID { return m.owner(aIdent, vkey{T: 's', S: string(ident)}) }

func (m *model) identOf(e ID) (ident string, ok bool) {
	for f := range m.facts {
		if f.E == e && f.A == aIdent {
			return f.V.S, true
		}
	}
	return
}

func (m *model) has(e ID) bool {
	for f := range m.facts {
		if f.E == e {
			return true
		}
	}
	return false
}

// lookup resolves a lookup, or returns 0.
func (m *model) lookup(ref LookupRef) ID {
	var a ID
	switch x := ref.A.(type) {
	case ID:
		a = x
	case Ident:
		a = m.ident(x)
	case LookupRef:
		a = m.lookup(x)
	}
	attr, ok := m.attrs[a]
	if !ok || attr.Unique == 0 || ref.V == nil || !typeMatches(attr.Type, ref.V) {
		return 0
	}
	return m.owner(a, keyOf(ref.V))
}

type idStatus int

const (
	idNever idStatus = iota
	idIssued
	idUnknown
	idSystem
)

// status tells whether a plain id has been issued.
func (m *model) status(id ID) idStatus {
	switch {
	case id == 0:
		return idNever
	case id < firstID:
		return idSystem
	case m.issued[id]:
		return idIssued
	case id <= m.top+ID(m.slack):
		return idUnknown
	}
	return idNever
}

// rclaim is a claim with its references resolved.
type rclaim struct {
	E, A    ID
	V       vkey
	Retract bool
	eTemp   TempID // "" unless the entity is a temp id
	eIsTemp bool
	vTemp   TempID
	vIsTemp bool
}

// verdict is what the model says of a request.
type verdict struct {
	// reject are the reasons for which the request must be rejected.
	reject []string
	// either are the reasons for which the outcome is left open.
	either []string
	// next is the state after the request, if accepted, with holes for new ids.
	next *model
	// temps are the ids (or holes) of the temp ids.
	temps map[TempID]ID
	// retracted are the entities retracted.
	retracted map[ID]bool
	// fresh are facts that may have either the new or their old transaction.
	fresh map[fact]bool
	// touched are the entities that may change, including holes.
	touched map[ID]bool
	// traits describe the request, for blaming properties.
	traits map[string]bool
	claims []rclaim
}

func (v *verdict) mustReject() bool { return len(v.reject) > 0 }
func (v *verdict) open() bool       { return len(v.reject) == 0 && len(v.either) > 0 }

// judge decides what the database must do with a request.
func (m *model) judge(req Request) *verdict {
	v := &verdict{temps: map[TempID]ID{}, retracted: map[ID]bool{}, fresh: map[fact]bool{}, touched: map[ID]bool{}, traits: map[string]bool{}}
	reject := func(reason string) { v.reject = append(v.reject, reason) }
	either := func(reason string) { v.either = append(v.either, reason) }
	for _, retraction := range req.Retractions {
		v.traits["retraction"] = true
		if len(retraction.Constraints) == 0 {
			reject("retraction-unconstrained")
			continue
		}
		ids := map[ID]bool{}
		certain := true
		for ref := range retraction.Constraints {
			var id ID
			switch x := ref.(type) {
			case ID:
				switch m.status(x) {
				case idNever:
					reject("retraction-unresolved")
					certain = false
					continue
				case idUnknown:
					either("unknown-id")
					certain = false
				}
				id = x
			case Ident:
				v.traits["ident-ref"] = true
				id = m.ident(x)
			case LookupRef:
				v.traits["lookup-ref"] = true
				id = m.lookup(x)
			}
			if id == 0 {
				reject("retraction-unresolved")
				certain = false
				continue
			}
			ids[id] = true
		}
		if len(ids) > 1 {
			reject("retraction-inconsistent")
			continue
		}
		for id := range ids {
			_, isAttr := m.attrs[id]
			switch {
			case id < firstID:
				reject("retraction-system")
			case isAttr:
				reject("retraction-attr")
			case !m.has(id) && certain:
				either("retraction-empty")
			}
			v.retracted[id] = true
			v.touched[id] = true
		}
	}
	// Resolve each claim's references against the state before the request.
	temps := map[TempID]bool{}
	for _, claim := range req.Claims {
		c := rclaim{Retract: claim.Retract}
		if claim.Retract {
			v.traits["retract-claim"] = true
		}
		bad := ""
		switch x := claim.E.(type) {
		case ID:
			c.E = x
			switch m.status(x) {
			case idNever:
				bad = "e-unresolved"
			case idSystem:
				bad = "system-entity"
			case idUnknown:
				either("unknown-id")
			}
		case Ident:
			v.traits["ident-ref"] = true
			if c.E = m.ident(x); c.E == 0 {
				bad = "e-unresolved"
			} else if c.E < firstID {
				bad = "system-entity"
			}
		case LookupRef:
			v.traits["lookup-ref"] = true
			if c.E = m.lookup(x); c.E == 0 {
				bad = "e-unresolved"
			} else if c.E < firstID {
				bad = "system-entity"
			}
		case TempID:
			v.traits["temp"] = true
			c.eTemp, c.eIsTemp = x, true
			temps[x] = true
		case TxnID:
			v.traits["txn"] = true
			c.E = txnHole
		default:
			bad = "e-unresolved"
		}
		if bad != "" {
			reject(bad)
		}
		badA := false
		switch x := claim.A.(type) {
		case ID:
			c.A = x
		case Ident:
			c.A = m.ident(x)
		case LookupRef:
			v.traits["lookup-ref"] = true
			c.A = m.lookup(x)
		}
		attr, ok := m.attrs[c.A]
		if !ok {
			reject("a-unresolved")
			badA = true
		}
		badV := ""
		switch x := claim.V.(type) {
		case nil:
			badV = "v-nil"
		case Ident:
			v.traits["ident-ref"] = true
			id := m.ident(x)
			if id == 0 {
				badV = "v-unresolved"
			} else if attr.Type != sys.AttrTypeRef {
				badV = "v-type"
			}
			c.V = refKey(id)
		case LookupRef:
			v.traits["lookup-ref"] = true
			id := m.lookup(x)
			if id == 0 {
				badV = "v-unresolved"
			} else if attr.Type != sys.AttrTypeRef {
				badV = "v-type"
			}
			c.V = refKey(id)
		case TempID:
			v.traits["temp"] = true
			c.vTemp, c.vIsTemp = x, true
			temps[x] = true
			if attr.Type != sys.AttrTypeRef {
				badV = "v-type"
			}
		case Value:
			c.V = keyOf(x)
			if !typeMatches(attr.Type, x) {
				badV = "v-type"
			}
		default:
			badV = "v-type"
		}
		if badV != "" && !badA {
			reject(badV)
		}
		if bad == "" && !badA && badV == "" {
			v.claims = append(v.claims, c)
		}
	}
	if len(v.reject) == 0 || len(v.claims) == len(req.Claims) {
		m.judgeClaims(v, temps)
	}
	return v
}

// coincides tells whether a value that is the plain id of no entity yet may be that of a new entity that is
// also a value of the attribute.
func (m *model) coincides(v *verdict, temps int) bool {
	forthcoming := func(v vkey) bool {
		id := v.id()
		return v.T == 'r' && id > m.top && id <= m.top+ID(m.slack)+ID(temps)+1
	}
	attrs := map[ID]bool{}
	for _, c := range v.claims {
		if c.vIsTemp && c.V.id() >= newHole {
			attrs[c.A] = true
		}
	}
	if len(attrs) == 0 {
		return false
	}
	for _, c := range v.claims {
		if !c.vIsTemp && attrs[c.A] && forthcoming(c.V) {
			return true
		}
	}
	for f := range m.facts {
		if attrs[f.A] && forthcoming(f.V) {
			return true
		}
	}
	return false
}

// judgeClaims resolves the temp ids and applies the rules about several claims.
func (m *model) judgeClaims(v *verdict, temps map[TempID]bool) {
	reject := func(reason string) { v.reject = append(v.reject, reason) }
	either := func(reason string) { v.either = append(v.either, reason) }
	// Claims that contradict one another however the temp ids resolve.
	for i, c := range v.claims {
		for _, d := range v.claims[:i] {
			if c.Retract || d.Retract || c.A != d.A || m.attrs[c.A].many() {
				continue
			}
			sameE := c.eIsTemp == d.eIsTemp && c.eTemp == d.eTemp && (c.eIsTemp || c.E == d.E)
			if sameE && !c.vIsTemp && !d.vIsTemp && c.V != d.V {
				reject("multiple-values")
			}
		}
	}
	// Temp ids are in classes, each with at most one known entity.
	parent := map[TempID]TempID{}
	known := map[TempID]ID{}
	names := make([]TempID, 0, len(temps))
	for t := range temps {
		parent[t] = t
		names = append(names, t)
	}
	sort.Slice(names, func(i, j int) bool { return names[i] < names[j] })
	find := func(t TempID) TempID {
		for parent[t] != t {
			t = parent[t]
		}
		return t
	}
	holes := map[TempID]ID{}
	for i, t := range names {
		holes[t] = newHole + ID(i)
	}
	resolve := func(t TempID) ID {
		root := find(t)
		if id := known[root]; id != 0 {
			return id
		}
		return holes[root]
	}
	conflict := false
	// node is either a temp id or a known entity.
	type node struct {
		t     TempID
		isT   bool
		known ID
	}
	unite := func(a, b node) (changed bool) {
		ka, kb := a.known, b.known
		if a.isT {
			ka = known[find(a.t)]
		}
		if b.isT {
			kb = known[find(b.t)]
		}
		if ka != 0 && kb != 0 {
			if ka != kb {
				conflict = true
			}
			return
		}
		switch {
		case a.isT && b.isT:
			ra, rb := find(a.t), find(b.t)
			if ra == rb {
				return
			}
			if ra > rb {
				ra, rb = rb, ra
			}
			parent[rb] = ra
			known[ra] = ka + kb
			changed = true
		case a.isT:
			known[find(a.t)] = kb
			changed = true
		case b.isT:
			known[find(b.t)] = ka
			changed = true
		}
		return
	}
	valueOf := func(c rclaim) vkey {
		if c.vIsTemp {
			return refKey(resolve(c.vTemp))
		}
		return c.V
	}
	for changed := true; changed && !conflict; {
		changed = false
		type av struct {
			a ID
			v vkey
		}
		claimants := map[av]node{}
		for _, c := range v.claims {
			if c.Retract || m.attrs[c.A].Unique != sys.AttrUniqueIdentity {
				continue
			}
			v.traits["identity"] = true
			n := node{c.eTemp, c.eIsTemp, c.E}
			key := av{c.A, valueOf(c)}
			if owner := m.owner(key.a, key.v); owner != 0 {
				if unite(n, node{known: owner}) {
					changed = true
				}
			}
			if other, ok := claimants[key]; ok {
				if unite(n, other) {
					changed = true
				}
			} else {
				claimants[key] = n
			}
		}
	}
	for t := range temps {
		v.temps[t] = resolve(t)
		v.touched[v.temps[t]] = true
	}
	for i := range v.claims {
		c := &v.claims[i]
		if c.eIsTemp {
			c.E = resolve(c.eTemp)
		}
		if c.vIsTemp {
			c.V = refKey(resolve(c.vTemp))
		}
		v.touched[c.E] = true
	}
	// Handovers of unique values within the request are left open, as is all that depends on them.
	removed := func(f fact) bool {
		if v.retracted[f.E] {
			return true
		}
		for _, c := range v.claims {
			if c.E != f.E || c.A != f.A {
				continue
			}
			if c.Retract && c.V == f.V || !c.Retract && !m.attrs[f.A].many() && c.V != f.V {
				return true
			}
		}
		return false
	}
	handover := false
	for _, c := range v.claims {
		if c.Retract || m.attrs[c.A].Unique == 0 {
			continue
		}
		v.traits["unique"] = true
		owner := m.owner(c.A, c.V)
		if owner == 0 || !removed(fact{owner, c.A, c.V}) {
			continue
		}
		if !c.eIsTemp && c.E == owner {
			continue
		}
		handover = true
		v.touched[owner] = true
	}
	if handover {
		either("handover")
	}
	if m.coincides(v, len(temps)) {
		either("coincidence")
		handover = true
	}
	global := func(reason string) {
		if handover {
			either(reason)
		} else {
			reject(reason)
		}
	}
	if conflict {
		global("identity-conflict")
	}
	// Unique values have one owner.
	for i, c := range v.claims {
		if c.Retract || m.attrs[c.A].Unique == 0 {
			continue
		}
		if owner := m.owner(c.A, c.V); owner != 0 && owner != c.E {
			global("unique-taken")
		}
		for _, d := range v.claims[:i] {
			if !d.Retract && c.A == d.A && c.V == d.V && c.E != d.E {
				global("unique-twice")
			}
		}
	}
	decls := map[ID]mattr{}
	idents := map[ID]string{}
	for i, c := range v.claims {
		attr := m.attrs[c.A]
		isAttr := false
		var def mattr
		if def, isAttr = m.attrs[c.E]; isAttr {
			v.traits["attr-entity"] = true
		}
		_, held := m.facts[fact{c.E, c.A, c.V}]
		if c.E < firstID {
			global("system-entity")
		}
		if attr.many() {
			v.traits["many"] = true
		} else {
			v.traits["one"] = true
		}
		for _, d := range v.claims[:i] {
			if c.E != d.E || c.A != d.A {
				continue
			}
			if c.V == d.V && c.Retract != d.Retract {
				either("assert-and-retract")
			}
			if c.V != d.V && !c.Retract && !d.Retract && !attr.many() {
				global("multiple-values")
			}
		}
		switch c.A {
		case aIdent:
			v.traits["ident"] = true
			s := c.V.S
			switch {
			case c.Retract && isAttr && held:
				global("attr-ident-retracted")
			case c.Retract && (isAttr || strings.HasPrefix(s, "sys/")):
				either("ident-not-held")
			case c.Retract:
			case strings.HasPrefix(s, "sys/"):
				reject("system-ident")
			case s == "sys" || s == "":
				either("odd-ident")
			case isAttr && s != def.Ident:
				global("attr-changed")
			}
			if !c.Retract {
				idents[c.E] = s
			}
		case aType, aCard, aUnique:
			v.traits["schema"] = true
			switch {
			case c.Retract && held:
				global("attr-retracted")
			case c.Retract:
				either("schema-not-held")
			case isAttr:
				switch {
				case held:
				case c.A == aCard && def.Card == 0 && c.V.id() == sys.AttrCardinalityOne:
					either("explicit-one")
				default:
					global("attr-changed")
				}
			default:
				decl := decls[c.E]
				if c.V.id() == 0 {
					global("attr-invalid")
				}
				switch c.A {
				case aType:
					decl.Type = c.V.id()
				case aCard:
					decl.Card = c.V.id()
				case aUnique:
					decl.Unique = c.V.id()
				}
				decls[c.E] = decl
			}
		case aRef:
			either("ref-type")
		}
	}
	for e, decl := range decls {
		v.traits["declare"] = true
		if v.retracted[e] {
			either("retracted-declaration")
			continue
		}
		if decl.Type == 0 {
			global("attr-incomplete")
		} else if !validType(decl.Type) {
			global("attr-invalid")
		}
		if decl.Card != 0 && decl.Card != sys.AttrCardinalityOne && decl.Card != sys.AttrCardinalityMany {
			global("attr-invalid")
		}
		if decl.Unique != 0 && decl.Unique != sys.AttrUniqueIdentity && decl.Unique != sys.AttrUniqueValue {
			global("attr-invalid")
		}
		if _, ok := idents[e]; !ok {
			if _, held := m.identOf(e); held {
				either("ident-not-restated")
			} else {
				global("attr-incomplete")
			}
		}
	}
	// An attribute keeps what it is declared by.
	last := map[fact]bool{}
	for _, c := range v.claims {
		last[fact{c.E, c.A, c.V}] = c.Retract
	}
	for f, undone := range last {
		if _, ok := decls[f.E]; ok && undone && (f.A == aType && f.V.id() == decls[f.E].Type || f.A == aIdent && f.V.S == idents[f.E]) {
			global("attr-undone")
		}
	}
	if len(v.reject) > 0 {
		return
	}
	// The effect.
	next := m.clone()
	for f := range m.facts {
		if v.retracted[f.E] {
			delete(next.facts, f)
		}
	}
	for _, c := range v.claims {
		f := fact{c.E, c.A, c.V}
		if c.Retract {
			delete(next.facts, f)
			continue
		}
		if _, ok := next.facts[f]; ok {
			continue
		}
		if !m.attrs[c.A].many() {
			for g := range next.facts {
				if g.E == c.E && g.A == c.A {
					delete(next.facts, g)
				}
			}
		}
		next.facts[f] = txnHole
		if _, ok := m.facts[f]; ok {
			v.fresh[f] = true
		}
	}
	v.next = next
}

// commit fills the holes of the next state with the ids of the response.
func (v *verdict) commit(holes map[ID]ID) *model {
	next := v.next
	fill := func(id ID) ID {
		if to, ok := holes[id]; ok {
			return to
		}
		return id
	}
	facts := make(map[fact]ID, len(next.facts))
	for f, t := range next.facts {
		f.E = fill(f.E)
		if f.V.T == 'r' {
			f.V.I = int64(fill(f.V.id()))
		}
		facts[f] = fill(t)
	}
	fresh := map[fact]bool{}
	for f := range v.fresh {
		f.E = fill(f.E)
		if f.V.T == 'r' {
			f.V.I = int64(fill(f.V.id()))
		}
		fresh[f] = true
	}
	v.fresh = fresh
	next.facts = facts
	next.deriveAttrs()
	return next
}

// issue records the ids of an accepted response.
func (m *model) issue(txn ID, temps map[TempID]ID) {
	add := func(id ID, list *[]ID) {
		if id >= firstID && !m.issued[id] {
			m.issued[id] = true
			*list = append(*list, id)
		}
		if id > m.top && id < maxID {
			m.top = id
		}
	}
	add(txn, &m.txns)
	names := make([]string, 0, len(temps))
	before := m.top
	for t := range temps {
		names = append(names, string(t))
	}
	sort.Strings(names)
	for _, t := range names {
		add(temps[TempID(t)], &m.ents)
	}
	// Ids may have been issued to temp ids that resolved to other entities.
	used := int(m.top - before)
	if unseen := len(temps) - used; unseen > 0 {
		m.slack = unseen
	} else {
		m.slack = 0
	}
}
