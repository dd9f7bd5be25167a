package verifharness

import (
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"

	. "github.com/dball/destructive/internal/types"
	pkg "github.com/dball/destructive/pkg/database"
	"pgregory.net/rapid"
)

// The types of graphs share the attributes of their names, so an entity may have instances of several.
type gNode struct {
	Next  *gNode            `attr:"g/next"`
	ID    uint64            `attr:"sys/db/id"`
	Name  string            `attr:"g/name,identity,ignoreempty"`
	Tag   string            `attr:"g/tag,ignoreempty"`
	N     *int              `attr:"g/n"`
	Other *gNode            `attr:"g/other"`
	Leaf  *gLeaf            `attr:"g/leaf"`
	Kids  map[string]*gNode `attr:"g/kids,key=g/tag"`
	Val   *gVal             `attr:"g/val"`
	Link  *gLink            `attr:"g/link"`
}

// gLink has but one field.
type gLink struct {
	To *gLink `attr:"g/link"`
}

// gLinks show the ids of gLinks.
type gLinks struct {
	ID uint64  `attr:"sys/db/id"`
	To *gLinks `attr:"g/link"`
}

type gBox struct {
	In    gVal            `attr:"g/in"`
	ID    uint64          `attr:"sys/db/id"`
	Name  string          `attr:"g/name,identity,ignoreempty"`
	Tag   string          `attr:"g/tag,ignoreempty"`
	Vals  map[string]gVal `attr:"g/vals,key=g/tag"`
	List  []gVal          `attr:"g/list"`
	Node  *gNode          `attr:"g/node"`
	LeafV gLeaf           `attr:"g/leafv"`
	Peer  *gBox           `attr:"g/peer"`
	Nodes []gNode         `attr:"g/nodes"`
	Mid   gMid            `attr:"g/mid"`
	Mids  map[string]gMid `attr:"g/mids,key=g/tag"`
}

type gMid struct {
	Leaf gLeaf  `attr:"g/leafv"`
	ID   uint64 `attr:"sys/db/id"`
	Name string `attr:"g/name,identity,ignoreempty"`
	Tag  string `attr:"g/tag,ignoreempty"`
	N    *int   `attr:"g/n"`
	To   *gNode `attr:"g/to"`
	Top  *gTop  `attr:"g/top"`
}

// gTop contains structs that contain structs that contain structs.
type gTop struct {
	ID    uint64          `attr:"sys/db/id"`
	Name  string          `attr:"g/name,identity,ignoreempty"`
	Box   gBox            `attr:"g/boxv"`
	Tag   string          `attr:"g/tag,ignoreempty"`
	Boxes []gBox          `attr:"g/boxes"`
	Mids  []gMid          `attr:"g/midl"`
	ByTag map[string]gBox `attr:"g/boxm,key=g/tag"`
	Mid   *gMid           `attr:"g/mid"`
}

type gVal struct {
	ID   uint64           `attr:"sys/db/id"`
	Name string           `attr:"g/name,identity,ignoreempty"`
	Tag  string           `attr:"g/tag,ignoreempty"`
	N    *int             `attr:"g/n"`
	To   *gNode           `attr:"g/to"`
	Box  *gBox            `attr:"g/box"`
	Self map[string]gVal  `attr:"g/vals,key=g/tag"`
	Ptrs map[string]*gVal `attr:"g/ptrs,key=g/tag"`
	List []gVal           `attr:"g/list"`
	Next *gVal            `attr:"g/next"`
}

type gLeaf struct {
	X    int              `attr:"g/n"`
	Back *gNode           `attr:"g/back"`
	Name string           `attr:"g/name,identity,ignoreempty"`
	Tag  string           `attr:"g/tag,ignoreempty"`
	ID   uint64           `attr:"sys/db/id"`
	Byte map[MyStr]*gLeaf `attr:"g/kids,key=g/tag"`
}

type gStub struct {
	ID uint64 `attr:"sys/db/id"`
}

// gScan is all that an entity may have; written without values, it declares the attributes.
type gScan struct {
	ID    uint64            `attr:"sys/db/id"`
	Name  *string           `attr:"g/name,identity"`
	Tag   *string           `attr:"g/tag"`
	N     *int              `attr:"g/n"`
	Next  *gStub            `attr:"g/next"`
	Other *gStub            `attr:"g/other"`
	Leaf  *gStub            `attr:"g/leaf"`
	Val   *gStub            `attr:"g/val"`
	In    *gStub            `attr:"g/in"`
	Node  *gStub            `attr:"g/node"`
	LeafV *gStub            `attr:"g/leafv"`
	Peer  *gStub            `attr:"g/peer"`
	To    *gStub            `attr:"g/to"`
	Box   *gStub            `attr:"g/box"`
	Back  *gStub            `attr:"g/back"`
	Kids  map[uint64]*gStub `attr:"g/kids"`
	Vals  map[uint64]gStub  `attr:"g/vals"`
	Ptrs  map[uint64]*gStub `attr:"g/ptrs"`
	List  map[uint64]gStub  `attr:"g/list"`
	Nodes map[uint64]*gStub `attr:"g/nodes"`
	Mid   *gStub            `attr:"g/mid"`
	Top   *gStub            `attr:"g/top"`
	BoxV  *gStub            `attr:"g/boxv"`
	Mids  map[uint64]gStub  `attr:"g/mids"`
	Boxes map[uint64]gStub  `attr:"g/boxes"`
	MidL  map[uint64]gStub  `attr:"g/midl"`
	BoxM  map[uint64]gStub  `attr:"g/boxm"`
	Link  *gStub            `attr:"g/link"`
}

// gLists and gTags have other collections of the same attributes, only for finding.
type gLists struct {
	List  map[string]gVal  `attr:"g/list,key=g/tag"`
	Vals  []gVal           `attr:"g/vals"`
	ID    uint64           `attr:"sys/db/id"`
	Nodes map[int]*gNode   `attr:"g/nodes,key=g/n"`
	Boxes []MyStr          `attr:"g/boxes,value=g/tag"`
	MidL  map[string]*gMid `attr:"g/midl,key=g/name"`
	Kids  []gLeaf          `attr:"g/kids"`
	To    gBox             `attr:"g/to"`
}

type gTags struct {
	ID    uint64           `attr:"sys/db/id"`
	List  []string         `attr:"g/list,value=g/tag"`
	Vals  []int            `attr:"g/vals,value=g/n"`
	Kids  map[MyInt]gLists `attr:"g/kids,key=g/n"`
	BoxM  map[uint64]gBox  `attr:"g/boxm"`
	Nodes map[MyStr]*gTags `attr:"g/nodes,key=g/tag"`
	Next  *gTags           `attr:"g/next"`
	MidL  []MyStr          `attr:"g/midl,value=g/name"`
}

// graphViews are what entities are found as.
var graphViews = []string{"gNode", "gBox", "gVal", "gLeaf", "gMid", "gTop", "gLists", "gTags", "gLink", "gLinks"}

var graphTypes = []reflect.Type{reflect.TypeFor[gNode](), reflect.TypeFor[gBox](), reflect.TypeFor[gVal](), reflect.TypeFor[gLeaf](), reflect.TypeFor[gMid](), reflect.TypeFor[gTop](), reflect.TypeFor[gLink]()}

func init() {
	info := func(name string) typeInfo { return typeInfo{Name: name, Role: "graph", Family: -4} }
	regType[gNode](info("gNode"))
	regType[gBox](info("gBox"))
	regType[gVal](info("gVal"))
	regType[gLeaf](info("gLeaf"))
	regType[gMid](info("gMid"))
	regType[gTop](info("gTop"))
	regType[gScan](info("gScan"))
	regType[gLists](info("gLists"))
	regType[gTags](info("gTags"))
	regType[gLink](info("gLink"))
	regType[gLinks](info("gLinks"))
}

// graphCase is a history of requests of linked structs.
type graphCase struct {
	Steps []graphStep `json:"steps"`
}

type graphStep struct {
	Objs  []graphObj `json:"objs"`
	Roots []viewUse  `json:"roots"`
	// Retract are numbers of entities that have datums.
	Retract []int `json:"retract,omitempty"`
	// Chain nodes follow the first object, back to which the last refers if it is even; every third is also a kid.
	Chain int `json:"chain,omitempty"`
	// Views are entities to find as types, too.
	Views []viewRead `json:"views,omitempty"`
}

type graphObj struct {
	Type int `json:"t"`
	// ID is the number of a known entity plus one.
	ID int `json:"id,omitempty"`
	// Name is from a small pool, 0 is none.
	Name int `json:"name,omitempty"`
	Tag  int `json:"tag,omitempty"`
	// Bare has no links.
	Bare bool  `json:"bare,omitempty"`
	Feed []int `json:"feed,omitempty"`
}

var graphNames = []string{"", "a", "b", "c", "d", "e", "f"}

// graphObjs makes the objects of a step.
func (s *viewRun) graphObjs(specs []graphObj) (objs []reflect.Value) {
	for _, o := range specs {
		objs = append(objs, reflect.New(mod(graphTypes, o.Type)))
	}
	feeds := make([]*feed, len(objs))
	// The scalars come first, for maps need the tags.
	for i, o := range specs {
		v := objs[i].Elem()
		f := &feed{data: o.Feed}
		feeds[i] = f
		if _, ok := objs[i].Interface().(*gLink); ok {
			continue
		}
		if o.ID > 0 {
			id, _ := at(s.m.ents, o.ID-1)
			v.FieldByName("ID").SetUint(uint64(id))
		}
		v.FieldByName("Name").SetString(mod(graphNames, o.Name))
		if o.Tag > 0 {
			v.FieldByName("Tag").SetString(fmt.Sprintf("t%d", o.Tag))
		}
		n := f.n()
		if x := v.FieldByName("N"); x.IsValid() && n%3 > 0 {
			x.Set(reflect.ValueOf(&n))
		}
		if x := v.FieldByName("X"); x.IsValid() {
			x.SetInt(int64(n))
		}
	}
	// What is copied comes before the copies, lest they contain themselves.
	fits := func(typ reflect.Type, objs []reflect.Value) (fit []reflect.Value) {
		for _, o := range objs {
			if o.Elem().Type() == typ {
				fit = append(fit, o)
			}
			if o.Elem().Type() == graphTypes[1] && typ == graphTypes[2] {
				// A struct within another, at the same address.
				fit = append(fit, o.Elem().FieldByName("In").Addr())
			}
			if o.Elem().Type() == graphTypes[4] && typ == graphTypes[3] {
				fit = append(fit, o.Elem().FieldByName("Leaf").Addr())
			}
		}
		return
	}
	copied := 0
	copyOf := func(o reflect.Value) (v reflect.Value, ok bool) {
		n := valueSize(o.Elem())
		if copied+n > 60 {
			return
		}
		copied += n
		v = reflect.New(o.Type().Elem()).Elem()
		v.Set(o.Elem())
		if t := v.Type(); (t == graphTypes[1] || t == graphTypes[4]) && copied%4 > 0 {
			// Twice on record under one name, it would contain two different structs in one place.
			v.FieldByName("Name").SetString("")
		}
		return v, true
	}
	// Then what refers to objects, and at last what copies them.
	for pass := 0; pass < 2; pass++ {
		for i, o := range specs {
			v := objs[i].Elem()
			for j := 0; j < v.NumField(); j++ {
				fv := v.Field(j)
				n := 0
				var fit []reflect.Value
				many := 0
				isPtr := false
				switch fv.Kind() {
				case reflect.Pointer:
					if fv.Type().Elem().Kind() == reflect.Struct {
						fit, many, isPtr = fits(fv.Type().Elem(), objs), 1, true
					}
				case reflect.Struct:
					fit, many = fits(fv.Type(), objs[:i]), 1
				case reflect.Map:
					elem := fv.Type().Elem()
					isPtr = elem.Kind() == reflect.Pointer
					if isPtr {
						elem = elem.Elem()
					}
					fit, many = fits(elem, objs[:i]), 3
					if isPtr {
						fit = fits(elem, objs)
					}
				case reflect.Slice:
					fit, many = fits(fv.Type().Elem(), objs[:i]), 3
				}
				if many == 0 || isPtr != (pass == 0) || o.Bare {
					continue
				}
				n = feeds[i].n()
				if n%4 == 0 || len(fit) == 0 {
					continue
				}
				n /= 4
				switch fv.Kind() {
				case reflect.Pointer:
					fv.Set(mod(fit, n))
				case reflect.Struct:
					if x, ok := copyOf(mod(fit, n)); ok {
						fv.Set(x)
					}
				case reflect.Map:
					fv.Set(reflect.MakeMap(fv.Type()))
					for k := 0; k < 1+n%many; k++ {
						x := mod(fit, feeds[i].n())
						tag := x.Elem().FieldByName("Tag").String()
						if tag == "" {
							continue
						}
						key := reflect.ValueOf(tag).Convert(fv.Type().Key())
						if isPtr {
							fv.SetMapIndex(key, x)
						} else if x, ok := copyOf(x); ok {
							fv.SetMapIndex(key, x)
						}
					}
				case reflect.Slice:
					for k := 0; k < 1+n%many; k++ {
						if x, ok := copyOf(mod(fit, feeds[i].n())); ok {
							fv.Set(reflect.Append(fv, x))
						}
					}
				}
			}
		}
	}
	return
}

// valueSize is the number of structs that a struct comprises by value.
func valueSize(v reflect.Value) (n int) {
	n = 1
	for i := 0; i < v.NumField(); i++ {
		switch fv := v.Field(i); fv.Kind() {
		case reflect.Struct:
			n += valueSize(fv)
		case reflect.Map:
			if fv.Type().Elem().Kind() == reflect.Struct {
				for _, k := range fv.MapKeys() {
					n += valueSize(fv.MapIndex(k))
				}
			}
		case reflect.Slice:
			for j := 0; j < fv.Len(); j++ {
				n += valueSize(fv.Index(j))
			}
		}
	}
	return
}

// graphWalk compares a graph found with the facts of a model.
type graphWalk struct {
	s     *viewRun
	byE   map[ID][]fact
	binds map[ID]ID
	bound map[ID]ID
	// known are ids that are no new entities'.
	known map[ID]bool
	ptrs  map[entType]uintptr
	ents  map[objKey]ID
	seen  map[string]bool
	// loose are the places where the written data do not determine what is found.
	loose  int
	shared int
	steps  int
}

type entType struct {
	e   ID
	typ reflect.Type
}

func (w *graphWalk) reset() {
	w.ptrs, w.ents, w.seen = map[entType]uintptr{}, map[objKey]ID{}, map[string]bool{}
}

// id is the id of an entity, 0 if it is not known yet.
func (w *graphWalk) id(e ID) ID {
	if e < txnHole {
		return e
	}
	return w.binds[e]
}

func (w *graphWalk) values(e, a ID) (vs []vkey) {
	for _, f := range w.byE[e] {
		if f.A == a {
			vs = append(vs, f.V)
		}
	}
	return
}

func (w *graphWalk) pointer(e ID, p reflect.Value, path string) string {
	if p.IsNil() {
		return path + " is nil"
	}
	key := entType{e, p.Type().Elem()}
	obj := objKey{p.Type().Elem(), p.Pointer()}
	if p.Type().Elem().Size() == 0 {
		return ""
	}
	if ptr, ok := w.ptrs[key]; ok {
		w.shared++
		if ptr != p.Pointer() {
			return path + " is another struct than the one found elsewhere for the same entity"
		}
		return ""
	}
	if other, ok := w.ents[obj]; ok {
		return fmt.Sprintf("%s is the same struct as the one found elsewhere for another entity (%d, not %d)", path, w.id(other), w.id(e))
	}
	w.ptrs[key] = p.Pointer()
	w.ents[obj] = e
	return w.value(e, p.Elem(), path)
}

func (w *graphWalk) value(e ID, v reflect.Value, path string) string {
	w.steps++
	if w.steps > 100000 {
		panic(harnessError("a graph is too big"))
	}
	fields := tfields(v.Type())
	facts := w.byE[e]
	for _, f := range fields {
		if !f.isID() {
			continue
		}
		id := ID(v.Field(f.index).Uint())
		switch {
		case len(facts) == 0:
			if id != 0 {
				return fmt.Sprintf("%s has the id %d, but must be empty", path, id)
			}
		case w.id(e) == 0:
			if id < firstID || w.known[id] || w.bound[id] != 0 {
				return fmt.Sprintf("%s has the id %d, which is not that of a new entity", path, id)
			}
			w.binds[e], w.bound[id] = id, e
		case id != w.id(e):
			return fmt.Sprintf("%s has the id %d, not %d", path, id, w.id(e))
		}
	}
	for _, f := range fields {
		if f.isID() {
			continue
		}
		p := path + "." + f.name
		fv := v.Field(f.index)
		vals := w.values(e, w.s.attrs[f.ident])
		var diff string
		switch {
		case fv.Kind() == reflect.Map:
			diff = w.mapOf(f, vals, fv, p)
		case fv.Kind() == reflect.Slice:
			diff = w.slice(f, vals, fv, p)
		case len(vals) == 0:
			if !fv.IsZero() && !(fv.Kind() == reflect.Struct && w.value(0, fv, p) == "") {
				diff = fmt.Sprintf("%s is %s, but must be empty", p, show(fv))
			}
		case fv.Kind() == reflect.Pointer && scalarType(fv.Type().Elem()) == 0:
			diff = w.pointer(vals[0].id(), fv, p)
		case fv.Kind() == reflect.Struct && scalarType(fv.Type()) == 0:
			diff = w.value(vals[0].id(), fv, p)
		default:
			if fv.Kind() == reflect.Pointer {
				if fv.IsNil() {
					diff = p + " is nil"
					break
				}
				fv = fv.Elem()
			}
			if scalarKey(fv) != vals[0] {
				diff = fmt.Sprintf("%s is %s, not %v", p, show(fv), vals[0].value())
			}
		}
		if diff != "" {
			return diff
		}
	}
	return ""
}

func (w *graphWalk) mapOf(f tfield, vals []vkey, m reflect.Value, path string) string {
	byKey := map[string][]ID{}
	unknown := 0
	for _, v := range vals {
		var key reflect.Value
		if f.key == "" {
			id := w.id(v.id())
			if id == 0 || id > 1<<60 {
				unknown++
				continue
			}
			key = reflect.ValueOf(uint64(id))
		} else {
			keys := w.values(v.id(), w.s.attrs[f.key])
			if len(keys) == 0 {
				continue
			}
			if key = reflect.ValueOf(keys[0].S); keys[0].T != 's' {
				key = reflect.ValueOf(keys[0].I)
			}
		}
		byKey[fmt.Sprint(key)] = append(byKey[fmt.Sprint(key)], v.id())
	}
	if m.Len() != len(byKey)+unknown {
		return fmt.Sprintf("%s has %d entries, not %d", path, m.Len(), len(byKey)+unknown)
	}
	if len(vals) == 0 && !m.IsNil() {
		return path + " is not nil"
	}
	keys := m.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	for _, k := range keys {
		p := fmt.Sprintf("%s[%v]", path, k)
		es := byKey[fmt.Sprint(k)]
		switch len(es) {
		case 0:
			if unknown == 0 {
				return p + " is not expected"
			}
		case 1:
			diff := ""
			if elem := m.MapIndex(k); elem.Kind() == reflect.Pointer {
				diff = w.pointer(es[0], elem, p)
			} else if seen := fmt.Sprint(es[0], elem.Type(), m.Pointer(), k); !w.seen[seen] {
				w.seen[seen] = true
				diff = w.value(es[0], elem, p)
			}
			if diff != "" {
				return diff
			}
		default:
			w.loose++
		}
	}
	return ""
}

func (w *graphWalk) slice(f tfield, vals []vkey, l reflect.Value, path string) string {
	type ranked struct {
		rank int64
		e    ID
	}
	var list []ranked
	for _, v := range vals {
		for _, r := range w.values(v.id(), aRank) {
			list = append(list, ranked{r.I, v.id()})
		}
	}
	if l.Len() != len(list) {
		return fmt.Sprintf("%s has %d elements, not %d", path, l.Len(), len(list))
	}
	sort.Slice(list, func(i, j int) bool { return list[i].rank < list[j].rank })
	for i, r := range list {
		if i > 0 && list[i-1].rank == r.rank || i+1 < len(list) && list[i+1].rank == r.rank {
			w.loose++
			continue
		}
		elem := l.Index(i)
		if f.value != "" {
			if vs := w.values(r.e, w.s.attrs[f.value]); len(vs) > 0 && scalarKey(elem) != vs[0] || len(vs) == 0 && !elem.IsZero() {
				return fmt.Sprintf("%s[%d] is %s, not %v", path, i, show(elem), vs)
			}
			continue
		}
		seen := fmt.Sprint(r.e, elem.Type(), elem.Addr().Pointer())
		if w.seen[seen] {
			continue
		}
		w.seen[seen] = true
		if diff := w.value(r.e, elem, fmt.Sprintf("%s[%d]", path, i)); diff != "" {
			return diff
		}
	}
	return ""
}

// find finds an entity as a type and compares.
func (w *graphWalk) find(snap *pkg.Snapshot, e ID, id uint64, name string, what string) {
	v, err := types[name].find(snap, id)
	if err != nil {
		w.s.fail("view", []string{"C19", "C22"}, "%s: building a view of %s: %v", what, name, err)
		return
	}
	if len(w.byE[e]) == 0 {
		if !v.IsNil() {
			w.s.fail("graph", []string{"C19", "C20", "C22"}, "%s: %d is found as %s, but has no datums", what, id, name)
		}
		return
	}
	if v.IsNil() {
		w.s.fail("graph", []string{"C22", "C16", "C19"}, "%s: %d is not found as %s", what, id, name)
		return
	}
	w.reset()
	if diff := w.value(e, v.Elem(), name); diff != "" {
		props := []string{"C22", "C19"}
		if w.s.retracted > 0 {
			props = append(props, "C20")
		}
		w.s.fail("graph", props, "%s: finding %d: %s", what, id, diff)
	}
}

func (w *graphWalk) index(facts map[fact]ID) {
	w.byE = map[ID][]fact{}
	for f := range facts {
		w.byE[f.E] = append(w.byE[f.E], f)
	}
}

func (s *viewRun) graphStep(n int, step graphStep, stats *graphStats) (ok bool) {
	objs := s.graphObjs(step.Objs)
	if step.Chain > 0 && len(objs) > 0 && objs[0].Elem().Type() == graphTypes[0] {
		first := objs[0].Interface().(*gNode)
		last := first
		for i := 0; i < step.Chain; i++ {
			n := i
			node := &gNode{N: &n, Tag: fmt.Sprintf("c%d", i)}
			last.Next = node
			if i%3 == 0 {
				if first.Kids == nil {
					first.Kids = map[string]*gNode{}
				}
				first.Kids[node.Tag] = node
			}
			last = node
		}
		if step.Chain%2 == 0 {
			last.Other = first
		}
		s.class("chain")
	}
	x := &shred{s: s, ptrs: map[objKey]ERef{}}
	var req pkg.Request
	var roots []ERef
	var typs, text []string
	for _, k := range step.Retract {
		var live []ID
		for _, id := range s.m.ents {
			if s.m.has(id) {
				live = append(live, id)
			}
		}
		if id, ok := at(live, k); ok {
			o := gStub{ID: uint64(id)}
			x.retract(reflect.ValueOf(o))
			req.Retractions = append(req.Retractions, o)
			text = append(text, fmt.Sprintf("retract %d", id))
		}
	}
	for _, u := range step.Roots {
		if u.Obj >= len(objs) {
			continue
		}
		o := objs[u.Obj]
		e, _ := x.assert(o.Elem(), !u.Val)
		roots = append(roots, e)
		typs = append(typs, o.Elem().Type().Name())
		if u.Val {
			req.Assertions = append(req.Assertions, o.Elem().Interface())
			text = append(text, typs[len(typs)-1])
		} else {
			req.Assertions = append(req.Assertions, o.Interface())
			text = append(text, "*"+typs[len(typs)-1])
		}
	}
	if len(req.Retractions)+len(roots) == 0 {
		return true
	}
	props := []string{"C22", "C18"}
	if len(req.Retractions) > 0 {
		stats.retracted = true
		props = append(props, "C20")
	}
	what := fmt.Sprintf("step %d: assert %s", n, strings.Join(text, ", "))
	v := s.m.judge(x.req)
	v.either = append(v.either, x.either...)
	v.reject = append(v.reject, x.reject...)
	var res pkg.Response
	if !s.guard(what, func() { res = s.db.Write(req) }) {
		return false
	}
	switch {
	case v.mustReject():
		for _, reason := range v.reject {
			s.class("reject:" + reason)
		}
		if res.Error == nil {
			s.fail("accepted", props, "%s was accepted, but %v", what, v.reject)
			return false
		}
	case v.open():
		for _, reason := range v.either {
			s.class("either:" + reason)
		}
		stats.open = true
		return false
	case res.Error != nil:
		s.fail("rejected", props, "%s was rejected: %v", what, res.Error)
		return false
	}
	w := &graphWalk{s: s, binds: map[ID]ID{}, bound: map[ID]ID{}, known: s.m.issued}
	if res.Error != nil {
		w.index(s.m.facts)
	} else {
		s.accepted++
		if len(req.Retractions) > 0 {
			s.retracted++
		}
		if len(res.IDs) != len(roots) {
			s.fail("ids", []string{"C16", "C22"}, "%s: the response has ids %v", what, res.IDs)
			return false
		}
		w.index(v.next.facts)
		s.guard("reading after "+what, func() {
			for i, ref := range roots {
				e, isID := ref.(ID)
				if !isID {
					e = v.temps[ref.(TempID)]
				}
				if e == 0 || len(w.byE[e]) == 0 {
					s.class("empty root")
					continue
				}
				if id := w.id(e); id != 0 && id != ID(res.IDs[i]) {
					s.fail("ids", []string{"C22", "C18"}, "%s: the id of assertion %d is %d, not %d", what, i, res.IDs[i], id)
					return
				}
				if id := ID(res.IDs[i]); typs[i] == "gLink" && w.id(e) == 0 && w.bound[id] == 0 && !w.known[id] {
					w.binds[e], w.bound[id] = id, e
				}
				w.find(res.Snap, e, res.IDs[i], typs[i], what)
				if len(s.mismatches) > 0 {
					return
				}
				if id := w.id(e); id != ID(res.IDs[i]) {
					s.fail("ids", []string{"C22", "C18"}, "%s: the id of assertion %d is %d, not %d", what, i, res.IDs[i], id)
					return
				}
			}
		})
		// The types without ids do not show those.
		var linked []ID
		for e := range w.byE {
			if id := w.id(e); id != 0 && len(w.values(e, s.attrs["g/link"])) > 0 {
				linked = append(linked, e)
			}
		}
		slices.Sort(linked)
		s.guard("reading after "+what, func() {
			for _, e := range linked {
				w.find(res.Snap, e, uint64(w.id(e)), "gLinks", what)
			}
		})
		if len(s.mismatches) > 0 {
			return false
		}
		stats.shared += w.shared
		// The empty entities' ids are not known, nor are those behind what is loose.
		holes := map[ID]ID{}
		temps := map[TempID]ID{}
		for f := range v.next.facts {
			for _, id := range []ID{f.E, f.V.id()} {
				if (id == f.E || f.V.T == 'r') && id >= txnHole && id < 1<<61 && holes[id] == 0 {
					if to := w.binds[id]; to != 0 {
						holes[id] = to
						s.temps++
						temps[TempID(fmt.Sprintf("t%d", s.temps))] = to
						continue
					}
					if len(w.byE[id]) > 0 {
						stats.loose = true
					}
					s.holes++
					holes[id] = ID(1<<61 + s.holes)
				}
			}
		}
		s.m = v.commit(holes)
		s.issue(temps)
		if stats.loose {
			s.class("loose")
			return false
		}
	}
	w = &graphWalk{s: s, binds: map[ID]ID{}, bound: map[ID]ID{}, known: map[ID]bool{}}
	w.index(s.m.facts)
	for _, snap := range []*pkg.Snapshot{res.Snap, s.db.Read()} {
		if snap == nil {
			s.fail("no-snapshot", []string{"C02"}, "%s: no snapshot (error %v)", what, res.Error)
			return false
		}
		s.guard("reading after "+what, func() {
			for id := firstID; id <= s.m.top+12; id++ {
				if _, isAttr := s.m.attrs[id]; isAttr {
					continue
				}
				w.find(snap, id, uint64(id), "gScan", "after "+what)
			}
			for _, r := range step.Views {
				if id, ok := at(s.m.ents, r.Ent); ok {
					w.find(snap, id, uint64(id), mod(graphViews, r.Type), "after "+what)
				}
			}
		})
		if len(s.mismatches) > 0 {
			return false
		}
	}
	stats.shared += w.shared
	return true
}

type graphStats struct {
	shared      int
	loose, open bool
	retracted   bool
}

func runGraphs(r *run, c *graphCase) (s *viewRun, stats graphStats) {
	s = declareViews(r, gScan{})
	if s == nil {
		return
	}
	for i, step := range c.Steps {
		if !s.graphStep(i+1, step, &stats) {
			return
		}
	}
	return
}

func graphReads(t *rapid.T, min int) []viewRead {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) viewRead {
		return viewRead{Type: pick(t, len(graphViews)), Ent: pick(t, 20)}
	}), min, 6).Draw(t, "views")
}

// graphGen makes cases of which a percentage of the steps retracts.
func graphGen(retract int) func(t *rapid.T) any {
	return func(t *rapid.T) any { return drawGraph(t, retract) }
}

func drawGraph(t *rapid.T, retract int) any {
	dense := chance(t, 50)
	step := rapid.Custom(func(t *rapid.T) (s graphStep) {
		named := map[int]bool{}
		obj := rapid.Custom(func(t *rapid.T) (o graphObj) {
			o.Type = choose(t, 5, 3, 4, 2, 2, 2, 2)
			if chance(t, 12) {
				o.ID = 1 + pick(t, 12)
			}
			if chance(t, 45) && (o.ID == 0 || chance(t, 25)) {
				o.Name = pick(t, len(graphNames))
			}
			if chance(t, 70) {
				o.Tag = 1 + pick(t, 9)
			}
			o.Feed = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int {
				if !dense && chance(t, 50) {
					return 0
				}
				return pick(t, 64)
			}), 0, 20).Draw(t, "feed")
			return
		})
		least, most := 1, 6
		if chance(t, 2) {
			least, most = 12, 25
		}
		s.Objs = rapid.SliceOfN(obj, least, most).Draw(t, "objs")
		if chance(t, 3) {
			s.Objs[0].Type = 0
			s.Chain = 10 + pick(t, 90)
			if chance(t, 4) {
				s.Chain = 1000 + pick(t, 500)
			}
		}
		for i := range s.Objs {
			o := &s.Objs[i]
			if o.Name == 0 || o.Type == 6 {
				continue
			}
			if chance(t, 70) {
				o.Tag = o.Name
			}
			if named[o.Name] && !chance(t, 15) {
				// It denotes what another describes.
				o.Bare, o.Feed = true, nil
			}
			named[o.Name] = true
		}
		if chance(t, retract) {
			s.Retract = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int { return pick(t, 12) }), 1, 2).Draw(t, "retract")
			if chance(t, 60) {
				s.Objs = nil
				s.Views = graphReads(t, 2)
				return
			}
		}
		n := 1 + choose(t, 6, 3, 1)
		if most > 6 {
			n = 12 + pick(t, 20)
		}
		for i := 0; i < n; i++ {
			s.Roots = append(s.Roots, viewUse{Obj: pick(t, len(s.Objs)), Val: chance(t, 30)})
		}
		s.Views = graphReads(t, 0)
		return
	})
	return &graphCase{Steps: rapid.SliceOfN(step, 1, 4).Draw(t, "steps")}
}

func graphCheck(retract int, rule string, nontrivial func(s *viewRun, stats graphStats) bool) check {
	return check{
		rule:  "A case is a list of requests that assert structs of seven types linked by pointers, maps, slices and by value, with sharing, cycles, identity names and ids, and retract some; what is found, as these types or others with different collections of the same attributes, is walked along with the expected graph, comparing fields and where paths meet. " + rule,
		gen:   graphGen(retract),
		blank: func() any { return &graphCase{} },
		run: func(c any, r *run) {
			s, stats := runGraphs(r, c.(*graphCase))
			if s == nil {
				return
			}
			if stats.open {
				r.class("ends open")
			}
			if stats.retracted {
				r.class("retracts")
			}
			r.class(fmt.Sprintf("accepted:%d", s.accepted))
			r.nontrivial = nontrivial(s, stats)
		},
	}
}

func init() {
	register("C22", graphCheck(8, "Non-trivial: at least one accepted request, and a struct found that two paths below the root lead to.",
		func(s *viewRun, stats graphStats) bool { return s.accepted > 0 && stats.shared > 0 }))
}
