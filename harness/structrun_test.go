package verifharness

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	pkg "github.com/dball/destructive/pkg/database"
	"pgregory.net/rapid"
)

// structCase is a history of struct writes of generated types.
type structCase struct {
	Steps []structStep `json:"steps"`
}

type structStep struct {
	Items []structItem `json:"items"`
}

type structItem struct {
	Type string `json:"type"`
	Ptr  bool   `json:"ptr,omitempty"`
	// Dup repeats a previous item of the request, by pointer.
	Dup int `json:"dup,omitempty"`
	// Views choose the types that the item is also read as.
	Views []int `json:"views,omitempty"`
	// Again writes the struct as it was found once more.
	Again bool  `json:"again,omitempty"`
	Feed  []int `json:"feed"`
}

// The attribute declarations as seen through the public interface.
type namedView struct {
	ID    uint64  `attr:"sys/db/id"`
	Ident *string `attr:"sys/db/ident"`
}

type schemaView struct {
	ID     uint64     `attr:"sys/db/id"`
	Ident  *string    `attr:"sys/db/ident"`
	Type   *namedView `attr:"sys/attr/type"`
	Card   *namedView `attr:"sys/attr/cardinality"`
	Unique *namedView `attr:"sys/attr/unique"`
}

// Sentinel is written to learn the greatest id issued so far.
type Sentinel struct {
	N int `attr:"sentinel/n"`
}

type seenAttr struct {
	id  uint64
	def mattrDef
}

var typeIdents = map[int]string{11: "ref", 12: "string", 13: "int", 14: "bool", 15: "inst", 16: "float"}
var uniqueNames = map[string]string{"": "", "sys/attr/unique/identity": "identity", "sys/attr/unique/value": "unique"}

// structRun executes a case.
type structRun struct {
	*run
	db     pkg.Database
	schema map[string]mattrDef
	// ids are those of the attributes, once seen.
	ids   map[string]uint64
	fresh int
	// zeroed are the unique attributes of which the zero value was written.
	zeroed map[string]bool
	top    uint64
	// builtin is the system part of the schema.
	builtin  map[string]seenAttr
	written  []writtenStruct
	accepted int
	rejected int
	// redeclared counts the requests about attributes declared before.
	redeclared int
	stats      builder
}

// writtenStruct is a struct that was written, and the id it must be found by.
type writtenStruct struct {
	typ   string
	value reflect.Value
	id    uint64
	snap  *pkg.Snapshot
	what  string
}

func newStructRun(r *run) *structRun {
	s := &structRun{run: r, zeroed: map[string]bool{}, schema: map[string]mattrDef{}, ids: map[string]uint64{}, top: uint64(firstID)}
	ok := s.guard("NewDatabase", func() { s.db = pkg.NewDatabase(pkg.Config{}) })
	if !ok || s.db == nil {
		return nil
	}
	return s
}

// seenSchema reads the attributes in a snapshot, up to the greatest known id and some more.
func (s *structRun) seenSchema(snap *pkg.Snapshot, from, to uint64) (attrs map[string]seenAttr, ok bool) {
	attrs = map[string]seenAttr{}
	ok = true
	bad := func(format string, args ...any) {
		s.fail("schema", []string{"C17", "C09"}, format, args...)
		ok = false
	}
	ts, err := pkg.BuildTypedSnapshot[schemaView](snap)
	if err != nil {
		bad("building a view of attributes: %v", err)
		return
	}
	for id := from; id <= to; id++ {
		v := ts.Find(id)
		if v == nil || v.Type == nil {
			if v != nil && (v.Card != nil || v.Unique != nil) {
				bad("the entity %d has a cardinality or uniqueness, but no type", id)
			}
			continue
		}
		if v.Ident == nil {
			bad("the attribute %d has no ident", id)
			continue
		}
		a := seenAttr{id: id}
		a.def.typ = int(v.Type.ID)
		if v.Type.Ident == nil || *v.Type.Ident != "sys/attr/type/"+typeIdents[a.def.typ] {
			bad("the attribute %q has an odd type %d", *v.Ident, v.Type.ID)
		}
		if v.Card != nil && v.Card.Ident != nil {
			a.def.many = *v.Card.Ident == "sys/attr/cardinality/many"
			if !a.def.many && *v.Card.Ident != "sys/attr/cardinality/one" {
				bad("the attribute %q has an odd cardinality %q", *v.Ident, *v.Card.Ident)
			}
		}
		if v.Unique != nil && v.Unique.Ident != nil {
			name, known := uniqueNames[*v.Unique.Ident]
			if !known {
				bad("the attribute %q has an odd uniqueness %q", *v.Ident, *v.Unique.Ident)
			}
			a.def.unique = name
		}
		if other, dup := attrs[*v.Ident]; dup {
			bad("the attribute %q is declared as %d and %d", *v.Ident, other.id, id)
		}
		attrs[*v.Ident] = a
	}
	return
}

// merge adds the declarations of a type to a schema: "ok", "reject", or "open" if either will do.
func mergeSchema(schema map[string]mattrDef, typ reflect.Type) (next map[string]mattrDef, how string) {
	attrs, consistent, mixed := declared(typ)
	how = "ok"
	if mixed {
		how = "open"
	}
	if !consistent {
		return schema, "reject"
	}
	next = map[string]mattrDef{}
	for ident, def := range schema {
		next[ident] = def
	}
	for ident, def := range attrs {
		was, ok := next[ident]
		switch {
		case !ok:
			next[ident] = def
		case was.typ != def.typ, def.many && !was.many, def.unique != "" && def.unique != was.unique:
			return schema, "reject"
		}
	}
	return
}

// judge tells what must become of asserting values of the types: the schema after, and how it must end.
func (s *structRun) judge(names []string) (next map[string]mattrDef, how string) {
	next, how = s.schema, "ok"
	for _, name := range names {
		reg := types[name]
		if reg.Role == "bad" || reg.Role == "badref" {
			return next, "reject"
		}
		merged, h := mergeSchema(next, reg.typ)
		switch h {
		case "reject":
			return next, "reject"
		case "open":
			how = "open"
		}
		next = merged
	}
	return
}

func (s *structRun) redeclares(names []string) bool {
	for _, name := range names {
		if types[name].Role == "bad" || types[name].Role == "badref" {
			continue
		}
		attrs, _, _ := declared(types[name].typ)
		for ident := range attrs {
			if _, ok := s.schema[ident]; ok {
				return true
			}
		}
	}
	return false
}

// checkSchema compares the schema in the database with that expected. After a rejected request, the
// attributes in maybe may have been declared.
func (s *structRun) checkSchema(what string, want, maybe map[string]mattrDef) (ok bool) {
	ok = true
	ok = s.guard("reading the schema "+what, func() {
		snap := s.db.Read()
		attrs, good := s.seenSchema(snap, uint64(firstID), s.top+60)
		if !good {
			ok = false
			return
		}
		delete(attrs, "sentinel/n")
		for ident, def := range want {
			seen, declared := attrs[ident]
			props := []string{"C17"}
			if was, ok := s.schema[ident]; ok && s.ids[ident] != 0 && was == def {
				props = append(props, "C09")
			}
			switch {
			case !declared:
				s.fail("schema", props, "%s: the attribute %q is not declared", what, ident)
			case seen.def != def:
				s.fail("schema", props, "%s: the attribute %q is %v, not %v", what, ident, seen.def, def)
			case s.ids[ident] != 0 && s.ids[ident] != seen.id:
				s.fail("schema", []string{"C17", "C09"}, "%s: the attribute %q was %d and is now %d", what, ident, s.ids[ident], seen.id)
			}
		}
		schema := map[string]mattrDef{}
		for ident, seen := range attrs {
			schema[ident] = seen.def
			s.ids[ident] = seen.id
			if def, ok := want[ident]; ok && def == seen.def {
				continue
			}
			if def, ok := maybe[ident]; ok && def == seen.def {
				continue
			}
			if _, ok := want[ident]; !ok {
				s.fail("schema", []string{"C17"}, "%s: the attribute %q is declared", what, ident)
			}
		}
		s.schema = schema
		builtin, _ := s.seenSchema(snap, 1, 30)
		if s.builtin != nil && !reflect.DeepEqual(builtin, s.builtin) {
			s.fail("schema", []string{"C17", "C10"}, "%s: the built-in attributes are %v, not %v", what, builtin, s.builtin)
		}
		s.builtin = builtin
	}) && ok
	return ok && len(s.mismatches) == 0
}

// sentinel learns the greatest id issued.
func (s *structRun) sentinel() {
	s.guard("writing a sentinel", func() {
		res := s.db.Write(pkg.Request{Assertions: []any{Sentinel{1}}})
		if res.Error != nil || len(res.IDs) != 1 {
			s.fail("sentinel", []string{"C16", "C17"}, "a plain struct is rejected: %v", res.Error)
			return
		}
		s.top = max(s.top, res.IDs[0])
	})
}

func (s *structRun) step(n int, step structStep) (ok bool) {
	var names []string
	for _, item := range step.Items {
		if _, ok := types[item.Type]; ok {
			names = append(names, item.Type)
		}
	}
	next, how := s.judge(names)
	if s.redeclares(names) {
		s.redeclared++
	}
	var req pkg.Request
	var values []reflect.Value
	var items []structItem
	var text []string
	for i, item := range step.Items {
		reg, known := types[item.Type]
		if !known {
			continue
		}
		v := reflect.New(reg.typ)
		if item.Dup > 0 && i > 0 {
			// The same pointer again.
			j := item.Dup % len(values)
			if items[j].Ptr && items[j].Type == item.Type {
				v = values[j]
				item.Ptr = true
				values = append(values, v)
				items = append(items, item)
				req.Assertions = append(req.Assertions, v.Interface())
				text = append(text, fmt.Sprintf("%s again", item.Type))
				s.class("dup")
				continue
			}
		}
		b := builder{feed: &feed{data: item.Feed}, fresh: &s.fresh, zeroed: s.zeroed, isUnique: func(ident string) bool { return next[ident].unique != "" }}
		if reg.Role != "bad" && reg.Role != "badref" {
			b.build(v.Elem(), 3)
		}
		s.stats.maps += b.maps
		s.stats.slices += b.slices
		s.stats.nested += b.nested
		s.stats.nils += b.nils
		s.stats.zeros += b.zeros
		s.stats.longs += b.longs
		values = append(values, v)
		items = append(items, item)
		if item.Ptr {
			req.Assertions = append(req.Assertions, v.Interface())
		} else {
			req.Assertions = append(req.Assertions, v.Elem().Interface())
		}
		text = append(text, fmt.Sprintf("%s%s", item.Type, show(v.Elem())))
	}
	if len(values) == 0 {
		return true
	}
	what := fmt.Sprintf("step %d, writing %s", n, strings.Join(text, "; "))
	copies := make([]reflect.Value, len(values))
	for i, v := range values {
		copies[i] = deepCopy(v.Elem())
	}
	var res pkg.Response
	if !s.guard(what, func() { res = s.db.Write(req) }) {
		return false
	}
	for i, v := range values {
		if diff := deepDiff(copies[i], v.Elem()); diff != "" {
			s.fail("request-changed", []string{"C16"}, "%s changed the struct written: %s", what, diff)
		}
	}
	s.class("write:" + how)
	if res.Snap == nil {
		s.fail("no-snapshot", []string{"C02", "C16", "C17"}, "%s: no snapshot (error %v)", what, res.Error)
		return false
	}
	switch {
	case how == "reject" && res.Error == nil:
		s.fail("accepted", []string{"C17", "C21"}, "%s was accepted, but its type contradicts the attributes declared", what)
		return false
	case how == "ok" && res.Error != nil:
		s.fail("rejected", []string{"C16", "C17", "C18"}, "%s was rejected: %v", what, res.Error)
		return false
	}
	want, maybe := next, next
	if res.Error != nil {
		want = s.schema
		s.rejected++
		s.message(res.Error, []string{"C02", "C21"})
		s.sentinel()
		if len(res.IDs) != 0 {
			s.fail("rejected-response", []string{"C02"}, "%s was rejected, but has ids %v", what, res.IDs)
		}
		return s.checkSchema("after rejecting "+what, want, maybe)
	}
	s.accepted++
	if how == "open" {
		s.sentinel()
		if !s.checkSchema("after "+what, map[string]mattrDef{}, next) {
			return false
		}
		return true
	}
	if len(res.IDs) != len(values) {
		s.fail("ids", []string{"C16", "C18"}, "%s: the response has ids %v", what, res.IDs)
		return false
	}
	owners := map[uint64]int{}
	for i, id := range res.IDs {
		s.top = max(s.top, id)
		if !hasData(values[i].Elem()) {
			s.class("no data")
			continue
		}
		if id < uint64(firstID) {
			s.fail("ids", []string{"C16", "C18"}, "%s: the response has ids %v", what, res.IDs)
			return false
		}
		if j, ok := owners[id]; ok && values[j] != values[i] {
			s.fail("ids", []string{"C16", "C18"}, "%s: the response has the id %d twice", what, id)
			return false
		}
		for _, w := range s.written {
			if w.id == id {
				s.fail("ids", []string{"C16", "C18"}, "%s: the response has the id %d of %s", what, id, w.what)
				return false
			}
		}
		owners[id] = i
	}
	for i, id := range res.IDs {
		if !hasData(values[i].Elem()) {
			continue
		}
		w := writtenStruct{typ: items[i].Type, value: values[i].Elem(), id: id, snap: res.Snap, what: what}
		if !s.checkFound(res.Snap, w, w.typ, "in the response's snapshot", []string{"C16"}) || !s.checkFound(s.db.Read(), w, w.typ, "in the database", []string{"C16"}) {
			return false
		}
		views := viewsOf(types[w.typ])
		for _, k := range items[i].Views {
			if view, ok := at(views, k); ok {
				s.class("view")
				if !s.checkFound(s.db.Read(), w, view, "as another type", []string{"C19"}) {
					return false
				}
			}
		}
		if items[i].Dup == 0 || owners[id] == i {
			s.written = append(s.written, w)
		}
	}
	s.sentinel()
	if !s.checkSchema("after "+what, want, maybe) {
		return false
	}
	for i, id := range res.IDs {
		if items[i].Again && hasData(values[i].Elem()) && rewritable(values[i].Elem()) {
			if !s.again(items[i].Type, values[i].Elem(), id, items[i].Ptr, what) {
				return false
			}
		}
	}
	return true
}

// again writes a struct as it was found, which must change nothing.
func (s *structRun) again(name string, value reflect.Value, id uint64, ptr bool, what string) bool {
	s.class("again")
	return s.guard("writing again what was found after "+what, func() {
		v, err := types[name].find(s.db.Read(), id)
		if err != nil || v.IsNil() {
			s.fail("found", []string{"C16"}, "%s: %s %d is not found any more", what, name, id)
			return
		}
		x := v.Interface()
		if !ptr {
			x = v.Elem().Interface()
		}
		res := s.db.Write(pkg.Request{Assertions: []any{x}})
		if res.Error != nil {
			s.fail("rejected", []string{"C16", "C18", "C19"}, "writing again what was found after %s was rejected: %v", what, res.Error)
			return
		}
		if len(res.IDs) != 1 || res.IDs[0] != id {
			s.fail("ids", []string{"C18"}, "writing again what was found as %d after %s has the ids %v", id, what, res.IDs)
			return
		}
		w := writtenStruct{typ: name, value: value, id: id, what: what}
		s.checkFound(res.Snap, w, name, "after writing it again", []string{"C16", "C18", "C19"})
	}) && len(s.mismatches) == 0
}

// rewritable reports whether a struct that was found can be written again: every struct in it must have an
// id that is known, and there must be no collections, whose entries would be new.
func rewritable(v reflect.Value) bool {
	if !hasData(v) {
		return false
	}
	hasID := false
	for _, f := range tfields(v.Type()) {
		if f.isID() {
			hasID = true
			continue
		}
		fv := v.Field(f.index)
		switch fv.Kind() {
		case reflect.Map, reflect.Slice:
			if fv.Len() > 0 {
				return false
			}
			continue
		case reflect.Pointer:
			if fv.IsNil() {
				continue
			}
			fv = fv.Elem()
		}
		if fv.Kind() == reflect.Struct && fv.Type() != timeType && !rewritable(fv) {
			return false
		}
	}
	return hasID
}

// viewsOf are the types that agree with the type about attributes.
func viewsOf(reg *typeReg) []string {
	base := reg.Base
	if reg.Role == "base" {
		base = reg.Name
	}
	if reg.Role == "conflict" {
		return nil
	}
	return typesOf(func(r *typeReg) bool {
		return r.Family == reg.Family && r.Name != reg.Name && (r.Role == "agree" && r.Base == base || r.Name == base)
	})
}

// checkFound finds the struct written as the type and compares.
func (s *structRun) checkFound(snap *pkg.Snapshot, w writtenStruct, as string, where string, props []string) (ok bool) {
	before := len(s.mismatches)
	s.guard("finding "+as, func() {
		v, err := types[as].find(snap, w.id)
		if err != nil {
			s.fail("found", props, "building a view of %s: %v", as, err)
			return
		}
		if v.IsNil() {
			s.fail("found", props, "%s: %s %d is not found as %s %s", w.what, w.typ, w.id, as, where)
			return
		}
		if diff := compareStruct(w.value, v.Elem(), w.id, false, as); diff != "" {
			if strings.Contains(diff, " reads as ") {
				props = append([]string{"C13"}, props...)
			}
			s.fail("found", props, "%s: %d found %s: %s", w.what, w.id, where, diff)
		}
	})
	return len(s.mismatches) == before
}

func runStructs(r *run, c *structCase) *structRun {
	s := newStructRun(r)
	if s == nil {
		return nil
	}
	for i, step := range c.Steps {
		if !s.step(i+1, step) {
			return s
		}
	}
	// All that was written is still there, and in its snapshots.
	snap := s.db.Read()
	for _, w := range s.written {
		if !s.checkFound(snap, w, w.typ, "at the end", []string{"C16", "C19"}) || !s.checkFound(w.snap, w, w.typ, "in its snapshot, later", []string{"C16", "C01"}) {
			break
		}
	}
	return s
}

// deepCopy copies a value of the generated types, whose graphs are trees.
func deepCopy(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Struct:
		c.Set(v)
		if v.Type() == timeType {
			return c
		}
		for _, f := range tfields(v.Type()) {
			c.Field(f.index).Set(deepCopy(v.Field(f.index)))
		}
	case reflect.Pointer:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(deepCopy(v.Elem()))
			c.Set(p)
		}
	case reflect.Slice:
		if !v.IsNil() {
			c.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				c.Index(i).Set(deepCopy(v.Index(i)))
			}
		}
	case reflect.Map:
		if !v.IsNil() {
			c.Set(reflect.MakeMap(v.Type()))
			for _, k := range v.MapKeys() {
				c.SetMapIndex(k, deepCopy(v.MapIndex(k)))
			}
		}
	default:
		c.Set(v)
	}
	return c
}

// deepDiff tells where two values differ.
func deepDiff(a, b reflect.Value) string {
	x, y := fmt.Sprintf("%#v", dump(a)), fmt.Sprintf("%#v", dump(b))
	if x == y {
		return ""
	}
	return x + " became " + y
}

// dump renders a value without addresses. Ids are left out, since writing may fill them in.
func dump(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == timeType {
			return fmt.Sprint(v.Interface())
		}
		list := []any{}
		for _, f := range tfields(v.Type()) {
			if !f.isID() {
				list = append(list, f.name, dump(v.Field(f.index)))
			}
		}
		return list
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return []any{"&", dump(v.Elem())}
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		list := []any{}
		for i := 0; i < v.Len(); i++ {
			list = append(list, dump(v.Index(i)))
		}
		return list
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		list := []string{}
		for _, k := range v.MapKeys() {
			list = append(list, fmt.Sprintf("%#v", []any{fmt.Sprint(k), dump(v.MapIndex(k))}))
		}
		sort.Strings(list)
		return list
	}
	return fmt.Sprint(v)
}

func drawFeed(t *rapid.T, max int) []int {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int {
		if chance(t, 5) {
			return 60 + pick(t, 1<<20)
		}
		return pick(t, 60)
	}), 0, max).Draw(t, "feed")
}

// structGen draws histories of types of the roles, few families at a time so that they meet again.
func structGen(maxSteps, maxItems int, roles [5]int) func(t *rapid.T) any {
	families := map[int][]string{}
	var bad []string
	pools := map[string][]string{}
	var order []int
	prepare := func() {
		if len(order) > 0 {
			return
		}
		for _, name := range typeNames {
			reg := types[name]
			if reg.Family == -1 {
				bad = append(bad, name)
			}
			if reg.Family < 0 {
				continue
			}
			if families[reg.Family] == nil {
				order = append(order, reg.Family)
			}
			families[reg.Family] = append(families[reg.Family], name)
			key := fmt.Sprint(reg.Family, reg.Role)
			pools[key] = append(pools[key], name)
		}
	}
	return func(t *rapid.T) any {
		prepare()
		c := &structCase{}
		var chosen []int
		for i := 0; i < 1+pick(t, 3); i++ {
			chosen = append(chosen, order[pick(t, len(order))])
		}
		item := rapid.Custom(func(t *rapid.T) (it structItem) {
			family := chosen[pick(t, len(chosen))]
			role := []string{"base", "agree", "conflict", "bad", "dup"}[choose(t, roles[:]...)]
			if role == "dup" {
				it.Dup = 1 + pick(t, 3)
				role = "base"
			}
			pool := pools[fmt.Sprint(family, role)]
			if role == "bad" {
				pool = bad
			}
			if len(pool) == 0 {
				pool = families[family]
			}
			it.Type = pool[pick(t, len(pool))]
			it.Ptr = chance(t, 50)
			it.Again = chance(t, 15)
			it.Views = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int { return pick(t, 6) }), 0, 2).Draw(t, "views")
			it.Feed = drawFeed(t, 50)
			return
		})
		step := rapid.Custom(func(t *rapid.T) (s structStep) {
			least, most := 1, maxItems
			if chance(t, 3) {
				least, most = 10, 40
			}
			s.Items = rapid.SliceOfN(item, least, most).Draw(t, "items")
			for i := range s.Items {
				// A repetition needs something to repeat.
				if s.Items[i].Dup > 0 && i > 0 {
					s.Items[i].Type = s.Items[s.Items[i].Dup%i].Type
				}
			}
			return
		})
		c.Steps = rapid.SliceOfN(step, 1, maxSteps).Draw(t, "steps")
		return c
	}
}

func init() {
	structs := func(prop string, steps, items int, roles [5]int, rule string, nontrivial func(s *structRun) bool) {
		register(prop, check{
			rule:  "A case is a list of requests that assert structs of randomly generated Go types (compiled into the harness), with drawn field values, by value and by pointer. " + rule,
			gen:   structGen(steps, items, roles),
			blank: func() any { return &structCase{} },
			run: func(c any, r *run) {
				s := runStructs(r, c.(*structCase))
				if s == nil {
					return
				}
				for name, n := range map[string]int{"maps": s.stats.maps, "slices": s.stats.slices, "nested": s.stats.nested, "nil pointers": s.stats.nils, "zero scalars": s.stats.zeros, "long collections": s.stats.longs} {
					if n > 0 {
						r.class("has " + name)
					}
				}
				r.nontrivial = nontrivial(s)
			},
		})
	}
	structs("C16", 4, 4, [5]int{80, 12, 0, 0, 8},
		"Each is found by the id returned, as its own type and others that agree, and compared field by field. Non-trivial: at least one accepted struct with fields that are collections or structs.",
		func(s *structRun) bool {
			return s.accepted > 0 && len(s.written) > 0 && s.stats.maps+s.stats.slices+s.stats.nested > 0
		})
	structs("C17", 6, 3, [5]int{50, 25, 22, 3, 0},
		"After each request the attributes in the database are compared with those that the tags call for; some types contradict others. Non-trivial: at least one request of types that declare attributes that were declared before.",
		func(s *structRun) bool { return s.redeclared > 0 })
}
