package verifharness

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	. "github.com/dball/destructive/internal/types"
	pkg "github.com/dball/destructive/pkg/database"
	"pgregory.net/rapid"
)

// badUse adds something to a request that is, or may be, unusable.
type badUse struct {
	// K: "" a value that is no struct, "type" a generated unusable type, "dyn" a type made from Dyn, "named" one
	// that denotes part of the vocabulary by its ident.
	K   string   `json:"k,omitempty"`
	N   int      `json:"n,omitempty"`
	Ptr bool     `json:"ptr,omitempty"`
	Dyn *dynSpec `json:"dyn,omitempty"`
	// Retract retracts it; First puts it first.
	Retract bool `json:"retract,omitempty"`
	First   bool `json:"first,omitempty"`
	// Views are unusable types to build views of.
	Views []int `json:"views,omitempty"`
	// Feed decides the values of a usable type.
	Feed []int `json:"feed,omitempty"`
}

// dynSpec is a struct type.
type dynSpec struct {
	Fields []dynField `json:"fields"`
}

type dynField struct {
	Type int `json:"t"`
	// Dirs are directives; Tag 0 is a proper tag, 1 an id, the others other kinds of tags.
	Dirs []int `json:"dirs,omitempty"`
	Tag  int   `json:"tag,omitempty"`
	// Hid fields are not exported.
	Hid bool `json:"hid,omitempty"`
}

type dynLeaf struct {
	X int    `attr:"dynleaf/x"`
	K string `attr:"dynleaf/k"`
	U uint8
}

type dynBad struct {
	X uint8 `attr:"dynleaf/y"`
}

type dynRec struct {
	ID   uint64   `attr:"sys/db/id"`
	Next *dynRec  `attr:"dynrec/next"`
	Leaf *dynLeaf `attr:"dynrec/leaf"`
}

type dynDeep struct {
	Mid map[uint64]*dynMid `attr:"dyndeep/mid"`
}

type dynMid struct {
	Leaf []dynBad `attr:"dynmid/leaf"`
}

type myMap map[string]dynLeaf
type mySlice []string
type myUint uint64
type myStruct dynLeaf
type myTime time.Time
type myPtr *int

// dynTypes are field types. The names decide the attributes, so that types agree about them.
var dynTypes = []reflect.Type{
	reflect.TypeFor[int](), reflect.TypeFor[string](), reflect.TypeFor[bool](), reflect.TypeFor[float64](), reflect.TypeFor[time.Time](),
	reflect.TypeFor[*int](), reflect.TypeFor[*string](), reflect.TypeFor[*bool](), reflect.TypeFor[*float64](), reflect.TypeFor[*time.Time](),
	reflect.TypeFor[MyInt](), reflect.TypeFor[MyStr](), reflect.TypeFor[*MyFloat](), reflect.TypeFor[MyBool](),
	reflect.TypeFor[dynLeaf](), reflect.TypeFor[*dynLeaf](), reflect.TypeFor[*dynRec](), reflect.TypeFor[myStruct](),
	reflect.TypeFor[map[string]dynLeaf](), reflect.TypeFor[map[string]*dynLeaf](), reflect.TypeFor[map[uint64]dynLeaf](), reflect.TypeFor[map[uint64]*dynLeaf](), reflect.TypeFor[myMap](),
	reflect.TypeFor[map[myUint]dynLeaf](), reflect.TypeFor[map[int]dynLeaf](), reflect.TypeFor[map[MyStr]*dynLeaf](), reflect.TypeFor[map[time.Time]dynLeaf](), reflect.TypeFor[map[bool]dynLeaf](),
	reflect.TypeFor[[]dynLeaf](), reflect.TypeFor[[]int](), reflect.TypeFor[[]string](), reflect.TypeFor[[]time.Time](), reflect.TypeFor[mySlice](), reflect.TypeFor[[]MyFloat](),
	// From here on they are of no use in any field with a tag but that of an id.
	reflect.TypeFor[uint64](), reflect.TypeFor[myUint](),
	reflect.TypeFor[int64](), reflect.TypeFor[int32](), reflect.TypeFor[int8](), reflect.TypeFor[uint](), reflect.TypeFor[uint8](), reflect.TypeFor[float32](), reflect.TypeFor[complex128](),
	reflect.TypeFor[chan int](), reflect.TypeFor[func()](), reflect.TypeFor[any](), reflect.TypeFor[error](), reflect.TypeFor[[3]int](), reflect.TypeFor[uintptr](), reflect.TypeFor[unsafe.Pointer](),
	reflect.TypeFor[**int](), reflect.TypeFor[*[]int](), reflect.TypeFor[*map[string]dynLeaf](), reflect.TypeFor[*int64](), reflect.TypeFor[*any](), reflect.TypeFor[**dynLeaf](), reflect.TypeFor[*uint64](),
	reflect.TypeFor[map[string]int](), reflect.TypeFor[map[uint64]time.Time](), reflect.TypeFor[map[uint64]**dynLeaf](), reflect.TypeFor[map[int64]dynLeaf](), reflect.TypeFor[map[any]dynLeaf](), reflect.TypeFor[map[uint64]*time.Time](),
	reflect.TypeFor[[]*dynLeaf](), reflect.TypeFor[[]any](), reflect.TypeFor[[][]int](), reflect.TypeFor[[]int64](), reflect.TypeFor[[]*int](), reflect.TypeFor[[]byte](), reflect.TypeFor[[]map[string]dynLeaf](),
	reflect.TypeFor[dynBad](), reflect.TypeFor[*dynBad](), reflect.TypeFor[map[uint64]dynBad](), reflect.TypeFor[[]dynBad](), reflect.TypeFor[dynDeep](), reflect.TypeFor[*dynDeep](), reflect.TypeFor[myTime](),
}

const dynGood = 34

var dynDirs = []string{"ignoreempty", "identity", "unique", "key=dynleaf/k", "value=", "key=sys/db/id", "bogus", "", " unique", "Identity", "unique=1", "ignoreempty=true", "key", "value", "type=ref", "identity "}

func dynType(spec *dynSpec) reflect.Type {
	var fields []reflect.StructField
	for i, f := range spec.Fields {
		typ := mod(dynTypes, f.Type)
		field := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: typ}
		if f.Hid {
			field.Name, field.PkgPath = fmt.Sprintf("f%d", i), "verifharness"
		}
		unique := ""
		var dirs []string
		for _, d := range f.Dirs {
			dir := mod(dynDirs, d)
			if dir == "identity" || dir == "unique" {
				unique = dir
			}
			if dir == "value=" {
				dir = fmt.Sprintf("value=dynv/%s", typ)
			}
			dirs = append(dirs, dir)
		}
		// The number keeps the idents of one struct apart.
		n := 0
		for _, g := range spec.Fields[:i] {
			if g.Type == f.Type {
				n++
			}
		}
		tag := strings.Join(append([]string{fmt.Sprintf("dyn/%s/%s%d", strings.ReplaceAll(fmt.Sprint(typ), ",", ""), unique, n)}, dirs...), ",")
		switch f.Tag {
		case 0:
			field.Tag = reflect.StructTag(fmt.Sprintf("attr:%q", tag))
		case 1:
			field.Tag = reflect.StructTag(fmt.Sprintf("attr:%q", strings.Join(append([]string{"sys/db/id"}, dirs...), ",")))
		case 2:
		case 3:
			field.Tag = reflect.StructTag(fmt.Sprintf("json:%q attr:%q", "x,omitempty", tag))
		case 4:
			field.Tag = reflect.StructTag(fmt.Sprintf("json:%q", tag))
		case 5:
			field.Tag = reflect.StructTag("attr:" + tag)
		}
		fields = append(fields, field)
	}
	return reflect.StructOf(fields)
}

// usable tells whether a struct type can be used. It is not sure of tags whose meaning is undocumented.
func usable(typ reflect.Type, deep bool) (ok, sure bool) {
	ok, sure = true, true
	hidden := false
	seen := map[reflect.Type]bool{}
	var visit func(typ reflect.Type, root bool)
	visit = func(typ reflect.Type, root bool) {
		if seen[typ] {
			return
		}
		seen[typ] = true
		for i := 0; i < typ.NumField(); i++ {
			field := typ.Field(i)
			tag, tagged := field.Tag.Lookup("attr")
			if !tagged {
				continue
			}
			parts := strings.Split(tag, ",")
			uniques, key, value := 0, "", ""
			hasKey, hasValue := false, false
			for _, part := range parts[1:] {
				switch {
				case part == "ignoreempty":
				case part == "identity" || part == "unique":
					uniques++
				case strings.HasPrefix(part, "key="):
					hasKey, key = true, part[4:]
				case strings.HasPrefix(part, "value="):
					hasValue, value = true, part[6:]
				default:
					ok = false
				}
			}
			if uniques > 1 {
				ok = false
			}
			t := field.Type
			if parts[0] == "sys/db/id" {
				if t.Kind() != reflect.Uint64 {
					ok = false
				}
				if len(parts) > 1 || !field.IsExported() {
					sure = false
				}
				continue
			}
			isRef := func(t reflect.Type) bool { return t.Kind() == reflect.Struct && t != timeType }
			next := reflect.Type(nil)
			switch t.Kind() {
			case reflect.Bool, reflect.Int, reflect.String, reflect.Float64:
			case reflect.Struct:
				if t != timeType {
					next = t
				}
			case reflect.Pointer:
				switch e := t.Elem(); e.Kind() {
				case reflect.Bool, reflect.Int, reflect.String, reflect.Float64:
				case reflect.Struct:
					if e != timeType {
						next = e
					}
				default:
					ok = false
				}
			case reflect.Map:
				e := t.Elem()
				if e.Kind() == reflect.Pointer {
					e = e.Elem()
				}
				if !isRef(e) {
					ok = false
				} else {
					next = e
				}
				byKey := hasKey && key != "sys/db/id" && key != ""
				if !(byKey && scalarType(t.Key()) != 0) && t.Key().Kind() != reflect.Uint64 {
					ok = false
				}
				// Whether keys fit the values of the key attribute shows only when they are read.
				if byKey && t.Key().Kind() != reflect.String || hasValue || uniques > 0 {
					sure = false
				}
			case reflect.Slice:
				e := t.Elem()
				scalar := scalarType(e) != 0
				if scalar != (hasValue && value != "") || !scalar && !isRef(e) {
					ok = false
				}
				if !scalar && isRef(e) {
					next = e
				}
				if hasKey || uniques > 0 {
					sure = false
				}
			default:
				ok = false
			}
			if t.Kind() != reflect.Map && t.Kind() != reflect.Slice && (hasKey || hasValue) {
				sure = false
			}
			if !field.IsExported() {
				// It is read when its struct is.
				e := t
				if e.Kind() == reflect.Pointer {
					e = e.Elem()
				}
				switch e.Kind() {
				case reflect.Struct, reflect.Map, reflect.Slice:
					hidden = true
				}
			}
			if next != nil {
				if uniques > 0 {
					sure = false
				}
				if deep {
					visit(next, false)
				}
			}
		}
	}
	visit(typ, true)
	if hidden {
		if deep {
			ok = false
		} else {
			sure = false
		}
	}
	return
}

// badValues are values that are no structs and no pointers to structs.
var badValues = []func() any{
	func() any { return nil },
	func() any { return 5 },
	func() any { return (*vAll)(nil) },
	func() any { return "x" },
	func() any { return (*int)(nil) },
	func() any { return new(int) },
	func() any { p := &vAll{}; return &p },
	func() any { var p *vAll; return &p },
	func() any { return []vAll{{}} },
	func() any { return []any{} },
	func() any { return map[string]vAll{} },
	func() any { return map[string]any{"v/name": "a"} },
	func() any { return func() {} },
	func() any { return make(chan int) },
	func() any { return [2]vAll{} },
	func() any { return 1.5 },
	func() any { return true },
	func() any { return uint64(firstID) },
	func() any { return ID(firstID) },
	func() any { return TempID("1") },
	func() any { return []byte("x") },
	func() any { return (func())(nil) },
	func() any { return (map[string]vAll)(nil) },
	func() any { return (*time.Time)(nil) },
	func() any { return (**vAll)(nil) },
	func() any { var x any = vAll{}; return &x },
	func() any { return &[]vAll{{}} },
	func() any { return (*vPlain)(nil) },
	func() any { return reflect.Pointer },
	func() any { return String("x") },
}

// badViews are types of which there can be no views.
var badViewNames = []string{"int", "*vAll", "[]vAll", "map", "any", "string", "error", "array", "func"}

func init() {
	info := func(name string) typeInfo { return typeInfo{Name: name, Role: "badview", Family: -3} }
	regType[int](info("int"))
	regType[*vAll](info("*vAll"))
	regType[[]vAll](info("[]vAll"))
	regType[map[string]vAll](info("map"))
	regType[any](info("any"))
	regType[string](info("string"))
	regType[error](info("error"))
	regType[[2]vAll](info("array"))
	regType[func()](info("func"))
}

var badTypeNames, badRefNames []string

func badTypes() ([]string, []string) {
	if badTypeNames == nil {
		badTypeNames = typesOf(func(r *typeReg) bool { return r.Role == "bad" })
		badRefNames = typesOf(func(r *typeReg) bool { return r.Role == "badref" })
	}
	return badTypeNames, badRefNames
}

// addBad adds the use to the request.
func (s *viewRun) addBad(b *badUse, req *pkg.Request, x *shred, roots *[]viewRoot) (text string) {
	var value any
	ok, sure := false, true
	bad, badRefs := badTypes()
	switch b.K {
	case "type":
		name, _ := at(bad, b.N)
		if !b.Retract && b.N%3 == 0 {
			name, _ = at(badRefs, b.N/3)
		}
		v := reflect.New(types[name].typ)
		value = v.Interface()
		if !b.Ptr {
			value = v.Elem().Interface()
		}
		text = name
		s.class("bad:generated type")
	case "dyn":
		if b.Dyn == nil {
			return
		}
		typ := dynType(b.Dyn)
		ok, sure = usable(typ, !b.Retract)
		v := reflect.New(typ)
		if whole, whollySure := usable(typ, true); whole && whollySure {
			bld := builder{feed: &feed{data: b.Feed}, fresh: &s.fresh, isUnique: func(ident string) bool {
				return strings.HasSuffix(strings.TrimRight(ident, "0123456789"), "identity") || strings.HasSuffix(strings.TrimRight(ident, "0123456789"), "unique")
			}}
			bld.build(v.Elem(), 2)
		}
		value = v.Interface()
		if !b.Ptr {
			value = v.Elem().Interface()
		}
		text = fmt.Sprint(typ)
		if b.Retract {
			// The unusable is no error the less for lacking constraints; the usable has none that denote anything.
			ok = false
		}
		switch {
		case !sure:
			s.class("dyn:unsure")
		case ok:
			s.class("dyn:usable")
		default:
			s.class("dyn:unusable")
		}
	case "named":
		v := s.named(b)
		value = v.Interface()
		if !b.Ptr {
			value = v.Elem().Interface()
		}
		text = fmt.Sprintf("%T%+v", value, v.Elem())
		s.class(fmt.Sprintf("bad:vocabulary, retract %v", b.Retract))
	default:
		value = mod(badValues, b.N)()
		text = fmt.Sprintf("%T", value)
		s.class("bad:no struct")
	}
	if b.Retract {
		text = "retract the odd " + text
		if b.First {
			req.Retractions = append([]any{value}, req.Retractions...)
		} else {
			req.Retractions = append(req.Retractions, value)
		}
	} else {
		text = "assert the odd " + text
		s.temps++
		root := viewRoot{ref: TempID(fmt.Sprintf("t%d", s.temps)), extra: true}
		if b.First {
			req.Assertions = append([]any{value}, req.Assertions...)
			*roots = append([]viewRoot{root}, *roots...)
		} else {
			req.Assertions = append(req.Assertions, value)
			*roots = append(*roots, root)
		}
	}
	switch {
	case !sure:
		x.either = append(x.either, "unsure type")
	case !ok && b.K == "named":
		x.reject = append(x.reject, "vocabulary")
	case !ok:
		x.reject = append(x.reject, "unusable")
	}
	return
}

// Views of the vocabulary, which may not be written.
type vNamed struct {
	ID    uint64 `attr:"sys/db/id"`
	Ident string `attr:"sys/db/ident,identity,ignoreempty"`
	N     *int   `attr:"v/n"`
}

type vNamedPtr struct {
	N     int     `attr:"v/n,ignoreempty"`
	Ident *string `attr:"sys/db/ident,identity"`
}

// named denotes something by its ident: to be asserted, it must be built in.
func (s *viewRun) named(b *badUse) reflect.Value {
	var idents []string
	for _, f := range sysFacts {
		if f.A == aIdent {
			idents = append(idents, f.V.S)
		}
	}
	if b.Retract {
		var names []string
		for ident := range s.attrs {
			names = append(names, ident)
		}
		sort.Strings(names)
		idents = append(idents, names...)
		idents = append(idents, "nothing", "sys", "sys/none")
	}
	ident := mod(idents, b.N)
	n := b.N
	if b.N%2 == 0 {
		v := &vNamed{Ident: ident}
		if b.N%4 == 0 {
			v.N = &n
		}
		return reflect.ValueOf(v)
	}
	return reflect.ValueOf(&vNamedPtr{Ident: &ident, N: n % 3})
}

// badViews builds views of unusable types.
func (s *viewRun) badViews(list []int) bool {
	bad, _ := badTypes()
	for _, n := range list {
		name := mod(badViewNames, n/2)
		if n%2 == 1 {
			name, _ = at(bad, n/2)
		}
		if !s.guard("building a view of "+name, func() {
			_, err := types[name].find(s.db.Read(), uint64(firstID))
			if err == nil {
				s.fail("accepted", []string{"C21"}, "a view of %s (%v) was built", name, types[name].typ)
			} else {
				s.message(err, []string{"C21"})
			}
		}) {
			return false
		}
	}
	return true
}

func drawBadUse(t *rapid.T, kinds [4]int) *badUse {
	b := &badUse{K: []string{"", "type", "dyn", "named"}[choose(t, kinds[:]...)], N: pick(t, 120), Ptr: chance(t, 50), Retract: chance(t, 30), First: chance(t, 50)}
	b.Views = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int { return pick(t, 200) }), 0, 3).Draw(t, "views")
	if b.K == "dyn" {
		b.Feed = drawFeed(t, 10)
		broken, hid := chance(t, 50), chance(t, 20)
		b.Dyn = &dynSpec{Fields: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) (f dynField) {
			f.Type = pick(t, dynGood)
			if broken && chance(t, 20) {
				f.Type = pick(t, len(dynTypes))
			}
			f.Tag = choose(t, 70, 4, 6, 10, 5, 5)
			f.Hid = hid && chance(t, 30)
			if f.Tag == 1 && chance(t, 80) {
				f.Type = dynGood + pick(t, 2)
			}
			if f.Tag != 0 && f.Tag != 1 && f.Tag != 3 && chance(t, 60) {
				f.Type = pick(t, len(dynTypes))
			}
			typ := dynTypes[f.Type]
			if f.Tag == 0 || f.Tag == 3 {
				switch {
				case typ.Kind() == reflect.Map && typ.Key().Kind() != reflect.Uint64 && !chance(t, 10):
					f.Dirs = append(f.Dirs, 3)
				case typ.Kind() == reflect.Slice && scalarType(typ.Elem()) != 0 && !chance(t, 10):
					f.Dirs = append(f.Dirs, 4)
				case scalarType(typ) != 0 && chance(t, 20):
					f.Dirs = append(f.Dirs, 1+pick(t, 2))
				}
				if chance(t, 20) {
					f.Dirs = append(f.Dirs, 0)
				}
			}
			if broken && chance(t, 15) {
				f.Dirs = append(f.Dirs, pick(t, len(dynDirs)))
			}
			return
		}), 0, 5).Draw(t, "fields")}
	}
	return b
}

func init() {
	p := baseViews
	p.badUse, p.views, p.retract, p.steps = 60, 1, 15, 8
	p.badKinds = [4]int{6, 6, 12, 0}
	p.kinds[5] = 12
	viewCheck("C21", p,
		"Many requests also have something unusable: no structs, nil pointers, generated unusable types, types made at run time from drawn field types and directives, contradictory ids; views of such types are built, too. Non-trivial: at least one accepted request, and one rejected because of something unusable.",
		func(s *viewRun) bool { return s.accepted > 0 && s.badRejected > 0 })
}
