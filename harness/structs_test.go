package verifharness

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	datum "github.com/dball/destructive/internal/types"
	pkg "github.com/dball/destructive/pkg/database"
)

// Named scalars for the generated types.
type MyStr string
type MyInt int
type MyBool bool
type MyFloat float64

// typeInfo describes a registered struct type.
type typeInfo struct {
	Name string
	// Role: "base", "agree" or "conflict" with the base about attributes, "bad", "badref" to a bad type, "view".
	Role   string
	Base   string
	Family int
}

type typeReg struct {
	typeInfo
	typ reflect.Type
	// find finds an entity as the type, returning a *T.
	find func(snap *pkg.Snapshot, id uint64) (reflect.Value, error)
	// finder returns a find that uses one view of the snapshot.
	finder func(snap *pkg.Snapshot) (func(id uint64) reflect.Value, error)
}

var types = map[string]*typeReg{}
var typeNames []string

func regType[T any](info typeInfo) {
	finder := func(snap *pkg.Snapshot) (find func(id uint64) reflect.Value, err error) {
		ts, err := pkg.BuildTypedSnapshot[T](snap)
		if err != nil {
			return
		}
		find = func(id uint64) reflect.Value { return reflect.ValueOf(ts.Find(id)) }
		return
	}
	types[info.Name] = &typeReg{typeInfo: info, typ: reflect.TypeFor[T](), finder: finder, find: func(snap *pkg.Snapshot, id uint64) (v reflect.Value, err error) {
		find, err := finder(snap)
		if err != nil {
			return
		}
		v = find(id)
		return
	}}
	typeNames = append(typeNames, info.Name)
}

func typesOf(pred func(r *typeReg) bool) (names []string) {
	for _, name := range typeNames {
		if pred(types[name]) {
			names = append(names, name)
		}
	}
	return
}

// tfield is a tagged field of a (usable) struct type.
type tfield struct {
	index  int
	name   string
	typ    reflect.Type
	ident  string
	unique string
	ignore bool
	key    string
	value  string
}

func (f tfield) isID() bool { return f.ident == "sys/db/id" }

var tfieldsCache = map[reflect.Type][]tfield{}

// tfields parses the tagged fields of a usable type.
func tfields(typ reflect.Type) (list []tfield) {
	if list, ok := tfieldsCache[typ]; ok {
		return list
	}
	defer func() { tfieldsCache[typ] = list }()
	for i := 0; i < typ.NumField(); i++ {
		field := typ.Field(i)
		tag, ok := field.Tag.Lookup("attr")
		if !ok {
			continue
		}
		parts := strings.Split(tag, ",")
		f := tfield{index: i, name: field.Name, typ: field.Type, ident: parts[0]}
		for _, part := range parts[1:] {
			name, arg, _ := strings.Cut(part, "=")
			switch name {
			case "identity", "unique":
				f.unique = name
			case "ignoreempty":
				f.ignore = true
			case "key":
				f.key = arg
			case "value":
				f.value = arg
			}
		}
		list = append(list, f)
	}
	return
}

var timeType = reflect.TypeFor[time.Time]()

// scalarType returns the attribute type of a scalar go type, or 0.
func scalarType(typ reflect.Type) int {
	switch typ.Kind() {
	case reflect.Bool:
		return 14
	case reflect.Int:
		return 13
	case reflect.String:
		return 12
	case reflect.Float64:
		return 16
	case reflect.Struct:
		if typ == timeType {
			return 15
		}
	}
	return 0
}

func normTime(t time.Time) time.Time { return time.UnixMilli(t.UnixMilli()).UTC() }

// scalarEqual reports whether got is what w must be read back as.
func scalarEqual(w, got reflect.Value) bool {
	if scalarType(w.Type()) != scalarType(got.Type()) || scalarType(w.Type()) == 0 {
		return false
	}
	switch w.Kind() {
	case reflect.Bool:
		return w.Bool() == got.Bool()
	case reflect.Int:
		return w.Int() == got.Int()
	case reflect.String:
		return w.String() == got.String()
	case reflect.Float64:
		return w.Float() == got.Float() || math.IsNaN(w.Float()) && math.IsNaN(got.Float())
	}
	t, u := w.Interface().(time.Time), got.Interface().(time.Time)
	return normTime(t).Equal(u) && u.Location() == time.UTC
}

func scalarZero(v reflect.Value) bool {
	if v.Type() == timeType {
		return v.Interface().(time.Time).IsZero()
	}
	if v.Kind() == reflect.Float64 {
		return v.Float() == 0
	}
	return v.IsZero()
}

// recorded reports whether writing the field records any datum of its attribute.
func recorded(f tfield, v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Map, reflect.Slice:
		return v.Len() > 0
	case reflect.Pointer:
		if v.IsNil() {
			return false
		}
		v = v.Elem()
	}
	if scalarType(v.Type()) != 0 {
		return !(f.ignore && scalarZero(v))
	}
	return true
}

// hasData reports whether writing the struct records any datum of its entity.
func hasData(v reflect.Value) bool {
	for _, f := range tfields(v.Type()) {
		if !f.isID() && recorded(f, v.Field(f.index)) {
			return true
		}
	}
	return false
}

// compareStruct tells how the struct found differs from what it must be, given the struct written, which
// may be of another type. An id of 0 is an unknown id. ranked is true if the entity has a rank.
func compareStruct(w, got reflect.Value, id uint64, ranked bool, path string) string {
	wfields := map[string]tfield{}
	for _, f := range tfields(w.Type()) {
		wfields[f.ident] = f
	}
	exists := ranked || hasData(w)
	byIndex := map[int]bool{}
	for _, f := range tfields(got.Type()) {
		byIndex[f.index] = true
		p := path + "." + f.name
		g := got.Field(f.index)
		if f.isID() {
			n := g.Uint()
			switch {
			case !exists && n != 0:
				return fmt.Sprintf("%s is %d, but the entity has no datums", p, n)
			case exists && id == 0 && n < uint64(firstID):
				return fmt.Sprintf("%s is %d, which is no id", p, n)
			case exists && id != 0 && n != id:
				return fmt.Sprintf("%s is %d, not %d", p, n, id)
			}
			continue
		}
		wf, ok := wfields[f.ident]
		if !ok || !recorded(wf, w.Field(wf.index)) {
			if (g.Kind() == reflect.Map || g.Kind() == reflect.Slice) && g.Len() == 0 {
				continue
			}
			if !g.IsZero() {
				return fmt.Sprintf("%s is %v, but must be empty", p, show(g))
			}
			continue
		}
		if diff := compareField(w.Field(wf.index), g, f, p); diff != "" {
			return diff
		}
	}
	for i := 0; i < got.NumField(); i++ {
		if !byIndex[i] && !got.Field(i).IsZero() {
			return fmt.Sprintf("%s.%s has no tag, but is set", path, got.Type().Field(i).Name)
		}
	}
	return ""
}

func show(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func compareField(w, g reflect.Value, f tfield, path string) string {
	if g.Kind() == reflect.Pointer {
		if g.IsNil() {
			return fmt.Sprintf("%s is nil, but must be %s", path, show(w))
		}
		g = g.Elem()
	}
	if w.Kind() == reflect.Pointer {
		w = w.Elem()
	}
	switch {
	case w.Kind() == reflect.Map:
		return compareMap(w, g, f, path)
	case w.Kind() == reflect.Slice:
		if w.Len() != g.Len() {
			return fmt.Sprintf("%s has %d elements, not %d", path, g.Len(), w.Len())
		}
		for i := 0; i < w.Len(); i++ {
			p := fmt.Sprintf("%s[%d]", path, i)
			if scalarType(w.Type().Elem()) != 0 {
				if !scalarEqual(w.Index(i), g.Index(i)) {
					return fmt.Sprintf("%s is %s, not %s", p, show(g.Index(i)), show(w.Index(i)))
				}
				continue
			}
			if diff := compareStruct(w.Index(i), g.Index(i), 0, true, p); diff != "" {
				return diff
			}
		}
		return ""
	case scalarType(w.Type()) != 0:
		if !scalarEqual(w, g) {
			return fmt.Sprintf("%s reads as %s, not %s", path, show(g), show(w))
		}
		return ""
	}
	return compareStruct(w, g, 0, false, path)
}

func compareMap(w, g reflect.Value, f tfield, path string) string {
	if w.Len() != g.Len() {
		return fmt.Sprintf("%s has %d entries, not %d", path, g.Len(), w.Len())
	}
	elem := func(v reflect.Value) reflect.Value {
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				return reflect.Value{}
			}
			return v.Elem()
		}
		return v
	}
	if f.key == "" || f.key == "sys/db/id" {
		// The keys are the ids of the elements, which are not known in advance.
		used := map[any]bool{}
		for _, k := range sortedKeys(w) {
			found, last := false, ""
			for _, key := range g.MapKeys() {
				if used[key.Interface()] {
					continue
				}
				we, ge := elem(w.MapIndex(k)), elem(g.MapIndex(key))
				if !ge.IsValid() {
					return fmt.Sprintf("%s[%v] is nil", path, key)
				}
				id := key.Uint()
				if last = compareStruct(we, ge, id, false, fmt.Sprintf("%s[%v]", path, key)); last == "" {
					used[key.Interface()] = true
					found = true
					break
				}
			}
			if !found {
				return fmt.Sprintf("%s has no entry %s (%s)", path, show(w.MapIndex(k)), last)
			}
		}
		return ""
	}
	for _, k := range sortedKeys(w) {
		p := fmt.Sprintf("%s[%v]", path, k)
		key := k
		if k.Type() == timeType {
			key = reflect.ValueOf(normTime(k.Interface().(time.Time)))
		}
		ge := g.MapIndex(key.Convert(g.Type().Key()))
		if !ge.IsValid() {
			return fmt.Sprintf("%s is absent; the map is %s", p, show(g))
		}
		if ge = elem(ge); !ge.IsValid() {
			return fmt.Sprintf("%s is nil", p)
		}
		if diff := compareStruct(elem(w.MapIndex(k)), ge, 0, false, p); diff != "" {
			return diff
		}
	}
	return ""
}

func sortedKeys(m reflect.Value) []reflect.Value {
	keys := m.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	return keys
}

// feed is a sequence of numbers that decide a value; it goes on with zeros.
type feed struct {
	data []int
	pos  int
}

func (f *feed) n() int {
	if f.pos >= len(f.data) {
		return 0
	}
	f.pos++
	return abs(f.data[f.pos-1])
}

// builder builds values of struct types from feeds.
type builder struct {
	*feed
	// fresh counts the unique values made.
	fresh *int
	// isUnique tells which attributes need unique values.
	isUnique func(ident string) bool
	// zeroed are the unique attributes of which the zero value is taken, if it may be.
	zeroed  map[string]bool
	structs int
	// stats
	maps, slices, nested, nils, zeros, longs int
}

func (b *builder) uniqueScalar(v reflect.Value) {
	*b.fresh++
	n := *b.fresh
	switch v.Kind() {
	case reflect.String:
		v.SetString([]string{"u", "", "é\x00"}[n%3] + fmt.Sprint(n))
	case reflect.Int:
		v.SetInt([]int64{int64(n), -int64(n), math.MinInt64 + int64(n), math.MaxInt64 - int64(n)}[n%4])
	case reflect.Float64:
		v.SetFloat([]float64{float64(n) + 0.5, -float64(n) - 0.25, 1e300 * float64(n), float64(n) * math.SmallestNonzeroFloat64}[n%4])
	case reflect.Struct:
		v.Set(reflect.ValueOf(time.UnixMilli([]int64{int64(n), -int64(n) * 1000}[n%2]).UTC()))
	}
}

func (b *builder) scalar(v reflect.Value) {
	n := b.n()
	if n >= 60 {
		// Of any magnitude.
		switch x := arbitrary(datum.ID(scalarType(v.Type())), 100+n).(type) {
		case datum.Int:
			v.SetInt(int64(x))
			return
		case datum.Float:
			v.SetFloat(float64(x))
			return
		case datum.String:
			v.SetString(string(x))
			return
		case datum.Inst:
			v.Set(reflect.ValueOf(time.Time(x)))
			return
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(n%2 == 1)
	case reflect.Int:
		v.SetInt(int64(mod(append([]int{0, 1, 2, -1, 3, math.MaxInt64, math.MinInt64, 1 << 40}, intPool...), n)))
	case reflect.String:
		v.SetString(mod(append([]string{"", "a", "b", "c", "\xff", "a\x00b", strings.Repeat("x", 100), "é", "0"}, stringPool...), n))
	case reflect.Float64:
		v.SetFloat(mod(append([]float64{0, 1.5, -2.5, math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 1e-300, -7}, floatPool...), n))
	case reflect.Struct:
		v.Set(reflect.ValueOf(mod(append([]time.Time{{}}, instPool...), n)))
	}
	if v.IsZero() {
		b.zeros++
	}
}

// build sets a struct.
func (b *builder) build(v reflect.Value, depth int) {
	b.structs++
	for _, f := range tfields(v.Type()) {
		fv := v.Field(f.index)
		if !fv.CanSet() {
			fv = reflect.NewAt(fv.Type(), fv.Addr().UnsafePointer()).Elem()
		}
		b.field(fv, f, depth)
	}
}

func (b *builder) field(v reflect.Value, f tfield, depth int) {
	if f.isID() {
		return
	}
	unique := b.isUnique(f.ident)
	deep := depth <= 0 || b.structs > 60
	scalar := func(v reflect.Value) {
		if unique {
			switch n := b.n(); {
			case v.Kind() == reflect.Bool:
			case n%5 == 3 && b.zeroed != nil && !b.zeroed[f.ident]:
				b.zeroed[f.ident] = true
				b.zeros++
			default:
				b.uniqueScalar(v)
			}
			return
		}
		b.scalar(v)
	}
	switch v.Kind() {
	case reflect.Pointer:
		elem := v.Type().Elem()
		n := b.n()
		if n%4 == 0 || scalarType(elem) == 0 && deep || unique && elem.Kind() == reflect.Bool {
			b.nils++
			return
		}
		v.Set(reflect.New(elem))
		if scalarType(elem) != 0 {
			scalar(v.Elem())
			return
		}
		b.nested++
		b.build(v.Elem(), depth-1)
	case reflect.Slice:
		n := b.n()
		if n%20 == 18 && !deep && depth > 0 {
			b.long(v, n)
			return
		}
		n %= 6
		if n == 5 {
			v.Set(reflect.MakeSlice(v.Type(), 0, 2))
			return
		}
		if scalarType(v.Type().Elem()) == 0 && deep {
			return
		}
		for i := 0; i < n; i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			if scalarType(e.Type()) != 0 {
				b.scalar(e)
			} else {
				b.build(e, depth-1)
			}
			v.Set(reflect.Append(v, e))
			b.slices++
		}
	case reflect.Map:
		seed := b.n()
		n := seed % 5
		if n == 4 {
			v.Set(reflect.MakeMap(v.Type()))
			return
		}
		if deep {
			return
		}
		long := seed%20 == 17 && depth > 0
		if long {
			n = 9 + seed%13
			depth = 1
			if b.n()%12 == 7 {
				n += 120 * (1 + b.n()%2)
				depth = 0
			}
			b.longs++
			was := b.feed
			defer func() { b.feed = was }()
		}
		elem := v.Type().Elem()
		isPtr := elem.Kind() == reflect.Pointer
		if isPtr {
			elem = elem.Elem()
		}
		for i := 0; i < n; i++ {
			e := reflect.New(elem)
			if long {
				b.feed = longFeed(seed, i)
			}
			b.build(e.Elem(), depth-1)
			if long {
				for _, kf := range tfields(elem) {
					if kf.ident == f.key && scalarType(kf.typ) != 0 {
						b.uniqueScalar(e.Elem().Field(kf.index))
					}
				}
			}
			var key reflect.Value
			if f.key == "" || f.key == "sys/db/id" {
				key = reflect.ValueOf(uint64(i + 1)).Convert(v.Type().Key())
			} else {
				key = mapKeyOf(e.Elem(), f.key)
				if !key.IsValid() {
					continue
				}
				key = key.Convert(v.Type().Key())
				if key.Kind() == reflect.Float64 && math.IsNaN(key.Float()) {
					continue
				}
			}
			clash := v.MapIndex(orMake(v, key)).IsValid()
			if key.Type() == timeType {
				for _, k := range v.MapKeys() {
					clash = clash || normTime(k.Interface().(time.Time)).Equal(normTime(key.Interface().(time.Time)))
				}
			}
			if clash {
				continue
			}
			if !isPtr {
				e = e.Elem()
			}
			v.SetMapIndex(key, e)
			b.maps++
		}
	case reflect.Struct:
		if v.Type() != timeType {
			b.nested++
			b.build(v, depth-1)
			return
		}
		scalar(v)
	default:
		scalar(v)
	}
}

// long makes a long slice, of elements that differ.
func (b *builder) long(v reflect.Value, seed int) {
	was := b.feed
	defer func() { b.feed = was }()
	n := 11 + (seed+b.n())%30
	switch {
	case scalarType(v.Type().Elem()) == 0:
		n = 7 + n%9
		if b.n()%12 == 7 {
			n += 120 * (1 + b.n()%2)
		}
	case n%7 == 0:
		n += 125 + n%3*128
	}
	for i := 0; i < n; i++ {
		b.feed = longFeed(seed, i)
		e := reflect.New(v.Type().Elem()).Elem()
		if scalarType(e.Type()) != 0 {
			b.scalar(e)
		} else {
			b.build(e, 0)
		}
		v.Set(reflect.Append(v, e))
		b.slices++
	}
	b.longs++
}

func longFeed(seed, i int) *feed {
	sub := &feed{}
	for j := 0; j < 12; j++ {
		sub.data = append(sub.data, (seed+i*(7+2*j)+j*5)%60)
	}
	return sub
}

func orMake(m, key reflect.Value) reflect.Value {
	if m.IsNil() {
		m.Set(reflect.MakeMap(m.Type()))
	}
	return key
}

// mapKeyOf is the value of the struct's key attribute, if it is recorded.
func mapKeyOf(v reflect.Value, ident string) (key reflect.Value) {
	for _, f := range tfields(v.Type()) {
		if f.ident == ident && recorded(f, v.Field(f.index)) {
			key = v.Field(f.index)
			if key.Kind() == reflect.Pointer {
				key = key.Elem()
			}
		}
	}
	return
}

// mattrDef is an attribute as a type declares it.
type mattrDef struct {
	typ    int
	many   bool
	unique string
}

// declared returns the attributes that a type's fields and those of the types it refers to declare, or false
// if they contradict one another. They are mixed if an attribute is both single- and many-valued.
func declared(typ reflect.Type) (attrs map[string]mattrDef, ok, mixed bool) {
	attrs = map[string]mattrDef{}
	ok = true
	add := func(ident string, def mattrDef) {
		was, extant := attrs[ident]
		if extant {
			mixed = mixed || was.many != def.many
			if was.typ != def.typ || was.unique != "" && def.unique != "" && was.unique != def.unique {
				ok = false
			}
			if def.unique == "" {
				def.unique = was.unique
			}
			def.many = def.many || was.many
		}
		attrs[ident] = def
	}
	seen := map[reflect.Type]bool{}
	var visit func(typ reflect.Type)
	visit = func(typ reflect.Type) {
		if seen[typ] {
			return
		}
		seen[typ] = true
		for _, f := range tfields(typ) {
			if f.isID() {
				continue
			}
			t := f.typ
			switch t.Kind() {
			case reflect.Pointer:
				t = t.Elem()
			case reflect.Map:
				add(f.ident, mattrDef{11, true, f.unique})
				t = t.Elem()
				if t.Kind() == reflect.Pointer {
					t = t.Elem()
				}
				visit(t)
				continue
			case reflect.Slice:
				add(f.ident, mattrDef{11, true, f.unique})
				if f.value != "" {
					add(f.value, mattrDef{scalarType(t.Elem()), false, ""})
				} else {
					visit(t.Elem())
				}
				continue
			}
			if s := scalarType(t); s != 0 {
				add(f.ident, mattrDef{s, false, f.unique})
				continue
			}
			add(f.ident, mattrDef{11, false, f.unique})
			visit(t)
		}
	}
	visit(typ)
	return
}
