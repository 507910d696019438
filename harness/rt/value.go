package rt

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"
)

// Wire tells which encoding a value is going to travel in; it bounds what is
// generated (values the encoding is documented to lose) and how values compare.
type Wire int

const (
	Msgpack Wire = iota
	JSON
	Gob
)

func (w Wire) String() string { return [...]string{"msgpack", "json", "gob"}[w] }

var (
	typeTime  = reflect.TypeOf(time.Time{})
	typeBytes = reflect.TypeOf([]byte(nil))
)

// Gen makes seeded random values of arbitrary types.
type Gen struct {
	R    *rand.Rand
	Wire Wire
	// Consts restricts a named scalar type to its declared constants.
	Consts map[reflect.Type][]interface{}
	// Big allows large strings/slices.
	Big bool
	// JSSafe keeps numbers within what a JavaScript number represents exactly.
	JSSafe bool
	// Choose overrides generation for a type.
	Choose func(g *Gen, t reflect.Type) (reflect.Value, bool)
}

var strPool = []string{
	"", "a", " ", "0", "1", "-1", "true", "null", "[]", "{}", "\"", "\\", "\n\t\r", "ünïcödé ✓ 漢字", "😀", "a/b?c=d&e#f",
	"</script><!--", "\u2028\u2029", "1e9", "x\x00y", "\u007f", "%s%d", "'quoted'", "json", "<>&", "ffff",
}

func (g *Gen) Str() string {
	switch n := g.R.Intn(40); {
	case n < 16:
		return strPool[g.R.Intn(len(strPool))]
	case n < 39 || !g.Big:
		b := make([]rune, g.R.Intn(12))
		for i := range b {
			switch g.R.Intn(6) {
			case 0:
				b[i] = rune(0x100 + g.R.Intn(0x400))
			case 1:
				b[i] = rune(0x4e00 + g.R.Intn(0x1000))
			default:
				b[i] = rune(32 + g.R.Intn(95))
			}
		}
		return string(b)
	default:
		sizes := []int{31, 32, 255, 256, 4095, 4096, 4097, 65535, 65536, 70000}
		return strings.Repeat(string(rune('a'+g.R.Intn(26))), sizes[g.R.Intn(len(sizes))])
	}
}

func (g *Gen) int64n(bits int) int64 {
	min, max := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
	if g.JSSafe && bits > 53 {
		min, max = -(1<<53 - 1), 1<<53-1
	}
	clamp := func(v int64) int64 {
		if v < min {
			return min
		}
		if v > max {
			return max
		}
		return v
	}
	switch g.R.Intn(8) {
	case 0:
		return min
	case 1:
		return max
	case 2:
		return 0
	case 3:
		return clamp(int64(g.R.Intn(300) - 150))
	case 4:
		return clamp([]int64{-129, -128, -33, -32, -1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, math.MinInt32, math.MinInt32 - 1}[g.R.Intn(19)])
	default:
		v := int64(g.R.Uint64()) >> uint(g.R.Intn(60))
		if bits < 64 {
			v = v << (64 - uint(bits)) >> (64 - uint(bits))
		}
		return clamp(v)
	}
}

func (g *Gen) uint64n(bits int) uint64 {
	max := uint64(math.MaxUint64) >> (64 - uint(bits))
	if g.JSSafe && bits > 53 {
		max = 1<<53 - 1
	}
	switch g.R.Intn(7) {
	case 0:
		return max
	case 1:
		return 0
	case 2:
		return uint64(g.R.Intn(300)) & max
	case 3:
		v := []uint64{127, 128, 255, 256, 32767, 32768, 65535, 65536, math.MaxInt32, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 + 1}[g.R.Intn(13)]
		if v > max {
			v = max
		}
		return v
	default:
		return (g.R.Uint64() >> uint(g.R.Intn(60))) & max
	}
}

func (g *Gen) float(bits int) float64 {
	var v float64
	switch g.R.Intn(8) {
	case 0:
		v = 0
	case 1:
		v = float64(g.R.Intn(2000) - 1000)
	case 2:
		v = []float64{0.1, -0.1, 1.5, 1e10, 1e21, 1e-7, 123456789.125, math.Pi}[g.R.Intn(8)]
	case 3:
		v = math.MaxFloat32
	case 4:
		if bits == 64 {
			v = []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 1e300, -1e-300}[g.R.Intn(4)]
		}
	default:
		v = g.R.NormFloat64() * math.Pow(10, float64(g.R.Intn(12)-4))
	}
	if bits == 32 {
		v = float64(float32(v))
	}
	return v
}

func (g *Gen) Time() time.Time {
	var ms int64
	switch g.R.Intn(8) {
	case 0:
		return time.Time{}
	case 1:
		ms = 0
	case 2:
		ms = []int64{
			-1, 1, 999, 1000, 1700000000123, -62135596800000, 253402300799999, // year 1, 9999
			9223372036854, 9223372036855, -9223372036854, -9223372036855, // around the int64 nanosecond range
			32503680000000, -12219292800000,
		}[g.R.Intn(13)]
	default:
		ms = g.R.Int63n(4e12) - 2e12
	}
	t := time.UnixMilli(ms).UTC()
	if g.Wire == Msgpack && g.R.Intn(2) == 0 {
		t = t.Add(time.Duration(g.R.Intn(1e6))) // nanoseconds survive msgpack
	}
	return t
}

// anyVal is a value for an interface{} place.
func (g *Gen) anyVal(depth int) interface{} {
	n := 9
	if depth > 2 {
		n = 6
	}
	switch g.R.Intn(n) {
	case 0:
		return nil
	case 1:
		return g.R.Intn(2) == 0
	case 2:
		if g.R.Intn(3) == 0 {
			return g.uint64n(64)
		}
		return g.int64n(64)
	case 3:
		return g.float(64)
	case 4, 5:
		return g.Str()
	case 6:
		s := make([]interface{}, g.R.Intn(4))
		for i := range s {
			s[i] = g.anyVal(depth + 1)
		}
		return s
	default:
		m := map[string]interface{}{}
		for i := g.R.Intn(4); i > 0; i-- {
			m[g.Str()] = g.anyVal(depth + 1)
		}
		return m
	}
}

func (g *Gen) Value(t reflect.Type) reflect.Value { return g.value(t, 0) }

func (g *Gen) size(depth int) int {
	if depth > 4 {
		return 0
	}
	n := 4
	if depth == 0 && g.Big && g.R.Intn(20) == 0 {
		return []int{15, 16, 17, 255, 256, 300}[g.R.Intn(6)]
	}
	return g.R.Intn(n)
}

func (g *Gen) value(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	if g.Choose != nil {
		if c, ok := g.Choose(g, t); ok {
			v.Set(c)
			return v
		}
	}
	if cs, ok := g.Consts[t]; ok && len(cs) > 0 {
		v.Set(reflect.ValueOf(cs[g.R.Intn(len(cs))]).Convert(t))
		return v
	}
	switch {
	case t == typeTime:
		v.Set(reflect.ValueOf(g.Time()))
		return v
	case t.Kind() == reflect.Interface:
		if t.NumMethod() == 0 {
			if x := g.anyVal(depth); x != nil {
				v.Set(reflect.ValueOf(x))
			}
		}
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.R.Intn(2) == 0)
	case reflect.Int, reflect.Int64:
		v.SetInt(g.int64n(64))
	case reflect.Int8:
		v.SetInt(g.int64n(8))
	case reflect.Int16:
		v.SetInt(g.int64n(16))
	case reflect.Int32:
		v.SetInt(g.int64n(32))
	case reflect.Uint, reflect.Uint64:
		v.SetUint(g.uint64n(64))
	case reflect.Uint8:
		v.SetUint(g.uint64n(8))
	case reflect.Uint16:
		v.SetUint(g.uint64n(16))
	case reflect.Uint32:
		v.SetUint(g.uint64n(32))
	case reflect.Float32:
		v.SetFloat(g.float(32))
	case reflect.Float64:
		v.SetFloat(g.float(64))
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Ptr:
		if depth > 5 || g.R.Intn(3) == 0 {
			return v
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(g.value(t.Elem(), depth+1))
		if t.Elem() == typeTime && g.Wire == Msgpack && p.Elem().IsZero() {
			// msgpack's codec sends a pointer to the zero time as nil: a known
			// finding with a probe of its own
			p.Elem().Set(reflect.ValueOf(time.UnixMilli(1).UTC()))
		}
		if k := t.Elem().Kind(); k == reflect.Slice && p.Elem().IsNil() {
			// a pointer to nil is sent as nil, as is a nil pointer
			p.Elem().Set(reflect.MakeSlice(t.Elem(), 0, 0))
		} else if k == reflect.Map && p.Elem().IsNil() {
			p.Elem().Set(reflect.MakeMap(t.Elem()))
		}
		v.Set(p)
	case reflect.Slice:
		if g.R.Intn(6) == 0 || depth > 5 {
			return v // nil
		}
		if t.Elem() == reflect.TypeOf(byte(0)) {
			b := make([]byte, g.R.Intn(20))
			g.R.Read(b)
			v.SetBytes(b)
			return v
		}
		n := g.size(depth)
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			s.Index(i).Set(g.value(t.Elem(), depth+1))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).Set(g.value(t.Elem(), depth+1))
		}
	case reflect.Map:
		if g.R.Intn(6) == 0 || depth > 5 {
			return v
		}
		m := reflect.MakeMap(t)
		for i := g.size(depth); i > 0; i-- {
			m.SetMapIndex(g.value(t.Key(), depth+1), g.value(t.Elem(), depth+1))
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			switch {
			case f.IsExported() && !ignored(f):
				v.Field(i).Set(g.value(f.Type, depth+1))
			case f.Anonymous && f.Type.Kind() == reflect.Struct && !ignored(f):
				// the exported fields of an embedded struct can be set whatever its name
				for e, k := v.Field(i), 0; k < f.Type.NumField(); k++ {
					if ef := f.Type.Field(k); ef.IsExported() && !ignored(ef) {
						e.Field(k).Set(g.value(ef.Type, depth+1))
					}
				}
			}
		}
	default:
		panic("cannot generate " + t.String())
	}
	return v
}

// JSONTag is the tag a field's JSON name comes from.
func JSONTag(f reflect.StructField) string {
	if t := f.Tag.Get("codec"); t != "" {
		return t
	}
	return f.Tag.Get("json")
}

func ignored(f reflect.StructField) bool { return JSONTag(f) == "-" }

// Diff compares a value that was sent with the one that arrived and returns ""
// or the first difference. What the encodings do not distinguish is equal:
// times compare as instants (JSON: at millisecond precision), values in
// interface{} places compare by their JSON-like meaning.
func Diff(w Wire, want, got interface{}) string {
	return diff(w, reflect.ValueOf(want), reflect.ValueOf(got), "")
}

func omitEmpty(f reflect.StructField) bool {
	return strings.Contains(JSONTag(f), ",omitempty")
}

func diff(w Wire, a, b reflect.Value, path string) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() == b.IsValid() {
			return ""
		}
		return fmt.Sprintf("%s: sent %s, got %s", path, Show(a), Show(b))
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: sent a %s, got a %s", path, a.Type(), b.Type())
	}
	t := a.Type()
	if t == typeTime {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if w == JSON {
			if x.UnixMilli() != y.UnixMilli() {
				return fmt.Sprintf("%s: sent time %v, got %v", path, x, y)
			}
		} else if !x.Equal(y) {
			return fmt.Sprintf("%s: sent time %v, got %v", path, x, y)
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Interface:
		if bad := ungeneric(ifc(b)); bad != "" {
			return fmt.Sprintf("%s: sent %s, got a %s in it", path, short(ifc(a)), bad)
		}
		x, y := Norm(ifc(a)), Norm(ifc(b))
		if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("%s: sent %s, got %s", path, short(x), short(y))
		}
		return ""
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			if w == Gob && !a.IsNil() && a.Elem().IsZero() {
				return "" // gob omits pointers to zero values
			}
			return fmt.Sprintf("%s: sent %s, got %s", path, Show(a), Show(b))
		}
		if a.IsNil() {
			return ""
		}
		return diff(w, a.Elem(), b.Elem(), path)
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if d := diff(w, a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.IsNil() != b.IsNil() && (w != Gob || a.Len()+b.Len() > 0) {
			return fmt.Sprintf("%s: sent %s, got %s", path, Show(a), Show(b))
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: sent %d elements, got %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(w, a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		if a.IsNil() != b.IsNil() && (w != Gob || a.Len()+b.Len() > 0) {
			return fmt.Sprintf("%s: sent %s, got %s", path, Show(a), Show(b))
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: sent %d entries, got %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			if d := diff(w, a.MapIndex(k), b.MapIndex(k), fmt.Sprintf("%s[%v]", path, k)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() && !(f.Anonymous && f.Type.Kind() == reflect.Struct) || ignored(f) {
				continue
			}
			fa, fb := a.Field(i), b.Field(i)
			if omitEmpty(f) && (f.Type.Kind() == reflect.Slice || f.Type.Kind() == reflect.Map) && fa.Len() == 0 && fb.Len() == 0 {
				continue
			}
			if d := diff(w, fa, fb, path+"."+f.Name); d != "" {
				return d
			}
		}
		return ""
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s: sent %s, got %s", path, Show(a), Show(b))
		}
		return ""
	}
}

func ifc(v reflect.Value) interface{} {
	if v.IsNil() {
		return nil
	}
	return v.Elem().Interface()
}

// Norm maps dynamically typed values to their JSON-like meaning.
func Norm(x interface{}) interface{} {
	switch t := x.(type) {
	case nil:
		return nil
	case []byte:
		return string(t)
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return number(v.Interface())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return number(v.Interface())
	case reflect.Float32, reflect.Float64:
		if f := v.Float(); f == math.Trunc(f) && !math.IsInf(f, 0) {
			i, _ := big.NewFloat(f).Int(nil)
			return number(i)
		}
		return v.Float()
	case reflect.Slice:
		s := make([]interface{}, v.Len())
		for i := range s {
			s[i] = Norm(v.Index(i).Interface())
		}
		return s
	case reflect.Map:
		m := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			m[fmt.Sprint(k.Interface())] = Norm(v.MapIndex(k).Interface())
		}
		return m
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return Norm(v.Elem().Interface())
	}
	return x
}

// number is an integer as its digits, whatever the type it came in.
func number(x interface{}) digits { return digits(fmt.Sprint(x)) }

type digits string

// ungeneric finds maps and slices of other than the usual types in what was decoded into an interface.
func ungeneric(x interface{}) string {
	switch t := x.(type) {
	case []byte:
		return "[]byte"
	case map[string]interface{}:
		for _, e := range t {
			if bad := ungeneric(e); bad != "" {
				return bad
			}
		}
		return ""
	case []interface{}:
		for _, e := range t {
			if bad := ungeneric(e); bad != "" {
				return bad
			}
		}
		return ""
	}
	if k := reflect.ValueOf(x).Kind(); k == reflect.Map {
		return reflect.TypeOf(x).String()
	}
	return ""
}

func short(x interface{}) string {
	s := fmt.Sprintf("%T(%#v)", x, x)
	if len(s) > 200 {
		s = s[:200] + "…"
	}
	return s
}

// Show prints a value for a witness.
func Show(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	var s string
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return fmt.Sprintf("(%s)(nil)", v.Type())
		}
		return "&" + Show(v.Elem())
	case reflect.Map:
		if v.IsNil() {
			return fmt.Sprintf("%s(nil)", v.Type())
		}
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, fmt.Sprintf("%#v:%s", k.Interface(), Show(v.MapIndex(k))))
		}
		sort.Strings(ks)
		s = v.Type().String() + "{" + strings.Join(ks, ", ") + "}"
	case reflect.String:
		x := v.String()
		if len(x) > 100 {
			return fmt.Sprintf("%q…(%d bytes)", x[:100], len(x))
		}
		return fmt.Sprintf("%q", x)
	default:
		s = fmt.Sprintf("%#v", v.Interface())
	}
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// ShowAll prints a list of values.
func ShowAll(xs []interface{}) string {
	var r []string
	for _, x := range xs {
		if x == nil {
			r = append(r, "nil")
			continue
		}
		r = append(r, Show(reflect.ValueOf(x)))
	}
	s := strings.Join(r, " | ")
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}

// DiffV is Diff on reflected values (keeps static interface types).
func DiffV(w Wire, want, got reflect.Value) string { return diff(w, want, got, "") }
