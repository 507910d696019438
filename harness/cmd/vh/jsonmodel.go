package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verifharness/rt"
)

var typeTime = reflect.TypeOf(time.Time{})

// millis is the instant's integer milliseconds since the epoch, rounded down.
func millis(t time.Time) *big.Int {
	ns := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1e9))
	ns.Add(ns, big.NewInt(int64(t.Nanosecond())))
	return ns.Div(ns, big.NewInt(1e6)) // Euclidean: rounds down
}

func isUnion(t reflect.Type) bool {
	if t.Kind() != reflect.Struct || t.NumField() == 0 {
		return false
	}
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Tag.Get("gotsrpc") != "union" {
			return false
		}
	}
	return true
}

// jsonDiffers compares a Go value with its JSON, decoded with numbers kept, by
// the documented mapping: json names, nil as null, bytes as base64, times as
// integer milliseconds, unions as their first set member. What is put into
// interface{} places is compared by its own type. It is the monitors' own
// reading of the format; nothing of gotsrpc or its codec takes part.
func jsonDiffers(v reflect.Value, x interface{}, path string) string {
	return jsonDiffersExt(v, x, path, nil)
}

// jsonDiffersExt knows values that have a JSON of their own.
func jsonDiffersExt(v reflect.Value, x interface{}, path string, ext func(v reflect.Value) (interface{}, bool)) string {
	if v.IsValid() && ext != nil && v.CanInterface() {
		if want, ok := ext(v); ok {
			if x != want {
				return fmt.Sprintf("%s: %#v on the wire, wanted %#v", path, x, want)
			}
			return ""
		}
	}
	if !v.IsValid() {
		if x != nil {
			return fmt.Sprintf("%s: %v instead of null", path, x)
		}
		return ""
	}
	t := v.Type()
	if t == typeTime {
		n, ok := x.(json.Number)
		want := millis(v.Interface().(time.Time)).String()
		if !ok || n.String() != want {
			return fmt.Sprintf("%s: time %v is %v (%T) on the wire, wanted %s", path, v.Interface(), x, x, want)
		}
		return ""
	}
	bad := func(want interface{}) string {
		return fmt.Sprintf("%s: %#v on the wire, wanted %v", path, x, want)
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			if x != nil {
				return bad("null")
			}
			return ""
		}
		return jsonDiffersExt(v.Elem(), x, path, ext)
	case reflect.Bool:
		if x != v.Bool() {
			return bad(v.Bool())
		}
	case reflect.String:
		if x != v.String() {
			return bad(strconv.Quote(v.String()))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n, ok := x.(json.Number); !ok || n.String() != strconv.FormatInt(v.Int(), 10) {
			return bad(v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n, ok := x.(json.Number); !ok || n.String() != strconv.FormatUint(v.Uint(), 10) {
			return bad(v.Uint())
		}
	case reflect.Float32, reflect.Float64:
		n, ok := x.(json.Number)
		if !ok {
			return bad(v.Float())
		}
		f, err := strconv.ParseFloat(n.String(), t.Bits())
		if err != nil || f != v.Float() || math.Signbit(f) != math.Signbit(v.Float()) && f != 0 {
			return bad(v.Float())
		}
	case reflect.Slice:
		if v.IsNil() {
			if x != nil {
				return bad("null")
			}
			return ""
		}
		fallthrough
	case reflect.Array:
		if t.Elem() == reflect.TypeOf(byte(0)) {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			if s, ok := x.(string); !ok || s != base64.StdEncoding.EncodeToString(b) {
				return bad("base64")
			}
			return ""
		}
		xs, ok := x.([]interface{})
		if !ok || len(xs) != v.Len() {
			return bad(fmt.Sprintf("an array of %d", v.Len()))
		}
		for i := range xs {
			if d := jsonDiffersExt(v.Index(i), xs[i], fmt.Sprintf("%s[%d]", path, i), ext); d != "" {
				return d
			}
		}
	case reflect.Map:
		if v.IsNil() {
			if x != nil {
				return bad("null")
			}
			return ""
		}
		m, ok := x.(map[string]interface{})
		if !ok || len(m) != v.Len() {
			return bad(fmt.Sprintf("an object of %d", v.Len()))
		}
		for _, k := range v.MapKeys() {
			y, ok := m[fmt.Sprint(k.Interface())]
			if !ok {
				return fmt.Sprintf("%s: no key %q in %v", path, fmt.Sprint(k.Interface()), keysOf(m))
			}
			if d := jsonDiffersExt(v.MapIndex(k), y, fmt.Sprintf("%s[%q]", path, fmt.Sprint(k.Interface())), ext); d != "" {
				return d
			}
		}
	case reflect.Struct:
		if isUnion(t) {
			for i := 0; i < t.NumField(); i++ {
				if f := v.Field(i); !f.IsZero() {
					return jsonDiffersExt(f, x, path+"<"+t.Field(i).Name+">", ext)
				}
			}
			if x != nil {
				return bad("null for a union without member")
			}
			return ""
		}
		m, ok := x.(map[string]interface{})
		if !ok {
			return bad("an object")
		}
		seen := map[string]bool{}
		if d := structDiffers(v, m, seen, path, ext); d != "" {
			return d
		}
		for k := range m {
			if !seen[k] {
				return fmt.Sprintf("%s: unexpected property %q", path, k)
			}
		}
	default:
		return fmt.Sprintf("%s: %s has no JSON", path, t)
	}
	return ""
}

func structDiffers(v reflect.Value, m map[string]interface{}, seen map[string]bool, path string, ext func(v reflect.Value) (interface{}, bool)) string {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := strings.Split(rt.JSONTag(f), ",")
		name, opts := tag[0], tag[1:]
		if name == "-" && len(opts) == 0 || !f.IsExported() && !(f.Anonymous && name == "" && f.Type.Kind() == reflect.Struct) {
			continue
		}
		fv := v.Field(i)
		if f.Anonymous && name == "" {
			if fv.Kind() == reflect.Ptr {
				if fv.IsNil() {
					for n := range propNames(f.Type.Elem()) {
						if m[n] == nil {
							seen[n] = true
						}
					}
					continue
				}
				fv = fv.Elem()
			}
			if fv.Kind() == reflect.Struct {
				if d := structDiffers(fv, m, seen, path, ext); d != "" {
					return d
				}
				continue
			}
		}
		if name == "" {
			name = f.Name
		}
		seen[name] = true
		x, present := m[name]
		if !present {
			omit := false
			for _, o := range opts {
				omit = omit || o == "omitempty"
			}
			if k := fv.Kind(); omit && (fv.IsZero() || (k == reflect.Map || k == reflect.Slice) && fv.Len() == 0 || k == reflect.Struct) {
				continue
			}
			return fmt.Sprintf("%s: no property %q", path, name)
		}
		if d := jsonDiffersExt(fv, x, path+"."+name, ext); d != "" {
			return d
		}
	}
	return ""
}

// propNames are a struct's property names.
func propNames(t reflect.Type) map[string]bool {
	r := map[string]bool{}
	for i := 0; i < t.NumField(); i++ {
		n := strings.Split(rt.JSONTag(t.Field(i)), ",")[0]
		if n == "" {
			n = t.Field(i).Name
		}
		r[n] = true
	}
	return r
}

func keysOf(m map[string]interface{}) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	return
}
