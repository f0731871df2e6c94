package lib

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	math "github.com/IBM/mathlib"
)

// Dump lists, by path, every element, scalar, number, string and byte slice
// reachable from the pointer p.  Nil components are left out, so that a
// component that is computed lazily and remembered is no change.
func Dump(p interface{}) map[string]string {
	out := map[string]string{}
	var rec func(path string, v reflect.Value)
	rec = func(path string, v reflect.Value) {
		v = access(v)
		t := v.Type()
		if strings.HasPrefix(t.PkgPath(), "sync") {
			return
		}
		if isElem(t) {
			if v.IsNil() {
				return
			}
			switch e := v.Interface().(type) {
			case *math.G1:
				out[path] = fmt.Sprintf("%x", e.Bytes())
			case *math.G2:
				out[path] = fmt.Sprintf("%x", e.Bytes())
			case *math.Gt:
				out[path] = fmt.Sprintf("%x", e.Bytes())
			case *math.Zr:
				out[path] = e.String()
			}
			return
		}
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if !v.IsNil() {
				e := v.Elem()
				if v.Kind() == reflect.Interface && e.Kind() != reflect.Ptr {
					c := reflect.New(e.Type()).Elem()
					c.Set(e)
					e = c
				}
				rec(path, e)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(path+"."+fieldNames(t)[i], v.Field(i))
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			if t.Elem().Kind() == reflect.Uint8 {
				out[path] = fmt.Sprintf("%x", v.Bytes())
				return
			}
			out[path+"#"] = fmt.Sprint(v.Len())
			for i := 0; i < v.Len(); i++ {
				rec(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				e := reflect.New(t.Elem()).Elem()
				e.Set(v.MapIndex(k))
				rec(fmt.Sprintf("%s{%v}", path, k.Interface()), e)
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
			reflect.String:
			out[path] = fmt.Sprint(v.Interface())
		}
	}
	rec("", reflect.ValueOf(p).Elem())
	return out
}

// Changed says which component of an earlier dump is not what it was.
func Changed(before map[string]string, p interface{}) string {
	after := Dump(p)
	var ks []string
	for k := range before {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if after[k] != before[k] {
			return fmt.Sprintf("%s (%.40s... became %.40s...)", k, before[k], after[k])
		}
	}
	return ""
}
