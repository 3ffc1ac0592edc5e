package world

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
)

// Digest is a fingerprint of a value that follows every exported field and does not use the program's own
// serialisation.  nil and empty slices and maps are the same; skip names fields that are left out.
func Digest(x interface{}, skip ...string) string {
	sk := map[string]bool{}
	for _, s := range skip {
		sk[s] = true
	}
	h := sha256.Sum256(walk(make([]byte, 0, 1<<16), reflect.ValueOf(x), sk))
	return fmt.Sprintf("%x", h[:10])
}

var bigT = reflect.TypeOf(big.Int{})

func walk(b []byte, v reflect.Value, skip map[string]bool) []byte {
	switch v.Kind() {
	case reflect.Invalid:
		b = append(b, "nil;"...)
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return append(b, "nil;"...)
		}
		if v.Kind() == reflect.Ptr && v.Type().Elem() == bigT && v.CanInterface() {
			b = append(b, 'i')
			b = v.Interface().(*big.Int).Append(b, 10)
			return append(b, ';')
		}
		b = walk(b, v.Elem(), skip)
	case reflect.Struct:
		if v.Type() == bigT {
			i := v.Interface().(big.Int)
			b = append(b, 'i')
			b = i.Append(b, 10)
			return append(b, ';')
		}
		t := v.Type()
		b = append(b, '{')
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() || skip[f.Name] {
				continue
			}
			b = append(b, f.Name...)
			b = append(b, ':')
			b = walk(b, v.Field(i), skip)
		}
		b = append(b, '}')
	case reflect.Slice, reflect.Array:
		b = append(b, '[')
		b = strconv.AppendInt(b, int64(v.Len()), 10)
		b = append(b, ':')
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				b = append(b, byte(v.Index(i).Uint()))
			}
		} else {
			for i := 0; i < v.Len(); i++ {
				b = walk(b, v.Index(i), skip)
			}
		}
		b = append(b, ']')
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		b = append(b, '<')
		b = strconv.AppendInt(b, int64(len(keys)), 10)
		b = append(b, ':')
		for _, k := range keys {
			b = append(b, fmt.Sprintf("%v=>", k)...)
			b = walk(b, v.MapIndex(k), skip)
		}
		b = append(b, '>')
	case reflect.Func, reflect.Chan:
	case reflect.String:
		b = strconv.AppendQuote(b, v.String())
		b = append(b, ';')
	case reflect.Bool:
		b = strconv.AppendBool(b, v.Bool())
		b = append(b, ';')
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b = strconv.AppendInt(b, v.Int(), 10)
		b = append(b, ';')
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b = strconv.AppendUint(b, v.Uint(), 10)
		b = append(b, ';')
	default:
		b = append(b, fmt.Sprintf("%v;", v)...)
	}
	return b
}
