package props

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
)

// deep writes down everything reachable from v, including unexported fields
// and the memory behind the length of slices, so that two snapshots are equal
// only if nothing was changed.
func deep(v any) string {
	var b strings.Builder
	deepWrite(&b, reflect.ValueOf(v), map[uintptr]bool{}, 0)
	return b.String()
}

var (
	deepTime  = reflect.TypeOf(time.Time{})
	deepRSA   = reflect.TypeOf(&rsa.PrivateKey{})
	deepEC    = reflect.TypeOf(&ecdsa.PrivateKey{})
	deepLoc   = reflect.TypeOf(&time.Location{})
	deepCurve = reflect.TypeOf((*elliptic.Curve)(nil)).Elem()
)

func deepWrite(b *strings.Builder, v reflect.Value, seen map[uintptr]bool, depth int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if depth > 24 {
		b.WriteString("...")
		return
	}
	switch v.Type() {
	case deepRSA, deepEC: // of the standard library, with caches of their own
		fmt.Fprintf(b, "%s", v.Type())
		return
	case deepLoc:
		fmt.Fprintf(b, "loc%x", v.Pointer())
		return
	case deepCurve:
		if !v.IsNil() {
			fmt.Fprintf(b, "%s", v.Elem().Type())
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if seen[v.Pointer()] {
			b.WriteString("seen")
			return
		}
		seen[v.Pointer()] = true
		b.WriteByte('&')
		deepWrite(b, v.Elem(), seen, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "(%s)", v.Elem().Type())
		deepWrite(b, v.Elem(), seen, depth+1)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			b.WriteString(v.Type().Field(i).Name)
			b.WriteByte(':')
			deepWrite(b, v.Field(i), seen, depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "[%d/%d:", v.Len(), v.Cap())
		f := v.Slice(0, v.Cap())
		for i := 0; i < f.Len(); i++ {
			deepWrite(b, f.Index(i), seen, depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			deepWrite(b, v.Index(i), seen, depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			deepWrite(&e, k, seen, depth+1)
			e.WriteByte('=')
			deepWrite(&e, v.MapIndex(k), seen, depth+1)
			l = append(l, e.String())
		}
		sort.Strings(l)
		fmt.Fprint(b, l)
	default:
		fmt.Fprintf(b, "%s", v.Type())
	}
}

// roomy gives every slice reachable through exported fields spare capacity,
// so that an append to it would be seen.
func roomy(v any) { roomyValue(reflect.ValueOf(v), 0) }

func roomyValue(v reflect.Value, depth int) {
	if depth > 12 || !v.IsValid() {
		return
	}
	if v.Type() == deepTime {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && v.Type() != deepRSA && v.Type() != deepEC && v.Type() != deepLoc {
			roomyValue(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				roomyValue(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() {
			return
		}
		n := reflect.MakeSlice(v.Type(), v.Len()+3, v.Len()+3)
		reflect.Copy(n, v)
		v.Set(n.Slice(0, v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			roomyValue(v.Index(i), depth+1)
		}
	}
}
