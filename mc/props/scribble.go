package props

import (
	"crypto/ecdsa"
	"crypto/rsa"
	"math/big"
	"reflect"
	"time"

	"github.com/mmdet/mcrypto/sm2"
)

// scribble changes everything that belongs to a result its owner may change:
// fields, elements and big integers, but not byte strings, which may be parts
// of the argument, and not curves.
func scribble(v any) {
	defer func() { recover() }()
	scribbleKey(v)
	scribbleValue(reflect.ValueOf(v), 0)
}

func scribbleInt(l ...*big.Int) {
	for _, x := range l {
		if x != nil {
			x.SetInt64(0x5A5A)
		}
	}
}

func scribbleKey(v any) {
	switch k := v.(type) {
	case *sm2.PrivateKey:
		if k != nil {
			scribbleInt(k.D, k.X, k.Y)
		}
	case *sm2.PublicKey:
		if k != nil {
			scribbleInt(k.X, k.Y)
		}
	case *ecdsa.PrivateKey:
		if k != nil {
			scribbleInt(k.D, k.X, k.Y)
		}
	case *ecdsa.PublicKey:
		if k != nil {
			scribbleInt(k.X, k.Y)
		}
	case *rsa.PrivateKey:
		if k != nil {
			scribbleInt(k.D, k.N)
			scribbleInt(k.Primes...)
			k.E = 5
		}
	case *rsa.PublicKey:
		if k != nil {
			scribbleInt(k.N)
			k.E = 5
		}
	}
}

var bigType = reflect.TypeOf(&big.Int{})

func scribbleValue(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Type() == bigType {
			if v.CanInterface() {
				scribbleInt(v.Interface().(*big.Int))
			}
			return
		}
		if _, ok := v.Interface().(*time.Location); ok {
			return
		}
		scribbleValue(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		scribbleKey(v.Elem().Interface())
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Struct:
		switch v.Interface().(type) {
		case time.Time:
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(5, 5)))
			}
			return
		case sm2.PublicKey, ecdsa.PublicKey, rsa.PublicKey, sm2.PrivateKey, ecdsa.PrivateKey, rsa.PrivateKey:
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				scribbleValue(f, depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return // what a cache would find it by
		}
		for i := 0; i < v.Len(); i++ {
			scribbleValue(v.Index(i), depth+1)
		}
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("ZZ")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x55)
		}
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x55)
		}
	}
}
