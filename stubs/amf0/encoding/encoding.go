// Package encoding is a stand-in for github.com/WatchBeam/amf0/encoding.
package encoding

import (
	"fmt"
	"io"
	"reflect"

	"github.com/WatchBeam/amf0"
)

var amfType = reflect.TypeOf((*amf0.AmfType)(nil)).Elem()

// Marshal encodes the fields of the struct v points to, in order.
func Marshal(v interface{}) ([]byte, error) {
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Ptr || r.IsNil() || r.Elem().Kind() != reflect.Struct {
		return nil, fmt.Errorf("amf0: cannot marshal %T", v)
	}
	r = r.Elem()
	var b []byte
	for i := 0; i < r.NumField(); i++ {
		f := r.Field(i)
		if r.Type().Field(i).PkgPath != "" {
			b = amf0.Encode(b, &amf0.Null{})
			continue
		}
		switch f.Kind() {
		case reflect.String:
			s := amf0.String(f.String())
			b = amf0.Encode(b, &s)
		case reflect.Float64:
			n := amf0.Number(f.Float())
			b = amf0.Encode(b, &n)
		case reflect.Bool:
			n := amf0.Bool(f.Bool())
			b = amf0.Encode(b, &n)
		case reflect.Ptr:
			if f.IsNil() {
				b = amf0.Encode(b, &amf0.Null{})
			} else {
				b = amf0.Encode(b, f.Interface().(amf0.AmfType))
			}
		case reflect.Struct:
			b = amf0.Encode(b, f.Addr().Interface().(amf0.AmfType))
		default:
			return nil, fmt.Errorf("amf0: cannot marshal field %v", f.Type())
		}
	}
	return b, nil
}

// Unmarshal decodes the fields of the struct v points to, in order.
func Unmarshal(rd io.Reader, v interface{}) error {
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Ptr || r.IsNil() || r.Elem().Kind() != reflect.Struct {
		return fmt.Errorf("amf0: cannot unmarshal into %T", v)
	}
	r = r.Elem()
	for i := 0; i < r.NumField(); i++ {
		x, err := amf0.Decode(rd)
		if err != nil {
			return err
		}
		f := r.Field(i)
		if r.Type().Field(i).PkgPath != "" {
			continue
		}
		bad := fmt.Errorf("amf0: cannot decode %T into %v", x, f.Type())
		switch f.Kind() {
		case reflect.String:
			s, ok := x.(*amf0.String)
			if !ok {
				return bad
			}
			f.SetString(string(*s))
		case reflect.Float64:
			n, ok := x.(*amf0.Number)
			if !ok {
				return bad
			}
			f.SetFloat(float64(*n))
		case reflect.Bool:
			n, ok := x.(*amf0.Bool)
			if !ok {
				return bad
			}
			f.SetBool(bool(*n))
		case reflect.Ptr:
			if _, ok := x.(*amf0.Null); ok && f.Type() != reflect.TypeOf(x) {
				continue
			}
			if reflect.TypeOf(x) != f.Type() {
				return bad
			}
			f.Set(reflect.ValueOf(x))
		case reflect.Struct:
			if reflect.TypeOf(x).Elem() != f.Type() {
				return bad
			}
			f.Set(reflect.ValueOf(x).Elem())
		default:
			return bad
		}
	}
	return nil
}
