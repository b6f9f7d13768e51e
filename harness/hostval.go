package main

import (
	"fmt"
	"reflect"
	"strconv"

	. "github.com/steelseries/golisp"
)

var hostKinds = map[string]reflect.Type{
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "string": reflect.TypeOf(""), "bool": reflect.TypeOf(true),
}
var anyType = reflect.TypeOf((*interface{})(nil)).Elem()

type namedInt int
type namedString string

// hostValue builds the Go value a description stands for.
func hostValue(d *Data) reflect.Value {
	kind := StringValue(Car(d))
	switch kind {
	case "ptr":
		e := hostValue(Cadr(d))
		p := reflect.New(e.Type())
		p.Elem().Set(e)
		return p
	case "nilptr":
		return reflect.Zero(reflect.PtrTo(reflect.TypeOf(0)))
	case "nil":
		return reflect.Zero(anyType)
	case "named-int":
		i, _ := strconv.Atoi(StringValue(Cadr(d)))
		return reflect.ValueOf(namedInt(i))
	case "named-string":
		return reflect.ValueOf(namedString(StringValue(Cadr(d))))
	case "slice", "array", "typed":
		vs := []reflect.Value{}
		for c := Cdr(d); NotNilP(c); c = Cdr(c) {
			vs = append(vs, hostValue(Car(c)))
		}
		if kind == "array" {
			a := reflect.New(reflect.ArrayOf(len(vs), anyType)).Elem()
			for i, v := range vs {
				a.Index(i).Set(v)
			}
			return a
		}
		t := anyType
		if kind == "typed" { // all of the same type
			t = vs[0].Type()
		}
		s := reflect.MakeSlice(reflect.SliceOf(t), 0, len(vs))
		return reflect.Append(s, vs...)
	case "map":
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), anyType))
		for c := Cdr(d); NotNilP(c); c = Cdr(c) {
			m.SetMapIndex(reflect.ValueOf(StringValue(Car(Car(c)))), hostValue(Cadr(Car(c))))
		}
		return m
	case "struct": // fields (name tag value)
		fs, vs := []reflect.StructField{}, []reflect.Value{}
		for c := Cdr(d); NotNilP(c); c = Cdr(c) {
			f := Car(c)
			v := hostValue(Caddr(f))
			sf := reflect.StructField{Name: StringValue(Car(f)), Type: v.Type()}
			if tag := StringValue(Cadr(f)); tag != "" {
				sf.Tag = reflect.StructTag(fmt.Sprintf("json:%q", tag))
			}
			if c := sf.Name[0]; c >= 'a' && c <= 'z' {
				sf.PkgPath = "main"
			}
			fs, vs = append(fs, sf), append(vs, v)
		}
		s := reflect.New(reflect.StructOf(fs)).Elem()
		for i, v := range vs {
			if s.Field(i).CanSet() {
				s.Field(i).Set(v)
			}
		}
		return s
	}
	t, ok := hostKinds[kind]
	if !ok {
		panic("no such kind of host value: " + kind)
	}
	v := reflect.New(t).Elem()
	text := StringValue(Cadr(d))
	switch {
	case kind == "string":
		v.SetString(text)
	case kind == "bool":
		v.SetBool(text == "true")
	case kind[0] == 'i':
		i, _ := strconv.ParseInt(text, 10, 64)
		v.SetInt(i)
	case kind[0] == 'u':
		i, _ := strconv.ParseUint(text, 10, 64)
		v.SetUint(i)
	default:
		f, _ := strconv.ParseFloat(text, 64)
		v.SetFloat(f)
	}
	return v
}

// (vhost d): the value the host gives a program for the Go value described by d
func installHostValues() {
	MakePrimitiveFunction("vhost", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		v := hostValue(Car(args))
		return JsonToLispWithFrames(v.Interface()), nil
	})
}
