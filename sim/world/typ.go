// Package world holds the simulated clients, their faults, the reference models and the oracles.
package world

import (
	"encoding/json"
	"mime/multipart"
	"reflect"
	"strconv"
	"time"

	"verifsim/cat"
)

// T describes a Go type in a plan.
type T struct {
	K string `json:"k"`           // kind
	E *T     `json:"e,omitempty"` // element of slice, map, ptr
	N string `json:"n,omitempty"` // catalogue name
	F []F    `json:"f,omitempty"` // fields of struct
}

// F describes a struct field.
type F struct {
	N string      `json:"n"`
	T T           `json:"t"`
	G [][2]string `json:"g,omitempty"`
}

var kinds = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "int": reflect.TypeOf(0), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"int8": reflect.TypeOf(int8(0)), "uint": reflect.TypeOf(uint(0)), "uint16": reflect.TypeOf(uint16(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)), "bool": reflect.TypeOf(false),
	"time": reflect.TypeOf(time.Time{}), "bytes": reflect.TypeOf([]byte{}), "any": reflect.TypeOf((*interface{})(nil)).Elem(),
	"raw": reflect.TypeOf(json.RawMessage{}), "file": reflect.TypeOf((*multipart.File)(nil)).Elem(),
	"fileh": reflect.TypeOf((*multipart.FileHeader)(nil)),
	// Unsupported by schema reflection: makes a registration fail.
	"chan": reflect.TypeOf((chan int)(nil)), "func": reflect.TypeOf((func())(nil)),
}

// Type builds the described type.
func (t T) Type() reflect.Type {
	switch t.K {
	case "slice":
		return reflect.SliceOf(t.E.Type())
	case "array":
		return reflect.ArrayOf(3, t.E.Type())
	case "map":
		return reflect.MapOf(kinds["string"], t.E.Type())
	case "ptr":
		return reflect.PtrTo(t.E.Type())
	case "cat":
		return reflect.TypeOf(cat.Types[t.N]()).Elem()
	case "struct":
		var fs []reflect.StructField

		for _, f := range t.F {
			fs = append(fs, reflect.StructField{Name: f.N, Type: f.T.Type(), Tag: f.tag()})
		}

		return reflect.StructOf(fs)
	}

	return kinds[t.K]
}

func (f F) tag() reflect.StructTag {
	s := ""

	for _, g := range f.G {
		if s != "" {
			s += " "
		}

		s += g[0] + ":" + strconv.Quote(g[1])
	}

	return reflect.StructTag(s)
}

func (f F) get(name string) (string, bool) {
	return f.tag().Lookup(name)
}

// New makes a sample value: a pointer to a zero value, or the zero value itself.
func (t T) New(ptr bool) interface{} {
	v := reflect.New(t.Type())
	if t.K == "cat" && virtual[t.N] {
		v = reflect.ValueOf(cat.Types[t.N]())
	}

	if ptr {
		return v.Interface()
	}

	return v.Elem().Interface()
}

// virtual are types whose values matter.
var virtual = map[string]bool{"Virtual": true, "VirtualResp": true}

func array(e T) T { return T{K: "array", E: &e} }

func k(kind string) T { return T{K: kind} }

func slice(e T) T { return T{K: "slice", E: &e} }

func mapOf(e T) T { return T{K: "map", E: &e} }

func ptr(e T) T { return T{K: "ptr", E: &e} }

func named(n string) T { return T{K: "cat", N: n} }
