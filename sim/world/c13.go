package world

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"verifsim/simrt"
)

// C13: values of the user fail to encode while the document is serialised.

type c13Extra struct {
	Doc   json.RawMessage `json:"doc,omitempty"`
	Ops   []*OpSpec       `json:"ops,omitempty"`
	Slots []slotPick      `json:"slots"`
	Bad   []slotPick      `json:"bad,omitempty"` // replaced by what can not be encoded, one after the other
}

// slotPick is a value of the document to be replaced.
type slotPick struct {
	Pm   int    `json:"pm"`
	Kind string `json:"kind"`
}

func genC13(g *genCtx, p *Plan, _ int) {
	x := c13Extra{}

	if g.P(65) {
		p.Kind = "content"
		x.Doc, _ = json.Marshal(g.entDoc(p.Ver))
	} else {
		p.Kind = "registered"
		p.Cfg = g.genCfg()

		for i := g.In(1, 4); i > 0; i-- {
			x.Ops = append(x.Ops, g.op(g.method(), g.path()))
		}
	}

	for i := g.In(1, 6); i > 0; i-- {
		x.Slots = append(x.Slots, slotPick{Pm: g.N(1000), Kind: g.Of("json", "json", "jsonptr", "text", "deep", "list")})
	}

	for i := g.N(3); i > 0; i-- {
		x.Bad = append(x.Bad, slotPick{Pm: g.N(1000), Kind: g.Of("chan", "func", "nan", "inf", "cycle", "key", "complex")})
	}

	p.Extra, _ = json.Marshal(x)

	nc := g.In(1, 3)

	for c := 0; c < nc; c++ {
		var l []Step

		for i := g.In(1, 4); i > 0; i-- {
			st := Step{Op: g.Of("json", "yaml")}

			if g.P(70) {
				st.Faults = []Fault{{Pm: g.N(1000), Kind: g.Of("err", "err", "panic", "garbage", "nothing", "cut"), Stay: g.P(30)}}
			}

			l = append(l, st)
		}

		p.Clients = append(p.Clients, l)
	}

	p.Sched = g.sched(g.N(6*nc+1), g.Of2(20, 100, 400), nc)
}

// Of2 picks a number.
func (g *genCtx) Of2(l ...int) int { return l[g.N(len(l))] }

// encs are the encoders of a document.
type encs struct {
	r     *Result
	calls map[int]int // by client
	armed map[int]Fault
	fired map[int]string
}

func (e *encs) call(out []byte) ([]byte, error) {
	simrt.Point()

	c := simrt.Cur()
	e.calls[c]++

	f, ok := e.armed[c]
	if !ok || (e.calls[c] != f.At && !(f.Stay && e.calls[c] > f.At)) {
		return out, nil
	}

	e.fired[c] = f.Kind
	e.r.fault("encoder: " + f.Kind)

	switch f.Kind {
	case "panic":
		panic(injPanic{e.calls[c]})
	case "garbage":
		return []byte(`{"a":}`), nil
	case "nothing":
		return nil, nil
	case "cut":
		return append(append([]byte{'['}, out...), ','), nil
	}

	return nil, fmt.Errorf("encoder %d: %w", e.calls[c], errInjected)
}

// jsonEnc encodes what it stands for.
type jsonEnc struct {
	e   *encs
	out []byte
}

func (j jsonEnc) MarshalJSON() ([]byte, error) { return j.e.call(j.out) }

type jsonPtrEnc struct{ jsonEnc }

func (j *jsonPtrEnc) MarshalJSON() ([]byte, error) { return j.e.call(j.out) }

type textEnc struct {
	e *encs
	s string
}

func (t textEnc) MarshalText() ([]byte, error) {
	b, err := t.e.call([]byte(t.s))
	if t.e.fired[simrt.Cur()] != "" && err == nil { // Any text is fine, so this has to be an error.
		return nil, errInjected
	}

	return b, err
}

// eachValue calls f for every user value that the library passes on to encoding/json as it is. What f returns replaces it.
func eachValue(v reflect.Value, at string, f func(at string, v interface{}) (interface{}, bool)) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			eachValue(v.Elem(), at, f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if sf := v.Type().Field(i); sf.PkgPath == "" && v.Field(i).CanSet() && !skipped[sf.Name] {
				eachValue(v.Field(i), at+"."+sf.Name, f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			eachValue(v.Index(i), fmt.Sprintf("%s[%d]", at, i), f)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })

		for _, k := range keys {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			eachValue(e, at+"["+k.String()+"]", f)
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		if v.NumMethod() > 0 || v.IsNil() {
			return
		}

		old := v.Interface()

		if now, ok := f(at, old); ok {
			v.Set(reflect.ValueOf(now))

			return
		}

		switch x := old.(type) {
		case map[string]interface{}:
			eachValue(reflect.ValueOf(x), at, f)
		case []interface{}:
			eachValue(reflect.ValueOf(x), at, f)
		}
	}
}

// skipped are fields that only tell what was loaded, they are not serialised.
var skipped = map[string]bool{"SchemaXORContent": true}

type jsonKey struct{ A int }

// unencodable is something that encoding/json refuses.
func unencodable(kind string) interface{} {
	switch kind {
	case "chan":
		return make(chan int)
	case "func":
		return func() {}
	case "nan":
		return math.NaN()
	case "inf":
		return []interface{}{1, math.Inf(1)}
	case "key":
		return map[jsonKey]int{{1}: 1}
	case "cycle":
		m := map[string]interface{}{}
		m["m"] = m

		return m
	}

	return complex(1, 2)
}

func runC13(p *Plan, r *Result) {
	x := c13Extra{}
	if err := json.Unmarshal(p.Extra, &x); err != nil {
		panic(err)
	}

	d := NewDoc(p.Ver, p.Cfg)

	if x.Doc != nil {
		if o := guard(func() error { return d.LoadJSON(x.Doc) }); !o.ok() {
			return // Decided by C06.
		}
	}

	for _, s := range x.Ops {
		if o := guard(func() error { return register(d, s, false, nil) }); !o.ok() {
			return // Decided by C01 and C11.
		}
	}

	j0, y0, ok := r.bytesOf(d, "before")
	if !ok {
		return
	}

	spec := reflect.ValueOf(d.Spec())

	// Values that end up in the document can be told by replacing them.
	var all []string

	eachValue(spec, "", func(at string, v interface{}) (interface{}, bool) {
		all = append(all, at)

		return nil, false
	})

	if len(all) == 0 {
		return
	}

	e := &encs{r: r, calls: map[int]int{}, armed: map[int]Fault{}, fired: map[int]string{}}

	wrap := func(kind string, v interface{}) interface{} {
		b, err := json.Marshal(v)
		if err != nil {
			panic("harness: " + err.Error())
		}

		enc := jsonEnc{e, b}
		m, isMap := v.(map[string]interface{})
		l, isList := v.([]interface{})
		s, isText := v.(string)

		switch {
		case kind == "jsonptr":
			return &jsonPtrEnc{enc}
		case kind == "text" && isText:
			return textEnc{e, s}
		case kind == "deep" && isMap && len(m) > 0: // The failure is deep in a value.
			n := map[string]interface{}{}
			for k, v := range m {
				b, _ := json.Marshal(v)
				n[k] = jsonEnc{e, b}
			}

			return &n
		case kind == "list" && isList && len(l) > 0:
			n := make([]interface{}, len(l))
			for i, v := range l {
				b, _ := json.Marshal(v)
				n[i] = &jsonPtrEnc{jsonEnc{e, b}}
			}

			return &n
		}

		return enc
	}

	put := map[string]string{}

	for _, s := range x.Slots {
		put[all[s.Pm*len(all)/1000]] = s.Kind
	}

	eachValue(spec, "", func(at string, v interface{}) (interface{}, bool) {
		if kind, ok := put[at]; ok {
			return wrap(kind, v), true
		}

		return nil, false
	})

	total := 0

	// once serialises the document and tells whether the outcome is right.
	once := func(st *Step, what string) {
		c := simrt.Cur()
		e.calls[c] = 0

		delete(e.armed, c)
		delete(e.fired, c)

		if len(st.Faults) > 0 {
			f := st.Faults[0]
			if f.At == 0 {
				f.At = 1 + f.Pm*total/1000
			}

			e.armed[c] = f
		}

		var b []byte

		o := guard(func() (err error) {
			if st.Op == "yaml" {
				b, err = d.YAML()
			} else {
				b, err = d.JSON()
			}

			return err
		})

		kind := e.fired[c]
		what = fmt.Sprintf("%s %s", st.Op, what)
		want := j0

		if st.Op == "yaml" {
			want = y0
		}

		r.observe(o.String())
		r.logf("client %d: %s: %d calls, failure %q -> %v, %d bytes", c, what, e.calls[c], kind, o, len(b))

		switch {
		case r.crash(what, o):
		case kind == "" && !o.ok():
			r.violate("refused", "%s fails although no encoder does: %v", what, o)
		case kind == "" && !bytes.Equal(b, want):
			r.violate("bytes", "%s differs from the one without encoders: %s", what, around(b, want))
		case kind == "":
		case o.ok():
			r.violate("swallowed", "%s succeeds with %d bytes although an encoder failed (%s)", what, len(b), kind)
		case kind == "err" && !errors.Is(o.err, errInjected) && !strings.Contains(o.String(), errInjected.Error()):
			r.violate("lost", "%s does not tell the failure of the encoder: %v", what, o)
		case len(b) > 0:
			r.violate("partial", "%s returns %d bytes along with %v", what, len(b), o)
		}
	}

	once(&Step{Op: "json"}, "with encoders")

	total = e.calls[simrt.Cur()]
	if r.Violation != "" {
		return
	}

	var fs []func()

	for c := range p.Clients {
		c := c

		fs = append(fs, func() {
			for i := range p.Clients[c] {
				if r.Violation != "" {
					return
				}

				simrt.Point()
				once(&p.Clients[c][i], "of a client")
			}
		})
	}

	if len(fs) > 0 {
		simrt.Run(fs...)
	}

	for _, op := range []string{"json", "yaml"} {
		if r.Violation == "" {
			once(&Step{Op: op}, "after the failures")
		}
	}

	// Values that nothing can encode.
	for _, s := range x.Bad {
		if r.Violation != "" {
			return
		}

		at := all[s.Pm*len(all)/1000]
		found := false

		var old interface{}

		eachValue(spec, "", func(p string, v interface{}) (interface{}, bool) {
			if p != at {
				return nil, false
			}

			found, old = true, v

			return unencodable(s.Kind), true
		})

		if !found {
			continue
		}

		r.fault("value that can not be encoded: " + s.Kind)

		for _, f := range []func() ([]byte, error){d.JSON, d.YAML} {
			var b []byte

			o := guard(func() (err error) { b, err = f(); return err })

			if o.ok() {
				r.violate("swallowed", "document with a %s at %s is serialised to %d bytes", s.Kind, at, len(b))
			} else if r.crash("serialising a value that can not be encoded", o) || len(b) == 0 {
				continue
			} else {
				r.violate("partial", "%d bytes are returned along with %v", len(b), o)
			}
		}

		eachValue(spec, "", func(p string, v interface{}) (interface{}, bool) { return old, p == at })

		if aj, ay, ok := r.bytesOf(d, "after values are corrected"); ok {
			r.same("recovered", "document differs after values are corrected", aj, ay, j0, y0)
		}
	}

	if total > 0 {
		r.probe("documents with encoders that were called")
	}

	r.Nontriv = total > 0
}
