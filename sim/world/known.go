package world

import (
	"bytes"
	"encoding/json"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"verifsim/cat"
)

// knownRuns are scenarios of known findings.
var knownRuns = map[string]func(r *Result){
	"recursive-header": func(r *Result) { // Exhausts the stack.
		for _, ver := range []string{"3.0", "3.1"} {
			d := NewDoc(ver, Cfg{})

			o := guard(func() error {
				return d.Refl().WalkResponseJSONSchemas(openapi.ContentUnit{Structure: new(cat.TreeH)},
					func(openapi.In, string, *jsonschema.SchemaOrBool, bool) error { return nil }, nil)
			})
			if !o.ok() {
				r.violate("hang", "walk: %v", o)
			}
		}
	},
	"alternatives-without-body": func(r *Result) {
		both(r, func(ver string) {
			get := &OpSpec{Method: "get", Path: "/a", Req: []CU{{T: catT("AnyShape"), Ptr: true}}}
			post := &OpSpec{Method: "post", Path: "/b", Resp: []CU{{T: catT("Owner"), Ptr: true, Status: 200}}}

			a, b := docOf(r, ver, get, post), docOf(r, ver, post, get)
			if d := diff(a, b); d != "" {
				r.violate("order", "%s: documents of two orders differ: %s", ver, d)
			}
		})
	},
	"query-and-json": func(r *Result) {
		both(r, func(ver string) {
			get := &OpSpec{Method: "get", Path: "/a", Req: []CU{{T: &T{K: "struct", F: []F{{N: "Tree", T: named("TreeR"), G: [][2]string{{"query", "tree"}}}}}, Ptr: true}}}
			post := &OpSpec{Method: "post", Path: "/b", Resp: []CU{{T: catT("TreeR"), Ptr: true, Status: 200}}}

			a, b := docOf(r, ver, get, post), docOf(r, ver, post, get)
			if d := diff(a, b); d != "" {
				r.violate("order", "%s: documents of two orders differ: %s", ver, d)
			}
		})
	},
	"enveloped-nullability": func(r *Result) {
		both(r, func(ver string) {
			get := &OpSpec{Method: "get", Path: "/a", Resp: []CU{{T: catT("ChainA"), Ptr: true, Status: 200}}}
			post := &OpSpec{Method: "post", Path: "/b", Resp: []CU{{T: catT("ChainB"), Ptr: true, Status: 200}}}

			cfg := Cfg{EnvNull: true}

			a, b := docWith(r, ver, cfg, get, post), docWith(r, ver, cfg, post, get)
			if d := diff(a, b); d != "" {
				r.violate("order", "%s: documents of two orders differ: %s", ver, d)
			}
		})
	},
	"merge-key": func(r *Result) {
		both(r, func(ver string) {
			reload(r, ver, "yaml", `{"<<":{"a":1},"b":2}`)
		})
	},
	"header-content": func(r *Result) {
		both(r, func(ver string) {
			d := NewDoc(ver, Cfg{})

			o := guard(func() error {
				return d.LoadJSON([]byte(`{"openapi":"` + ver + `.0","info":{"title":"t","version":"v"},"paths":{"/a":{"get":{"responses":{"200":` +
					`{"description":"","headers":{"X-A":{"content":{"text/plain":{}}}}}}}}}}`))
			})
			if !o.ok() {
				r.violate("load", "%v", o)

				return
			}

			s, _ := r.snap(d, "at the end")
			if e := conformance(ver, s.j); e != "" {
				r.violate("schema", "%s: %s", ver, e)
			}
		})
	},
	"long-integer": func(r *Result) {
		both(r, func(ver string) {
			reload(r, ver, "json", `9007199254740993`)
		})
	},
	"set-up-shares": func(r *Result) {
		both(r, func(ver string) {
			d := NewDoc(ver, Cfg{})
			s := &OpSpec{Method: "get", Path: "/a", Req: []CU{{T: &T{K: "struct", F: []F{{N: "Q", T: k("int"), G: [][2]string{{"query", "q"}}}}}, Ptr: true}}}

			if o := guard(func() error { return register(d, s, false, nil) }); !o.ok() {
				r.violate("rejected", "%v", o)

				return
			}

			was, _ := d.JSON()

			o := guard(func() error {
				return d.SpecSetup("get", "/a", func(h OpHandle) error {
					if err := h.AddResponse("404", []byte(`{"description":"Added."}`)); err != nil {
						return err
					}

					return errInjected
				})
			})

			if is, _ := d.JSON(); string(is) != string(was) {
				r.violate("trace", "%s: failed set up (%v) leaves a trace: %s", ver, o, around(is, was))
			}
		})
	},
}

func both(r *Result, f func(ver string)) {
	for _, ver := range []string{"3.0", "3.1"} {
		if r.Violation == "" {
			f(ver)
		}
	}
}

func catT(n string) *T {
	t := named(n)

	return &t
}

func docOf(r *Result, ver string, l ...*OpSpec) obj { return docWith(r, ver, Cfg{}, l...) }

func docWith(r *Result, ver string, cfg Cfg, l ...*OpSpec) obj {
	d := NewDoc(ver, cfg)

	for _, s := range l {
		if o := guard(func() error { return register(d, s, false, nil) }); !o.ok() {
			r.violate("rejected", "%s: %v", s.Path, o)
		}
	}

	s, _ := r.snap(d, "at the end")

	return s.j
}

// reload persists and loads a document with an extension.
func reload(r *Result, ver, form, ext string) {
	doc := `{"openapi":"` + ver + `.0","info":{"title":"","version":"","x-value":` + ext + `},"paths":{}}`
	d, l := NewDoc(ver, Cfg{}), NewDoc(ver, Cfg{})

	var a, b []byte

	o := guard(func() (err error) {
		if err = d.LoadJSON([]byte(doc)); err != nil {
			return err
		}

		if form == "yaml" {
			y, err := d.YAML()
			if err != nil {
				return err
			}

			if err = l.LoadYAML(y); err != nil {
				return err
			}
		} else if err = l.LoadJSON([]byte(doc)); err != nil {
			return err
		}

		a = []byte(doc)
		b, err = l.JSON()

		return err
	})

	if !o.ok() {
		r.violate("load", "%v", o)
	}

	dec := func(b []byte) interface{} {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()

		var v interface{}

		_ = d.Decode(&v)

		return v
	}

	if x := diff(dec(b), dec(a)); x != "" {
		r.violate("content", "%s: content of the loaded document differs: %s", ver, x)
	}
}

// Known executes the scenario of a known finding.
func Known(name string) (r Result) {
	f, ok := knownRuns[name]
	if !ok {
		r.Harness = "unknown scenario " + name

		return r
	}

	if o := guard(func() error { f(&r); return nil }); o.pan != nil {
		r.Harness = o.String()
	}

	return r
}
