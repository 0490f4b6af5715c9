package world

import (
	"reflect"
	"strings"

	"github.com/swaggest/openapi-go"
)

// readBack compares what the context of an operation tells with what was declared in it.
func readBack(oc openapi.OperationContext, s *OpSpec) (what string, got, want interface{}) {
	path, _ := CleanPath(s.Path)

	type pair struct {
		what      string
		got, want interface{}
	}

	l := []pair{
		{"method", oc.Method(), strings.ToLower(s.Method)},
		{"path", oc.PathPattern(), path},
		{"id", oc.ID(), s.ID},
		{"summary", oc.Summary(), s.Sum},
		{"description", oc.Description(), s.Desc},
		{"tags", strings.Join(oc.Tags(), "\n"), strings.Join(s.Tags, "\n")},
		{"deprecation", oc.IsDeprecated(), s.Depr},
		{"number of request units", len(oc.Request()), len(s.Req)},
		{"number of response units", len(oc.Response()), len(s.Resp)},
	}

	units := func(what string, got []openapi.ContentUnit, want []CU) {
		for i := 0; i < len(got) && i < len(want); i++ {
			g, w := got[i], want[i].unit(nil)

			l = append(l,
				pair{what + " structure", reflect.TypeOf(g.Structure), reflect.TypeOf(w.Structure)},
				pair{what + " content type", g.ContentType, w.ContentType},
				pair{what + " format", g.Format, w.Format},
				pair{what + " status", g.HTTPStatus, w.HTTPStatus},
				pair{what + " default", g.IsDefault, w.IsDefault},
				pair{what + " description", g.Description, w.Description},
			)

			for _, in := range []openapi.In{"path", "query", "header", "cookie", "formData", "body"} {
				if g, w := g.FieldMapping(in), w.FieldMapping(in); len(g)+len(w) > 0 && !reflect.DeepEqual(g, w) {
					l = append(l, pair{what + " mapping in " + string(in), g, w})
				}
			}
		}
	}

	units("request unit", oc.Request(), s.Req)
	units("response unit", oc.Response(), s.Resp)

	for _, p := range l {
		if !reflect.DeepEqual(p.got, p.want) {
			return p.what, p.got, p.want
		}
	}

	return "", nil, nil
}

// readBack checks the context that a step has used.
func (x *expect) readBack(r *Result, e event) bool {
	if e.oc == nil || !e.out.ok() || e.decl == nil {
		return true
	}

	var (
		what      string
		got, want interface{}
	)

	out := guard(func() error {
		what, got, want = readBack(e.oc, e.decl)

		return nil
	})

	if r.crash("reading the context of "+e.decl.Method+" "+e.decl.Path, out) {
		return false
	}

	if what == "" && e.reg != nil && !e.created {
		om, err := x.m.Op(*e.reg, e.webhook)
		if err != nil {
			panic("harness: " + err.Error())
		}

		for _, in := range []openapi.In{"path", "query", "header", "cookie"} {
			_, w := om.Op["x-forbid-unknown-"+string(in)]

			if g := e.oc.UnknownParamsAreForbidden(in); g != w {
				what, got, want = "unknown parameters in "+string(in)+" are forbidden", g, w
			}
		}
	}

	if what != "" {
		r.violate("readback", "context of %s %s after %s tells %s: %v, want %v", e.decl.Method, e.decl.Path, e.step.Op, what, got, want)

		return false
	}

	return true
}
