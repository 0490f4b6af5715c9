package world

import (
	"errors"
	"fmt"
	"net/http"
	"sort"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
)

func genC08(g *genCtx, p *Plan, _ int) {
	p.Cfg = g.genCfg()
	p.Cfg.Hooks = g.P(50)
	g.hooky = p.Cfg.Hooks && g.P(50)

	if p.Cfg.EnvNull { // Schemas depend on what came before.
		for p.Clients == nil {
			if st, ok := g.walk(); ok {
				p.Clients = [][]Step{{st}}
			}
		}

		return
	}

	nc := g.In(1, 2)
	total := 0

	for c := 0; c < nc; c++ {
		var l []Step

		for i := g.N(3); i > 0; i-- {
			l = append(l, g.regSteps(p.Ver, i)...)
		}

		for i := g.In(1, 4); i > 0; i-- {
			st, ok := g.walk()
			if !ok {
				continue
			}

			if p.Cfg.Hooks && g.P(50) {
				st.Faults = []Fault{{Pm: g.N(1000), Kind: g.Of("err", "panic")}}
			}

			at := g.N(len(l) + 1)
			l = append(l[:at:at], append([]Step{st}, l[at:]...)...)

			if g.P(30) { // The same walk once more, later.
				st.Faults = nil
				l = append(l, st)
			}
		}

		p.Clients = append(p.Clients, l)
		total += len(l)
	}

	p.Sched = g.sched(g.N(2*nc+1), total, nc)
}

// walk is a walk of some content unit.
func (g *genCtx) walk() (Step, bool) {
	m := g.Of(bodyMeth...)
	if g.P(25) {
		m = g.method()
	}

	s := g.op(m, g.Of("/x", "/x/{id}"))
	st := Step{Op: "walk", Arg: g.Of("", "", "", "nested", "nodone")}

	if g.P(65) && len(s.Req) > 0 {
		st.Name = s.Method
		cu := s.Req[g.N(len(s.Req))]
		st.CU = &cu

		return st, true
	}

	if len(s.Resp) > 0 {
		cu := s.Resp[g.N(len(s.Resp))]
		st.CU = &cu

		return st, true
	}

	return st, false
}

// call is one call of a callback of a walk.
type call struct {
	in, name string
	required bool
	schema   interface{} // nil if there is none
	comps    obj
}

func (c call) id() string { return fmt.Sprintf("%s %s required=%v", c.in, c.name, c.required) }

// walked is what a walk did.
type walked struct {
	calls []call
	done  []int // number of calls before each call of done
	out   outcome
	oc    openapi.OperationContext
}

// walk walks a content unit, the callback fails in call number failAt.
func (w *hist) walk(st *Step, failAt int, mode string, nested func()) walked {
	var res walked

	cb := func(in openapi.In, name string, schema *jsonschema.SchemaOrBool, required bool) error {
		c := call{in: string(in), name: name, required: required}

		if schema != nil {
			j := toJSON(*schema)

			if o, ok := j.(obj); ok {
				if cs, ok := o["components"].(obj); ok {
					c.comps, _ = cs["schemas"].(obj)
					delete(o, "components")
				}
			}

			c.schema = j
		}

		res.calls = append(res.calls, c)

		if len(res.calls) == failAt {
			switch mode {
			case "err":
				return fmt.Errorf("callback %d: %w", failAt, errInjected)
			case "panic":
				panic(injPanic{failAt})
			}
		}

		if nested != nil {
			nested()
		}

		return nil
	}

	done := func(oc openapi.OperationContext) {
		res.done = append(res.done, len(res.calls))
		res.oc = oc
	}

	if st.Arg == "nodone" {
		done = nil
	}

	was := w.h.off
	w.h.off = true // A content unit is made before the walk.
	cu := st.CU.unit(w.hk())
	w.h.off = was

	res.out = guard(func() error {
		if st.Name == "" {
			return w.d.Refl().WalkResponseJSONSchemas(cu, cb, done)
		}

		return w.d.Refl().WalkRequestJSONSchemas(st.Name, cu, cb, done)
	})

	return res
}

// expected tells the calls a walk has to make, false if the content is to be refused.
func (m *Model) expected(st *Step, comps obj) ([]call, obj, bool) {
	s := OpSpec{Method: "get", Path: "/"}
	om := OpModel{Op: obj{}, Comps: map[string]interface{}{}}

	var err error

	if st.Name != "" {
		s.Method = st.Name
		s.Req = []CU{*st.CU}
		err = m.request(s, &om)
	} else {
		s.Resp = []CU{*st.CU}
		err = m.response(s, &om)
	}

	all := obj{}
	for n, c := range om.Comps {
		all[n] = toJSON(c)
	}

	for n, c := range comps {
		all[n] = c
	}

	if err != nil {
		return nil, all, false
	}

	var l []call

	add := func(c call, o obj) {
		c.schema = o["schema"]

		if ct, ok := o["content"].(obj); ok && c.schema == nil {
			if j, ok := ct["application/json"].(obj); ok {
				c.schema = j["schema"]
			}
		}

		l = append(l, c)
	}

	op := toJSON(om.Op).(obj)

	if st.Name != "" {
		ps, _ := op["parameters"].([]interface{})
		for _, p := range ps {
			o := p.(obj)
			add(call{in: o["in"].(string), name: o["name"].(string), required: o["required"] == true}, o)
		}

		b, _ := op["requestBody"].(obj)
		content, _ := b["content"].(obj)

		for ct, mt := range content {
			switch ct {
			case "application/json":
				add(call{in: "body", name: "body"}, mt.(obj))
			case "application/x-www-form-urlencoded":
				sc, _ := deref(mt.(obj)["schema"], all).(obj)
				req := map[string]bool{}

				rs, _ := sc["required"].([]interface{})
				for _, r := range rs {
					req[r.(string)] = true
				}

				props, _ := sc["properties"].(obj)
				for n, ps := range props {
					l = append(l, call{in: "formData", name: n, required: req[n], schema: ps})
				}
			}
		}

		return l, all, true
	}

	for _, r := range op["responses"].(obj) {
		resp := r.(obj)

		hs, _ := resp["headers"].(obj)
		for n, h := range hs {
			if _, ok := h.(obj)["schema"]; !ok {
				continue
			}

			add(call{in: "header", name: http.CanonicalHeaderKey(n), required: h.(obj)["required"] == true}, h.(obj))
		}

		content, _ := resp["content"].(obj)
		for _, mt := range content {
			if _, ok := mt.(obj)["schema"]; !ok {
				continue
			}

			add(call{in: "body", name: "body"}, mt.(obj))
		}
	}

	return l, all, true
}

// deref follows references into components.
func deref(s interface{}, comps obj) interface{} {
	for i := 0; i < 20; i++ {
		o, ok := s.(obj)
		if !ok {
			return s
		}

		ref, ok := o["$ref"].(string)
		if !ok || !strings.HasPrefix(ref, refPrefix) {
			return s
		}

		s = comps[strings.TrimPrefix(ref, refPrefix)]
	}

	return s
}

// check compares reported calls with expected ones.
func (m *Model) check(got, want []call, comps obj) string {
	ids := func(l []call) string {
		var r []string
		for _, c := range l {
			r = append(r, c.id())
		}

		sort.Strings(r)

		return strings.Join(r, "; ")
	}

	if g, w := ids(got), ids(want); g != w {
		return fmt.Sprintf("calls are [%s], want [%s]", g, w)
	}

	used := make([]bool, len(want))

	for _, g := range got {
		var d string

		found := false

		for i, w := range want {
			if used[i] || w.id() != g.id() {
				continue
			}

			if d = m.sameSchema(g, w, comps); d == "" {
				used[i], found = true, true

				break
			}
		}

		if !found {
			return g.id() + ": " + d
		}
	}

	return ""
}

func (m *Model) sameSchema(g, w call, comps obj) string {
	if (g.schema == nil) != (w.schema == nil) {
		return fmt.Sprintf("schema is %v, want %v", g.schema, w.schema)
	}

	if g.schema == nil {
		return ""
	}

	conv := func(j interface{}) interface{} {
		if m.ver == "3.0" {
			return to30(j)
		}

		return j
	}

	a, b := conv(g.schema), w.schema

	if o, ok := a.(obj); ok && o["$ref"] == nil { // A root reference may be replaced with its destination.
		b = deref(b, comps)
	}

	if t, ok := b.(bool); ok && m.ver == "3.1" && t { // true and {} are the same schema.
		b = obj{}
	}

	if t, ok := a.(bool); ok && m.ver == "3.1" && t {
		a = obj{}
	}

	if d := diff(a, b); d != "" {
		return "schema " + d
	}

	for n, c := range g.comps {
		want, ok := comps[n]
		if !ok {
			return "unknown component " + n
		}

		if d := diff(conv(c), want); d != "" {
			return "component " + n + " " + d
		}
	}

	// Everything that is referred to is there.
	var lost string

	refs(g.schema, func(ref string) {
		if n := strings.TrimPrefix(ref, refPrefix); n != ref && g.comps[n] == nil {
			lost = n
		}
	})

	for _, c := range g.comps {
		refs(c, func(ref string) {
			if n := strings.TrimPrefix(ref, refPrefix); n != ref && g.comps[n] == nil {
				lost = n
			}
		})
	}

	if lost != "" {
		return "component " + lost + " is referred to, but not provided"
	}

	return ""
}

func refs(j interface{}, f func(ref string)) {
	switch v := j.(type) {
	case obj:
		if r, ok := v["$ref"].(string); ok {
			f(r)
		}

		for _, x := range v {
			refs(x, f)
		}
	case []interface{}:
		for _, x := range v {
			refs(x, f)
		}
	}
}

func runC08(p *Plan, r *Result) {
	w := newHist(p, r)
	m := NewModel(p.Ver, p.Cfg)

	walks := 0

	w.extra = func(st *Step) bool {
		if st.Op != "walk" {
			return false
		}

		if w.checkWalk(m, st) {
			walks++
		}

		return true
	}

	w.run(func(e event) bool { return true })

	r.Nontriv = walks > 0
}

// checkWalk walks a content unit with all failures of the callback.
func (w *hist) checkWalk(m *Model, st *Step) bool {
	r := w.r
	fs := w.h.faults

	if len(fs) > 0 { // Positions are relative to the calls of an undisturbed walk of another document.
		d := w.d
		n := w.h.n
		h := w.h.faults
		w.h.faults = nil
		w.d = NewDoc(w.p.Ver, w.p.Cfg)
		w.h.install(w.d.Refl().JSONSchemaReflector())

		w.walk(st, 0, "", nil)
		total := w.h.n - n
		w.d, w.h.faults = d, h

		fs = nil
		for _, f := range h {
			f.At = 1 + f.Pm*total/1000
			fs = append(fs, f)
		}
	}

	w.h.begin(nil)

	before, ok := r.snap(w.d, "before the walk")
	if !ok {
		return false
	}

	want, comps, accepted := m.expected(st, before.comps())

	what := "walk of response"
	if st.Name != "" {
		what = "walk of " + st.Name + " request"
	}

	// finished is checked for every walk.
	finished := func(c walked, how string) bool {
		if r.crash(what+how, c.out) {
			return false
		}

		if st.Arg != "nodone" && (len(c.done) != 1 || c.done[0] != len(c.calls)) {
			r.violate("done", "%s%s with %d calls (%v) called done after %v calls", what, how, len(c.calls), c.out, c.done)

			return false
		}

		return true
	}

	full := func(how string) bool {
		c := w.walk(st, 0, "", nil)

		if !finished(c, how) {
			return false
		}

		if !accepted {
			if c.out.ok() {
				r.violate("accepted", "%s%s does not fail, content must be refused", what, how)

				return false
			}

			if len(c.calls) > 0 {
				r.violate("calls", "%s%s makes calls for content that is refused", what, how)
			}

			r.fault("content refused")

			return r.Violation == ""
		}

		if !c.out.ok() {
			r.violate("rejected", "%s%s fails: %v", what, how, c.out)

			return false
		}

		if d := m.check(c.calls, want, comps); d != "" {
			r.violate("calls", "%s%s: %s", what, how, d)

			return false
		}

		if c.oc != nil {
			if st.Name != "" && len(c.oc.Request()) != 1 || st.Name == "" && len(c.oc.Response()) != 1 {
				r.violate("context", "%s%s: done gets a context with other content", what, how)

				return false
			}
		}

		return true
	}

	// A hook that fails comes first, so that nothing is there yet.
	if len(fs) > 0 {
		w.h.begin(fs)
		c := w.walk(st, 0, "", nil)
		fired := w.h.fired
		w.h.begin(nil)

		if fired > 0 {
			if !finished(c, " with a failing hook") {
				return false
			}

			// Types may handle failures of their own hooks, but a callback for what is not there must not happen.
			if c.out.ok() && len(c.calls) != len(want) {
				r.violate("calls", "%s with a failing hook succeeds with %d calls, want %d", what, len(c.calls), len(want))

				return false
			}
		}

		now, ok := r.snap(w.d, "after a walk with a failing hook")
		if !ok {
			return false
		}

		if d := untouched(before, now); d != "" {
			r.violate("trace", "%s with a failing hook changes the document: %s", what, d)

			return false
		}
	}

	if !full("") {
		return false
	}

	after, ok := r.snap(w.d, "after the walk")
	if !ok {
		return false
	}

	if d := untouched(before, after); d != "" {
		r.violate("trace", "%s changes the document: %s", what, d)

		return false
	}

	if !accepted {
		return true
	}

	for k := 1; k <= len(want); k++ {
		for _, mode := range []string{"err", "panic"} {
			c := w.walk(st, k, mode, nil)
			how := fmt.Sprintf(" with %s in callback %d of %d", mode, k, len(want))

			r.fault(mode + " in callback")

			if !finished(c, how) {
				return false
			}

			if len(c.calls) != k {
				r.violate("stop", "%s%s makes %d calls", what, how, len(c.calls))

				return false
			}

			if mode == "err" && (c.out.pan != nil || !errors.Is(c.out.err, errInjected)) {
				r.violate("error", "%s%s returns %v", what, how, c.out)

				return false
			}

			if p, ok := c.out.pan.(injPanic); mode == "panic" && (!ok || p.n != k) {
				r.violate("error", "%s%s ends with %v", what, how, c.out)

				return false
			}
		}
	}

	// The callback may use the document.
	if st.Arg == "nested" {
		n := 0
		c := w.walk(st, 0, "", func() {
			n++

			if n > 3 {
				return
			}

			s := &OpSpec{Method: "put", Path: fmt.Sprintf("/nested%d", n), Req: []CU{{T: &T{K: "cat", N: "Owner"}, Ptr: true}}}

			if c := w.walk(st, 0, "", nil); !c.out.ok() || len(c.calls) != len(want) {
				r.violate("nested", "%s inside a callback makes %d calls (%v), want %d", what, len(c.calls), c.out, len(want))
			}

			was := w.h.off
			w.h.off = true
			_ = register(w.d, s, false, nil)
			_, _ = w.d.JSON()
			w.h.off = was

			r.probe("document used in callback")
		})

		if !finished(c, " with nested use") {
			return false
		}

		if d := m.check(c.calls, want, comps); d != "" || !c.out.ok() {
			r.violate("calls", "%s with nested use (%v): %s", what, c.out, d)

			return false
		}
	} else {
		again, ok := r.snap(w.d, "after more walks")
		if !ok {
			return false
		}

		if d := diff(again.j, after.j); d != "" {
			r.violate("trace", "%s once more changes the document: %s", what, d)

			return false
		}
	}

	return full(" after failures")
}
