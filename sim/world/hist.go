package world

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"verifsim/simrt"
)

// slot holds an operation context between the steps of a client.
type slot struct {
	oc    openapi.OperationContext
	spec  *OpSpec
	st    *Step
	err   error
	done  bool
	parts string
}

// declared is what was filled in so far: minimised plans may lack parts.
func (s *slot) declared() *OpSpec {
	has := func(p string) bool { return strings.Contains(s.parts, "[]") || strings.Contains(s.parts, "["+p+"]") }

	if has("meta") && has("req") && has("resp") {
		return s.spec
	}

	d := *s.spec

	if !has("meta") {
		d.ID, d.Sum, d.Desc, d.Tags, d.Depr, d.Sec = "", "", "", nil, false, nil
	}

	if !has("req") {
		d.Req = nil
	}

	if !has("resp") {
		d.Resp = nil
	}

	return &d
}

// event is what a step did.
type event struct {
	client  int
	step    *Step
	reg     *OpSpec // registration attempted
	oc      openapi.OperationContext
	decl    *OpSpec // what was declared in oc so far
	webhook bool
	viaCtx  bool // conflicts are found early, when the context is made
	created bool
	out     outcome
	fired   int // hook faults that happened
}

func (e event) key() string { return regKey(e.reg, e.webhook) }

func regKey(s *OpSpec, webhook bool) string {
	if webhook {
		return "hook " + s.Path
	}

	p, _ := CleanPath(s.Path)

	return strings.ToLower(s.Method) + " " + p
}

// hist is a document with clients acting on it.
type hist struct {
	p     *Plan
	r     *Result
	d     Doc
	h     *hooks
	slots map[int]*slot
	extra func(st *Step) bool // executes steps of a property
	start func(st *Step)      // is called before each step
	last  []byte              // what was serialised last
	after func(e event) bool
	cur   int // client whose step is executed
	stop  bool
	inner bool // a step is executed inside a hook of another one
	base  obj  // document that was there from the start
}

func newHist(p *Plan, r *Result) *hist {
	w := &hist{p: p, r: r, d: NewDoc(p.Ver, p.Cfg), slots: map[int]*slot{}}
	w.h = &hooks{r: r}
	w.h.nest = w.nested

	if p.Base != nil {
		if o := guard(func() error { return w.d.LoadJSON(p.Base) }); !o.ok() {
			r.violate("load", "a valid document is not loaded: %v", o)
		} else if s, ok := r.snap(w.d, "after it was loaded"); ok {
			w.base = tidy(s.j)
			r.probe("document with earlier content")
		}

		w.stop = r.Violation != ""
	}

	if p.Cfg.Hooks {
		w.h.install(w.d.Refl().JSONSchemaReflector())
		w.h.global()
	}

	return w
}

// baseKeys are the operations and webhooks that were there from the start.
func (w *hist) baseKeys() map[string]bool {
	m := map[string]bool{}
	for k := range (snapshot{j: w.base}).entries() {
		m[k] = true
	}

	return m
}

// hk is the hooks given to content units, if hooks are in use.
func (w *hist) hk() *hooks {
	if w.p.Cfg.Hooks {
		return w.h
	}

	return nil
}

// nested executes a step inside a hook of another step.
func (w *hist) nested(st *Step) {
	if w.after == nil || w.stop || w.r.Violation != "" {
		return
	}

	c, was := w.cur, *w.h
	w.h.nest = nil

	e := w.step(c, st)

	w.inner = true

	if w.r.Violation != "" || !w.after(e) {
		w.stop = true
	}

	w.inner = false
	w.cur = c
	w.h.n, w.h.fired, w.h.faults, w.h.nest = was.n, was.fired, was.faults, was.nest
}

// run lets the clients act as the schedule says, and calls after for each step.
func (w *hist) run(after func(e event) bool) {
	var fs []func()

	w.after = after

	for c := range w.p.Clients {
		c := c

		fs = append(fs, func() {
			for i := range w.p.Clients[c] {
				if w.stop {
					return
				}

				simrt.Point()

				e := w.step(c, &w.p.Clients[c][i])

				if w.r.Violation != "" || !after(e) {
					w.stop = true

					return
				}
			}
		})
	}

	if len(fs) > 0 {
		simrt.Run(fs...)
	}
}

func (w *hist) step(c int, st *Step) event {
	e := event{client: c, step: st}
	d := w.d
	w.cur = c

	w.h.begin(w.faults(c, st))

	if w.start != nil {
		w.start(st)
	}

	switch st.Op {
	case "op", "wh":
		e.reg, e.webhook, e.viaCtx = st.Spec, st.Op == "wh", true
		e.decl = st.Spec
		e.out = guard(func() (err error) { e.oc, err = registerCtx(d, st.Spec, e.webhook, w.hk()); return err })
	case "new":
		s := &slot{spec: st.Spec, st: st}
		w.slots[c*100+st.Slot] = s
		e.reg, e.viaCtx, e.webhook = st.Spec, true, st.Arg == "wh"
		e.created = true
		e.out = guard(func() (err error) {
			s.oc, err = d.Refl().NewOperationContext(st.Spec.Method, st.Spec.Path)

			return err
		})
	case "fill":
		if s := w.slots[c*100+st.Slot]; s != nil && s.oc != nil {
			e.out = guard(func() error { fill(s.oc, s.spec, st.Arg, w.hk()); return nil })
			s.parts += "[" + st.Arg + "]"
			e.oc, e.decl = s.oc, s.declared()
		}
	case "add", "addwh":
		if s := w.slots[c*100+st.Slot]; s != nil && s.oc != nil {
			e.reg, e.webhook = s.declared(), st.Op == "addwh"
			e.oc, e.decl = s.oc, e.reg
			s.done = true
			e.out = guard(func() error {
				if e.webhook {
					return d.AddWebhook(s.oc)
				}

				return d.Refl().AddOperation(s.oc)
			})
		}
	case "late": // Changes of a context after it was added.
		if s := w.slots[c*100+st.Slot]; s != nil && s.oc != nil && s.done {
			e.out = guard(func() error {
				s.oc.SetSummary("late")
				s.oc.SetDescription("late")
				s.oc.SetTags("late")
				s.oc.SetID("late")
				s.oc.SetIsDeprecated(true)
				s.oc.AddSecurity("late")
				s.oc.AddReqStructure(new(struct {
					Late string `query:"late"`
				}))
				s.oc.AddRespStructure(new(struct {
					Late string `json:"late"`
				}))

				return nil
			})
		}
	case "specadd", "specwh":
		e.reg, e.webhook = st.Spec, st.Op == "specwh"
		e.out = guard(func() error {
			if e.webhook {
				return d.SpecAddWebhook(st.Spec.Method, st.Spec.Path, st.Raw)
			}

			return d.SpecAdd(st.Spec.Method, st.Spec.Path, st.Raw)
		})
	case "legacy":
		e.reg = st.Spec
		e.out = guard(func() error { return d.Legacy(*st.Spec) })
	case "specsetup":
		e.out = guard(func() error {
			return d.SpecSetup(st.Spec.Method, st.Spec.Path, func(o OpHandle) error { return w.setupOp(o, st) })
		})
	case "walkreq":
		e.out = guard(func() error {
			return d.Refl().WalkRequestJSONSchemas(st.Name, st.CU.unit(w.hk()),
				func(openapi.In, string, *jsonschema.SchemaOrBool, bool) error { return nil }, nil)
		})
	case "walkresp":
		e.out = guard(func() error {
			return d.Refl().WalkResponseJSONSchemas(st.CU.unit(w.hk()),
				func(openapi.In, string, *jsonschema.SchemaOrBool, bool) error { return nil }, nil)
		})
	case "info":
		e.out = guard(func() error {
			s := d.Refl().SpecSchema()

			switch st.Name {
			case "title":
				s.SetTitle(st.Arg)
			case "version":
				s.SetVersion(st.Arg)
			default:
				s.SetDescription(st.Arg)
			}

			return nil
		})
	case "sec":
		e.out = guard(func() error {
			s := d.Refl().SpecSchema()

			switch st.Name {
			case "basic":
				s.SetHTTPBasicSecurity(st.Name, st.Arg)
			case "key":
				s.SetAPIKeySecurity(st.Name, "X-Key", openapi.InHeader, st.Arg)
			default:
				s.SetHTTPBearerTokenSecurity(st.Name, "JWT", st.Arg)
			}

			return nil
		})
	case "json", "yaml":
		e.out = guard(func() error {
			f := d.JSON
			if st.Op == "yaml" {
				f = d.YAML
			}

			b, err := f()
			w.r.observe(string(b))
			w.last = b

			return err
		})
	case "resolve":
		e.out = guard(func() error {
			for _, n := range d.ComponentNames() {
				if _, ok := d.Resolve("#/components/schemas/" + n); !ok {
					return fmt.Errorf("component %s is not resolved", n)
				}
			}

			for _, ref := range []string{"#/components/schemas/NoSuchType", "#/components/schemas/", "#/definitions/Owner"} {
				if _, ok := d.Resolve(ref); ok {
					return fmt.Errorf("reference %s is resolved", ref)
				}
			}

			return nil
		})
	default:
		if w.extra == nil || !w.extra(st) {
			panic("unknown step " + st.Op)
		}
	}

	e.fired = w.h.fired
	w.h.end()

	w.r.logf("client %d: %s %s -> %v (hook calls %d, fired %d)", c, st.Op, descStep(st), e.out, w.h.n, e.fired)
	w.r.observe(e.out.String())

	what := st.Op
	if e.reg != nil {
		what += " " + e.key()
	}

	w.r.crash(what, e.out)

	return e
}

// faults resolves relative positions of faults, by counting hook calls of the same step in a scratch document.
func (w *hist) faults(c int, st *Step) []Fault {
	rel := false
	for _, f := range st.Faults {
		rel = rel || f.At == 0
	}

	if !rel {
		return st.Faults
	}

	d := NewDoc(w.p.Ver, w.p.Cfg)
	h := &hooks{r: &Result{}}

	if w.p.Cfg.Hooks {
		h.install(d.Refl().JSONSchemaReflector())
		h.global()
	}

	defer func() {
		if w.p.Cfg.Hooks {
			w.h.global()
		}
	}()

	hk := h
	if !w.p.Cfg.Hooks {
		hk = nil
	}

	spec := st.Spec
	if s := w.slots[c*100+st.Slot]; spec == nil && s != nil {
		spec = s.spec
	}

	n := 1

	switch {
	case spec == nil:
	case st.Op == "legacy":
		guard(func() error { return d.Legacy(*spec) })

		n = h.n
	case st.Raw == nil && st.Op != "new":
		guard(func() error {
			oc, err := d.Refl().NewOperationContext(spec.Method, spec.Path)
			if err != nil {
				return err
			}

			part := ""
			if st.Op == "fill" {
				part = st.Arg
			}

			fill(oc, spec, part, hk)

			switch st.Op {
			case "fill":
				return nil
			case "add", "addwh":
				h.n, h.kinds = 0, nil
			}

			if st.Op == "wh" || st.Op == "addwh" {
				return d.AddWebhook(oc)
			}

			return d.Refl().AddOperation(oc)
		})

		n = h.n
	}

	l := make([]Fault, len(st.Faults))
	for i, f := range st.Faults {
		if f.At == 0 {
			f.At = 1 + f.Pm*n/1000

			if f.By {
				f.At = byKind(h.kinds, f.Pm)
			}
		}

		l[i] = f
	}

	return l
}

// byKind finds the call at a position among the kinds of hooks, then among the calls of that kind.
func byKind(l []string, pm int) int {
	var kinds []string

	at := map[string][]int{}

	for i, k := range l {
		if at[k] == nil {
			kinds = append(kinds, k)
		}

		at[k] = append(at[k], i+1)
	}

	if len(kinds) == 0 {
		return 1
	}

	p := pm * len(kinds)
	c := at[kinds[p/1000]]

	return c[p%1000*len(c)/1000]
}

func descStep(st *Step) string {
	if st.Spec != nil {
		return st.Spec.Method + " " + st.Spec.Path
	}

	return st.Name + " " + st.Arg
}

func (w *hist) setupOp(o OpHandle, st *Step) error {
	var list []json.RawMessage
	if len(st.Raw) > 0 {
		if err := json.Unmarshal(st.Raw, &list); err != nil {
			panic("harness: " + err.Error())
		}
	}

	if st.Name != "" {
		o.SetSummary(st.Name)
	}

	for _, p := range list {
		if err := o.AddParam(p); err != nil {
			return err
		}
	}

	if st.Arg != "" {
		o.AddTag(st.Arg)
	}

	// The set-up function itself is a hook of the user.
	return w.h.call(true, hookEvent{Kind: "setup"})
}

// genNoise makes a step that must not change registered operations.
func (g *genCtx) noise() Step {
	switch g.N(7) {
	case 0:
		return Step{Op: "info", Name: g.Of("title", "version", "description"), Arg: g.Of("Title", "1.0", "1.2.3", "T ✓", "x: y")}
	case 1:
		return Step{Op: "sec", Name: g.Of("basic", "key", "token"), Arg: g.Of("", "Described.")}
	case 2:
		return Step{Op: "json"}
	case 3:
		return Step{Op: "yaml"}
	case 4:
		return Step{Op: "resolve"}
	case 5:
		s := g.op(g.Of(bodyMeth...), "/x")
		if len(s.Req) > 0 {
			cu := s.Req[g.N(len(s.Req))]

			return Step{Op: "walkreq", Name: s.Method, CU: &cu}
		}

		return Step{Op: "json"}
	default:
		s := g.op("get", "/x")
		if len(s.Resp) > 0 {
			cu := s.Resp[g.N(len(s.Resp))]

			return Step{Op: "walkresp", CU: &cu}
		}

		return Step{Op: "resolve"}
	}
}

// rawOp is an operation given as such.
func (g *genCtx) rawOp(path string, resp bool) json.RawMessage {
	o := obj{"summary": g.name("raw")}

	_, ph := CleanPath(path)

	var ps []interface{}
	for _, p := range ph {
		ps = append(ps, obj{"name": p, "in": "path", "required": true, "schema": obj{"type": "string"}})
	}

	for i := g.N(3); i > 0; i-- {
		p := obj{"name": g.name("q"), "in": g.Of("query", "header", "cookie"), "schema": obj{"type": "integer"}}

		if g.P(25) {
			p["name"] = g.name("loc")

			if p["in"] == "query" && g.P(50) {
				p["style"] = g.Of("form", "deepObject", "pipeDelimited")
			}
		}

		ps = append(ps, p)
	}

	if ps != nil {
		o["parameters"] = ps
	}

	o["responses"] = obj{}
	if resp {
		o["responses"] = obj{g.Of("200", "404", "default", "5XX"): obj{"description": g.name("resp")}}
	}

	return json.RawMessage(canon(o))
}

// nest lets a hook of a registration register something else: one of the given operations, or a new one.
func (g *genCtx) nest(st *Step, ver string, same *OpSpec) {
	switch st.Op {
	case "op", "wh", "add", "addwh", "legacy":
	default:
		return
	}

	var in Step

	if same != nil && g.P(50) {
		s := g.small(same.Method, same.Path)
		in = Step{Op: "op", Spec: s}

		if g.P(30) {
			s.Req, s.Resp = nil, nil
			in = Step{Op: "specadd", Spec: s, Raw: g.rawOp(s.Path, g.P(60))}
		}

		s.Sum = g.name("nested ")
	} else {
		s := g.op(g.method(), g.path())
		s.Sum = g.name("nested ")
		in = Step{Op: "op", Spec: s}
	}

	st.Faults = append(append([]Fault{}, st.Faults...), Fault{Pm: g.N(1000), Kind: "nest", Step: &in})
}

// split turns a registration into separate steps of a client.
func (g *genCtx) split(s *OpSpec, slot int, webhook bool) []Step {
	l := []Step{{Op: "new", Slot: slot, Spec: s}}
	add := "add"

	if webhook {
		l[0].Arg = "wh"
		add = "addwh"
	}

	parts := []string{"meta", "req", "resp"}
	if g.P(40) {
		parts = []string{""}
	} else if g.P(50) {
		parts = []string{"resp", "meta", "req"}
	}

	for _, p := range parts {
		l = append(l, Step{Op: "fill", Slot: slot, Arg: p})
	}

	return append(l, Step{Op: add, Slot: slot})
}
