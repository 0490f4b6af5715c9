package world

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
)

func genC09(g *genCtx, p *Plan, _ int) {
	p.Cfg = g.genCfg()
	p.Cfg.Hooks = true
	g.hooky = g.P(20)

	nc := g.In(1, 3)
	total := 0

	for c := 0; c < nc; c++ {
		var l []Step

		for i := g.In(1, 4); i > 0; i-- {
			l = append(l, g.regSteps(p.Ver, i)...)

			if last := &l[len(l)-1]; g.P(30) {
				last.Faults = append(last.Faults, Fault{Pm: g.N(1000), By: g.P(40), Kind: g.Of("err", "panic")})

				if again := l[len(l)-1]; again.Op == "op" && g.P(70) { // Once more, without the failure.
					again.Faults = nil
					l = append(l, again)
				} else if (again.Op == "add" || again.Op == "addwh") && g.P(60) { // The same context once more.
					again.Faults = nil
					l = append(l, again)
				}
			} else if g.P(25) { // A hook registers something else.
				last.N = g.In(1, 60)
			}

			if st, ok := g.walk(); ok && g.P(30) {
				st.Op = "walkreq"
				if st.Name == "" {
					st.Op = "walkresp"
				}

				st.Arg = ""

				l = append(l, st)
			}
		}

		p.Clients = append(p.Clients, l)
		total += len(l)
	}

	p.Sched = g.sched(g.N(3*nc+1), total, nc)
}

// uniqueName are names that are declared once in a plan.
var uniqueName = regexp.MustCompile(`^((X-|x-)?p|j|F|J|X-R)[0-9]+$`)

// seen is what a hook saw.
type seen struct {
	kind, name   string
	processed    bool
	method, path string
	use          FieldUse
	has          bool
	nreq, nresp  int
	types        string
	old          string // difference to the context that the deprecated function gives
}

func sawNow(e hookEvent, old bool) seen {
	s := seen{kind: e.Kind, name: e.Name, processed: e.Processed}

	if e.OC == nil {
		return s
	}

	s.has = true
	s.method, s.path = e.OC.Method(), e.OC.PathPattern()
	s.use = FieldUse{Name: e.Name, In: string(e.OC.ProcessingIn()), Resp: e.OC.IsProcessingResponse()}
	s.nreq, s.nresp = len(e.OC.Request()), len(e.OC.Response())

	for _, cu := range e.OC.Request() {
		s.types += fmt.Sprintf("%T ", cu.Structure)
	}

	for _, cu := range e.OC.Response() {
		s.types += fmt.Sprintf("%T ", cu.Structure)
	}

	if old {
		o, ok := openapi3.OperationCtx(e.RC)

		switch {
		case !ok:
			s.old = "there is none"
		case o.HTTPMethod != s.method:
			s.old = "method " + o.HTTPMethod
		case o.ProcessingIn != s.use.In || o.ProcessingResponse != s.use.Resp:
			s.old = fmt.Sprintf("location %s %v", o.ProcessingIn, o.ProcessingResponse)
		case s.nreq > 0 && fmt.Sprintf("%T", o.Input) != fmt.Sprintf("%T", e.OC.Request()[0].Structure):
			s.old = fmt.Sprintf("input %T", o.Input)
		case s.nresp > 0 && fmt.Sprintf("%T", o.Output) != fmt.Sprintf("%T", e.OC.Response()[0].Structure):
			s.old = fmt.Sprintf("output %T", o.Output)
		}

		if s.old == "" && ok {
			s.old = oldMappings(o, e.OC)
		}
	}

	return s
}

// oldMappings compares what the deprecated context tells about the first content units.
func oldMappings(o openapi3.OperationContext, oc openapi.OperationContext) string {
	same := func(a, b map[string]string) bool { return len(a)+len(b) == 0 || reflect.DeepEqual(a, b) }

	if l := oc.Request(); len(l) > 0 {
		for in, m := range map[openapi.In]map[string]string{
			openapi.InQuery: o.ReqQueryMapping, openapi.InPath: o.ReqPathMapping, openapi.InCookie: o.ReqCookieMapping,
			openapi.InHeader: o.ReqHeaderMapping, openapi.InFormData: o.ReqFormDataMapping,
		} {
			if !same(m, l[0].FieldMapping(in)) {
				return fmt.Sprintf("mapping in %s", in)
			}
		}
	}

	if l := oc.Response(); len(l) > 0 {
		switch {
		case o.HTTPStatus != l[0].HTTPStatus:
			return fmt.Sprintf("status %d", o.HTTPStatus)
		case o.RespContentType != l[0].ContentType:
			return fmt.Sprintf("content type %q", o.RespContentType)
		case !same(o.RespHeaderMapping, l[0].FieldMapping(openapi.InHeader)):
			return "response header mapping"
		}
	}

	return ""
}

func runC09(p *Plan, r *Result) {
	w := newHist(p, r)
	m := NewModel(p.Ver, p.Cfg)

	var (
		events []seen
		nested int
		quiet  bool
		checks int
	)

	cur := -1

	w.h.watch = func(e hookEvent) {
		events = append(events, sawNow(e, p.Ver == "3.0"))

		if nested == 0 || len(events) != nested || quiet {
			return
		}

		// A hook registers another operation, contexts must not be mixed up.
		outer := events
		fs := w.h.faults
		events, quiet, w.h.faults = nil, true, nil

		cur++

		ft := T{K: "struct", F: []F{{N: "F1", T: k("int"), G: [][2]string{{"query", "p900000"}}}}}
		rt := T{K: "struct", F: []F{{N: "F1", T: k("int"), G: [][2]string{{"json", "j900000"}}}}}
		s := &OpSpec{Method: "patch", Path: fmt.Sprintf("/nested%d", cur), Req: []CU{{T: &ft, Ptr: true}}, Resp: []CU{{T: &rt, Ptr: true}}}
		o := guard(func() error { return register(w.d, s, false, w.hk()) })

		if !o.ok() {
			r.violate("nested", "registration inside a hook: %v", o)
		} else {
			checkSeen(r, m, "nested registration", s, false, events, true)
		}

		r.probe("registration inside a hook")

		events, quiet, w.h.faults = outer, false, fs
		nested = 0
	}

	// Content that contexts have is what was declared before the step.
	before := func(st *Step) {
		events, nested = nil, st.N
	}

	w.start = before

	w.run(func(e event) bool {
		evs := events
		events = nil

		switch {
		case e.step.Op == "walkreq" || e.step.Op == "walkresp":
			s := &OpSpec{Method: "get", Path: "/"}

			if e.step.Op == "walkreq" {
				s.Method = e.step.Name
				s.Req = []CU{*e.step.CU}
			} else {
				s.Resp = []CU{*e.step.CU}
			}

			if e.fired == 0 {
				checkSeen(r, m, "walk", s, false, evs, e.out.ok())
			}

			checks++
		case e.step.Op == "legacy":
			s := *e.reg
			s.Method, s.Path = "", ""
			checkSeenAs(r, m, "legacy registration", e.reg, evs, e.fired == 0 && e.out.ok(), func(v seen) string {
				if v.path != "" || (v.method != "" && !strings.EqualFold(v.method, e.reg.Method)) {
					return fmt.Sprintf("context of %s %s", v.method, v.path)
				}

				return ""
			})

			checks++
		case e.reg != nil && !e.created && e.step.Raw == nil:
			checkSeen(r, m, "registration of "+e.key(), e.reg, e.webhook, evs, e.fired == 0 && e.out.ok())

			checks++
		case e.step.Op == "resolve" || e.step.Op == "json" || e.step.Op == "yaml" || e.step.Op == "fill":
			for _, v := range evs {
				if v.has {
					r.violate("context", "hook %s has an operation context in step %s", v.kind, e.step.Op)
				}
			}
		}

		return r.Violation == ""
	})

	r.Nontriv = checks > 0
}

// checkSeen checks everything that hooks saw during a registration.
func checkSeen(r *Result, m *Model, what string, s *OpSpec, webhook bool, evs []seen, complete bool) {
	clean, _ := CleanPath(s.Path)

	types := ""
	for _, cu := range append(append([]CU{}, s.Req...), s.Resp...) {
		types += fmt.Sprintf("%T ", cu.resolved().Structure())
	}

	checkSeenAs(r, m, what, s, evs, complete, func(v seen) string {
		switch {
		case !strings.EqualFold(v.method, s.Method) || v.path != clean:
			return fmt.Sprintf("context of %s %s", v.method, v.path)
		case v.nreq != len(s.Req) || v.nresp != len(s.Resp):
			return fmt.Sprintf("context with %d requests and %d responses, want %d and %d", v.nreq, v.nresp, len(s.Req), len(s.Resp))
		case v.types != types:
			return fmt.Sprintf("context with content %s, want %s", v.types, types)
		}

		return ""
	})
}

func checkSeenAs(r *Result, m *Model, what string, s *OpSpec, evs []seen, complete bool, same func(v seen) string) {
	om := OpModel{Op: obj{}, Comps: map[string]interface{}{}}
	if m.request(*s, &om) == nil {
		_ = m.response(*s, &om)
	}

	uses := map[string][]FieldUse{}
	for _, u := range om.Deep {
		uses[u.Name] = append(uses[u.Name], u)
	}

	offered := map[FieldUse]bool{}
	responding := false

	for _, v := range evs {
		if !v.has {
			continue
		}

		if d := same(v); d != "" {
			r.violate("context", "%s: hook %s %s gets %s", what, v.kind, v.name, d)

			return
		}

		if v.old != "" {
			r.violate("context", "%s: hook %s %s gets another deprecated context: %s", what, v.kind, v.name, v.old)

			return
		}

		valid := v.use.In == "body" || v.use.In == "header" || !v.use.Resp && (v.use.In == "query" || v.use.In == "path" || v.use.In == "cookie")
		if !valid {
			r.violate("location", "%s: hook %s %s is told location %q (response %v)", what, v.kind, v.name, v.use.In, v.use.Resp)

			return
		}

		if responding && !v.use.Resp {
			r.violate("location", "%s: hook %s %s is told that a request is processed, after the response was", what, v.kind, v.name)

			return
		}

		responding = v.use.Resp

		if responding && len(s.Resp) == 0 || !responding && len(s.Req) == 0 {
			r.violate("location", "%s: hook %s %s is told response: %v, which is not declared", what, v.kind, v.name, responding)

			return
		}

		if v.kind != "InterceptProp" {
			continue
		}

		if v.processed {
			offered[v.use] = true
		}

		if !uniqueName.MatchString(v.name) {
			continue
		}

		ok := false
		for _, u := range uses[v.name] {
			ok = ok || u == v.use
		}

		if !ok {
			r.violate("location", "%s: hook of property %s is told location %s (response %v), it is in %v", what, v.name, v.use.In, v.use.Resp, uses[v.name])

			return
		}
	}

	if !complete {
		return
	}

	for _, u := range om.Field {
		if !offered[u] {
			r.violate("offered", "%s: property %s in %s (response %v) is not offered to hooks with this location", what, u.Name, u.In, u.Resp)

			return
		}
	}
}
