package world

import (
	"encoding/json"
	"fmt"
	"strings"
)

func genC11(g *genCtx, p *Plan, _ int) {
	g.exact = true
	p.Cfg = g.genCfg()
	p.Cfg.Hooks = g.P(30)

	nc := g.In(1, 3)
	total := 0

	if g.P(35) {
		g.addBase(p)
	}

	for c := 0; c < nc; c++ {
		var l []Step

		known := append([]*OpSpec(nil), g.base...)

		for i := g.In(1, 4); i > 0; i-- {
			if len(known) > 0 && g.P(15) {
				o := known[g.N(len(known))]
				l = append(l, g.setup(o.Method, o.Path, known))

				continue
			}

			x := g.regSteps(p.Ver, i)
			l = append(l, x...)

			if last := x[len(x)-1]; last.Op == "op" || last.Op == "specadd" || last.Op == "legacy" {
				known = append(known, last.Spec)
			}

			if p.Cfg.Hooks && g.P(30) {
				g.nest(&l[len(l)-1], p.Ver, nil)
			}

			for g.P(35) {
				l = append(l, g.noise())
			}
		}

		p.Clients = append(p.Clients, l)
		total += len(l)
	}

	p.Sched = g.sched(g.N(2*nc+1), total, nc)
}

// regSteps makes a registration in one of the possible ways.
func (g *genCtx) regSteps(ver string, slot int) []Step {
	path := g.path()
	m := g.method()

	if len(g.base) > 0 && g.P(30) { // A path that is there already, possibly with that very method.
		path = g.base[g.N(len(g.base))].Path
	}

	if g.used != nil {
		if k := regKey(&OpSpec{Method: m, Path: path}, false); g.used[k] || strings.EqualFold(m, "head") {
			path = g.path()
		} else {
			g.used[k] = true
		}
	}

	s := g.op(m, path)

	switch pick := g.N(20); {
	case pick < 7:
		return []Step{{Op: "op", Spec: s}}
	case pick < 13:
		l := g.split(s, slot, false)
		if g.P(30) {
			l = append(l, Step{Op: "late", Slot: slot})
		}

		if g.P(20) {
			l = append(l, Step{Op: "add", Slot: slot})
		}

		return l
	case pick < 15:
		s.Req, s.Resp = nil, nil

		return []Step{{Op: "specadd", Spec: s, Raw: g.rawOp(path, g.P(60))}}
	case pick < 17:
		if ver == "3.0" {
			s = g.legacyOp(s.Method, path)

			return []Step{{Op: "legacy", Spec: s}}
		}

		s = g.op(g.Of(bodyMeth...), g.hook("hook"))
		l := g.split(s, slot, true)

		if g.P(30) {
			l = append(l, Step{Op: "late", Slot: slot})
		}

		return l
	case pick < 18 && ver == "3.1":
		s.Req, s.Resp = nil, nil
		s.Path = g.hook("rawhook")

		return []Step{{Op: "specwh", Spec: s, Raw: g.rawOp(s.Path, g.P(60))}}
	default: // A context that is never added.
		l := g.split(s, slot, false)

		return l[:len(l)-1]
	}
}

// addBase lets the document have content from the start, as if an earlier process had left it.
func (g *genCtx) addBase(p *Plan) {
	d := g.entDoc(p.Ver)
	p.Base, _ = json.Marshal(d)

	for _, n := range sortedKeys(get(d, "webhooks")) {
		if !strings.ContainsAny(n, "/{}") {
			g.baseHooks = append(g.baseHooks, n)
		}
	}

	paths := get(d, "paths")
	for _, path := range sortedKeys(paths) {
		for _, m := range sortedKeys(get(paths, path)) {
			if methods[m] {
				g.base = append(g.base, &OpSpec{Method: m, Path: path})
			}
		}
	}
}

// hook is the name of a webhook.
func (g *genCtx) hook(s string) string {
	if len(g.baseHooks) > 0 && g.P(30) {
		return g.Of(g.baseHooks...)
	}

	return g.name(s)
}

// legacyOp restricts an operation to what the deprecated functions can tell.
func (g *genCtx) legacyOp(method, path string) *OpSpec {
	if strings.EqualFold(method, "head") { // The method is not known to the functions that set responses.
		method = "Get"
	}

	s := g.op(method, path)
	s.Sec = nil

	for i := range s.Req {
		cu := &s.Req[i]
		if cu.T == nil {
			cu.T = &T{K: "struct"}
		}

		cu.CT, cu.Format, cu.Desc, cu.Ref, cu.CDesc, cu.Mark, cu.Blank = "", "", "", "", "", "", ""
	}

	var resp []CU

	for _, cu := range s.Resp {
		if cu.Prep != nil || cu.Def || cu.Status == 0 {
			continue
		}

		cu.Desc, cu.Ref, cu.CDesc, cu.Mark, cu.Format, cu.Blank = "", "", "", "", "", ""
		resp = append(resp, cu)
	}

	s.Resp = resp

	return s
}

// expect is what a document must be.
type expect struct {
	m     *Model
	ver   string
	ops   map[string]obj // by "method path"
	hooks map[string]obj // "method name"
	comps obj
	info  obj
	sec   obj
	base  obj // what was there from the start
}

func newExpect(ver string, cfg Cfg) *expect {
	return &expect{
		m: NewModel(ver, cfg), ver: ver, ops: map[string]obj{}, hooks: map[string]obj{}, comps: obj{},
		info: obj{"title": "", "version": ""}, sec: obj{},
	}
}

func (x *expect) has(s *OpSpec, webhook bool) bool {
	if webhook {
		return x.hooks[s.Path] != nil || x.base != nil && get(x.base, "webhooks", s.Path) != nil
	}

	return x.find(s) != nil
}

// find tells the operation with the method and path.
func (x *expect) find(s *OpSpec) obj {
	k := regKey(s, false)
	if o := x.ops[k]; o != nil {
		return o
	}

	i := strings.Index(k, " ")
	if x.base == nil {
		return nil
	}

	return get(x.base, "paths", k[i+1:], k[:i])
}

// from sets what was there from the start.
func (x *expect) from(base obj) *expect {
	if base != nil {
		x.base = base
		x.info = clone(get(base, "info")).(obj)
	}

	return x
}

// setUp takes over a set-up.
func (x *expect) setUp(st *Step) {
	o := obj{"responses": obj{}}
	if x.ver == "3.1" {
		o = obj{}
	}

	if was := x.find(st.Spec); was != nil {
		o = clone(was).(obj)
	}

	if st.Name != "" {
		o["summary"] = st.Name
	}

	ps, _ := o["parameters"].([]interface{})

	var l []interface{}

	_ = json.Unmarshal(st.Raw, &l)

	if ps = append(ps, l...); len(ps) > 0 {
		o["parameters"] = ps
	}

	if st.Arg != "" {
		ts, _ := o["tags"].([]interface{})
		o["tags"] = append(ts, st.Arg)
	}

	x.ops[regKey(st.Spec, false)] = o
}

// get descends into an object.
func get(o obj, path ...string) obj {
	for _, p := range path {
		o, _ = o[p].(obj)
	}

	return o
}

func (x *expect) put(s *OpSpec, webhook bool, op obj, comps obj) {
	if webhook {
		x.hooks[s.Path] = obj{strings.ToLower(s.Method): op}
	} else {
		x.ops[regKey(s, false)] = op
	}

	for n, c := range comps {
		if _, ok := x.comps[n]; !ok {
			x.comps[n] = toJSON(c)
		}
	}
}

// accept adds a registration that was accepted.
func (x *expect) accept(s *OpSpec, webhook bool) error {
	om, err := x.m.Op(*s, webhook)
	if err != nil {
		return err
	}

	x.put(s, webhook, om.Op, om.Comps)

	return nil
}

func (x *expect) raw(s *OpSpec, webhook bool, raw []byte) {
	op := parse(raw).(obj)
	if len(op["responses"].(obj)) == 0 {
		op["responses"] = obj{"204": obj{"description": "No Content"}}
	}

	x.put(s, webhook, op, nil)
}

func (x *expect) setInfo(st *Step) { x.info[st.Name] = st.Arg }

func (x *expect) setSec(st *Step) {
	s := obj{}

	switch st.Name {
	case "basic":
		s = obj{"type": "http", "scheme": "basic"}
	case "key":
		s = obj{"type": "apiKey", "name": "X-Key", "in": "header"}
	default:
		s = obj{"type": "http", "scheme": "bearer", "bearerFormat": "JWT"}
	}

	s["description"] = st.Arg

	x.sec[st.Name] = s
}

// doc is the whole expected document.
func (x *expect) doc() obj {
	d := obj{"openapi": x.ver + ".3", "paths": obj{}}
	if x.ver == "3.1" {
		d["openapi"] = "3.1.0"
	}

	if x.base != nil {
		d = clone(x.base).(obj)
	}

	d["info"] = x.info

	for k, op := range x.ops {
		i := strings.Index(k, " ")
		ps := d["paths"].(obj)

		pi, ok := ps[k[i+1:]].(obj)
		if !ok {
			pi = obj{}
			ps[k[i+1:]] = pi
		}

		pi[k[:i]] = op
	}

	// in returns a container, which is made if necessary.
	in := func(o obj, k string) obj {
		c, ok := o[k].(obj)
		if !ok {
			c = obj{}
			o[k] = c
		}

		return c
	}

	for n, c := range x.comps {
		if l := in(in(d, "components"), "schemas"); l[n] == nil {
			l[n] = c
		}
	}

	for n, c := range x.sec {
		in(in(d, "components"), "securitySchemes")[n] = c
	}

	for n, o := range x.hooks {
		in(d, "webhooks")[n] = o
	}

	return d
}

// tidy drops empty containers, which may or may not be there.
func tidy(d obj) obj {
	if c, ok := d["components"].(obj); ok {
		for _, k := range []string{"schemas", "securitySchemes"} {
			if o, ok := c[k].(obj); ok && len(o) == 0 {
				delete(c, k)
			}
		}

		if len(c) == 0 {
			delete(d, "components")
		}
	}

	if o, ok := d["webhooks"].(obj); ok && len(o) == 0 {
		delete(d, "webhooks")
	}

	if _, ok := d["paths"]; !ok {
		d["paths"] = obj{}
	}

	return d
}

func runC11(p *Plan, r *Result) {
	w := newHist(p, r)
	x := newExpect(p.Ver, p.Cfg).from(w.base)

	w.run(func(e event) bool {
		if !x.readBack(r, e) || !x.follow(r, e) {
			return false
		}

		if w.inner { // Components of the other registration are there already.
			return true
		}

		_, ok := w.match(x, "after "+e.step.Op)

		return ok
	})

	if r.Violation == "" {
		w.match(x, "at the end")
	}

	r.Nontriv = len(x.ops)+len(x.hooks) > 0
}

// match compares the document with what is expected.
func (w *hist) match(x *expect, when string) (snapshot, bool) {
	s, ok := w.r.snap(w.d, when)
	if !ok {
		return s, false
	}

	if d := diff(tidy(s.j), toJSON(x.doc())); d != "" {
		w.r.violate("content", "document %s: %s", when, d)

		return s, false
	}

	return s, w.readers(x, when)
}

// readers compares what methods for reading tell with what is expected.
func (w *hist) readers(x *expect, when string) bool {
	bad := ""

	o := guard(func() error {
		s := w.d.Refl().SpecSchema()

		for k, v := range map[string]string{"title": s.Title(), "version": s.Version(), "description": s.Description()} {
			if want, _ := x.info[k].(string); v != want {
				bad = fmt.Sprintf("%s is read as %q, want %q", k, v, want)
			}
		}

		d := x.doc()
		paths := get(d, "paths")

		for path, v := range paths {
			if !strings.HasPrefix(path, "/") { // An extension.
				continue
			}

			for m, v := range v.(obj) {
				if !methods[m] {
					continue
				}

				var want []string

				for _, in := range paramIns {
					if v.(obj)["x-forbid-unknown-"+in] == true {
						want = append(want, in)
					}
				}

				if got := w.d.Forbidden(m, path); strings.Join(got, " ") != strings.Join(want, " ") {
					bad = fmt.Sprintf("unknown parameters of %s %s are read as forbidden in %v, want %v", m, path, got, want)
				}
			}

			for _, m := range []string{"", "connect", "getx"} {
				if w.d.Known(m, path) {
					bad = fmt.Sprintf("%s has an operation for method %q", path, m)
				}
			}
		}

		return nil
	})

	if w.r.crash("reading "+when, o) {
		return false
	}

	if bad != "" {
		w.r.violate("readers", "document %s: %s", when, bad)
	}

	return bad == ""
}

// follow takes over the effect of a step into the expected document.
func (x *expect) follow(r *Result, e event) bool {
	if e.step.Op == "specsetup" {
		must := setupFails(snapshot{j: x.doc()}, e.step)

		switch {
		case must != "" && e.out.ok():
			r.violate("accepted", "%s %s succeeds although %s", e.step.Op, descStep(e.step), must)
		case must == "" && !e.out.ok():
			r.violate("rejected", "%s %s fails without a reason: %v", e.step.Op, descStep(e.step), e.out)
		case must == "":
			x.setUp(e.step)
			r.probe("set-up of an operation")
		}

		return r.Violation == ""
	}

	if e.reg == nil {
		if !e.out.ok() {
			r.violate("outcome", "%s: %v", e.step.Op, e.out)

			return false
		}

		switch e.step.Op {
		case "info":
			x.setInfo(e.step)
		case "sec":
			x.setSec(e.step)
		case "walkreq", "walkresp": // Walks may add components.
			x.walked(e.step)
		}

		return true
	}

	taken := x.has(e.reg, e.webhook)
	if e.created && e.webhook {
		taken = false
	}

	if taken {
		if e.out.ok() {
			r.violate("accepted", "%s is accepted again", e.key())

			return false
		}

		r.fault("conflicting registration")

		if e.step.Op == "legacy" { // Components are added before the operation is.
			x.attempted(*e.reg)
		}

		return true
	}

	if !e.out.ok() {
		r.violate("rejected", "%s is not accepted: %v", e.key(), e.out)

		return false
	}

	switch {
	case e.created:
	case e.step.Raw != nil:
		x.raw(e.reg, e.webhook, e.step.Raw)
	default:
		if err := x.accept(e.reg, e.webhook); err != nil {
			panic("harness: " + err.Error())
		}
	}

	return true
}

func (x *expect) walked(st *Step) {
	s := OpSpec{Method: "get", Path: "/"}

	if st.Op == "walkreq" {
		s.Method = st.Name
		s.Req = []CU{*st.CU}
	} else {
		s.Resp = []CU{*st.CU}
	}

	x.attempted(s) // Path parameters have no placeholders here, everything else is recorded.
}

// attempted adds the components of an operation.
func (x *expect) attempted(s OpSpec) {
	om, _ := x.m.Op(s, false)

	for n, c := range om.Comps {
		if _, ok := x.comps[n]; !ok {
			x.comps[n] = toJSON(c)
		}
	}
}
