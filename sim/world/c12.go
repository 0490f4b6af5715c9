package world

import (
	"fmt"
	"strings"
)

// C12: the same history drives both versions.

func genC12(g *genCtx, p *Plan, _ int) {
	p.Ver = "both"
	g.plain = g.P(30)
	p.Cfg = g.genCfg()
	p.Cfg.Hooks = g.P(50)
	g.hooky = p.Cfg.Hooks && g.P(40)

	nc := g.In(1, 3)
	total := 0

	var known []*OpSpec

	for c := 0; c < nc; c++ {
		var l []Step

		for i := g.In(1, 4); i > 0; i-- {
			s := g.op(g.method(), g.path())

			if g.P(15) && len(known) > 0 { // A conflict, possibly in another spelling.
				o := known[g.N(len(known))]
				s.Method, s.Path = g.Of(strings.ToUpper(o.Method), o.Method), o.Path
				s.Req = o.Req
			}

			known = append(known, s)

			x := []Step{{Op: "op", Spec: s}}
			if g.P(50) {
				x = g.split(s, i, false)
			} else if g.P(25) {
				x[0].Spec = g.broken(s)
			}

			if p.Cfg.Hooks && g.P(35) {
				j := len(x) - 1
				x[j].Faults = []Fault{g.fault()}

				if x[j].Op == "op" && g.P(70) {
					again := x[j]
					again.Faults = nil
					x = append(x, again)
				}
			}

			l = append(l, x...)

			if g.P(30) {
				l = append(l, g.noise())
			}

			if g.P(20) {
				l = append(l, Step{Op: "restart", Arg: g.Of("json", "yaml")})
			}
		}

		p.Clients = append(p.Clients, l)
		total += len(l)
	}

	p.Sched = g.sched(g.N(3*nc+1), total, nc)
}

func pick(o obj, keys ...string) obj {
	res := obj{}

	for _, k := range keys {
		if v, ok := o[k]; ok {
			res[k] = v
		}
	}

	return res
}

// noCond drops conditions, which 3.0 can not express.
func noCond(v interface{}) interface{} {
	switch x := v.(type) {
	case []interface{}:
		l := make([]interface{}, len(x))
		for i := range x {
			l[i] = noCond(x[i])
		}

		return l
	case obj:
		m := obj{}

		for k, v := range x {
			if k != "if" && k != "then" && k != "else" {
				m[k] = noCond(v)
			}
		}

		return m
	}

	return v
}

// common reduces a document to what both versions have.
func common(s snapshot) obj {
	comps := s.comps()

	var reach func(v interface{}, m map[string]bool)

	reach = func(v interface{}, m map[string]bool) {
		refs(noCond(v), func(ref string) {
			n := strings.TrimPrefix(ref, "#/components/schemas/")
			if n == ref || m[n] {
				return
			}

			m[n] = true

			reach(comps[n], m)
		})
	}

	used := func(v interface{}) []interface{} {
		m := map[string]bool{}
		reach(v, m)

		l := []interface{}{}
		for _, n := range sorted(m) {
			l = append(l, n)
		}

		return l
	}

	content := func(v interface{}) obj {
		res := obj{}
		c, _ := v.(obj)

		for mt, m := range c {
			_, has := m.(obj)["schema"]
			res[mt] = obj{"schema": has, "refers to": used(m)}
		}

		return res
	}

	res := obj{"info": s.j["info"]}

	if all, ok := s.j["components"].(obj); ok {
		res["securitySchemes"] = all["securitySchemes"]
	}

	paths := obj{}

	for path, pi := range s.get("paths") {
		po := obj{}

		for m, v := range pi.(obj) {
			op, ok := v.(obj)
			if !ok || !methods[m] {
				po[m] = v

				continue
			}

			n := pick(op, "operationId", "summary", "description", "tags", "deprecated", "security")

			ps := obj{}
			l, _ := op["parameters"].([]interface{})

			for _, v := range l {
				p := v.(obj)
				q := pick(p, "description", "required", "style", "explode", "deprecated")
				q["content"] = content(p["content"])
				q["refers to"] = used(p)
				_, q["schema"] = p["schema"]
				ps[fmt.Sprintf("%v %v", p["in"], p["name"])] = q
			}

			n["parameters"] = ps

			if b, ok := op["requestBody"].(obj); ok {
				nb := pick(b, "$ref", "description", "required")
				nb["content"] = content(b["content"])
				n["requestBody"] = nb
			}

			rs := obj{}
			for st, v := range op["responses"].(obj) {
				resp := v.(obj)
				nr := pick(resp, "$ref", "description")
				nr["content"] = content(resp["content"])
				hs := obj{}
				ho, _ := resp["headers"].(obj)

				for name, h := range ho {
					nh := pick(h.(obj), "description", "required", "deprecated")
					nh["refers to"] = used(h)
					hs[name] = nh
				}

				nr["headers"] = hs
				rs[st] = nr
			}

			n["responses"] = rs
			n["forbid"] = pick(op, "x-forbid-unknown-query", "x-forbid-unknown-header", "x-forbid-unknown-cookie", "x-forbid-unknown-path")
			po[m] = n
		}

		paths[path] = po
	}

	res["paths"] = paths

	return res
}

func runC12(p *Plan, r *Result) {
	pa, pb := *p, *p
	pa.Ver, pb.Ver = "3.0", "3.1"

	a, b := newHist(&pa, r), newHist(&pb, r)
	accepted, failed := 0, 0

	for _, w := range []*hist{a, b} {
		w := w
		w.start = func(*Step) {
			if p.Cfg.Hooks {
				w.h.global()
			}
		}
		w.extra = func(st *Step) bool { return w.reload(st) }
	}

	a.run(func(e event) bool {
		f := b.step(e.client, e.step)

		if r.Violation != "" {
			return false
		}

		what := e.step.Op + " " + descStep(e.step)

		if (e.fired > 0) != (f.fired > 0) { // The hooks of one version were not called as often.
			r.probe("a failure reached one version only")

			return false
		}

		if e.out.ok() != f.out.ok() {
			r.violate("outcome", "%s: %v with 3.0, %v with 3.1", what, e.out, f.out)

			return false
		}

		if e.out.ok() && e.reg != nil && !e.created {
			accepted++
		}

		if !e.out.ok() {
			failed++
		}

		sa, ok := r.snap(a.d, "after "+e.step.Op)
		if !ok {
			return false
		}

		sb, ok := r.snap(b.d, "after "+e.step.Op)
		if !ok {
			return false
		}

		if d := diff(common(sa), common(sb)); d != "" {
			r.violate("differs", "after %s (%v) the documents of 3.0 and 3.1 (wanted) disagree: %s", what, e.out, d)

			return false
		}

		return true
	})

	if failed > 0 {
		r.probe("failures in both versions")
	}

	r.Nontriv = accepted > 0
}

// reload makes a fresh document of what the current one was persisted as.
func (w *hist) reload(st *Step) bool {
	if st.Op != "restart" {
		return false
	}

	r := w.r

	b, y, ok := r.bytesOf(w.d, "for restarting")
	if !ok {
		return true
	}

	r.fault("restart from " + st.Arg)

	d := NewDoc(w.p.Ver, w.p.Cfg)

	o := guard(func() error {
		if st.Arg == "yaml" {
			return d.LoadYAML(y)
		}

		return d.LoadJSON(b)
	})

	if !o.ok() && !r.crash("loading", o) {
		r.violate("refused", "a persisted document is not loaded: %v", o)
	}

	if w.p.Cfg.Hooks {
		w.h.install(d.Refl().JSONSchemaReflector())
	}

	w.d, w.slots = d, map[int]*slot{}

	return true
}
