package world

import (
	"encoding/json"
	"strings"
)

// C02: registrations fail at any point and are retried.

func (g *genCtx) fault() Fault {
	return Fault{Pm: g.N(1000), By: g.P(40), Kind: g.Of("err", "err", "panic"), Stay: g.P(25)}
}

const badMethod = "the method is invalid"

// broken makes a declaration that must be rejected of one that is fine.
func (g *genCtx) broken(s *OpSpec) *OpSpec {
	b := *s
	b.Req = append([]CU(nil), s.Req...)
	b.Resp = append([]CU(nil), s.Resp...)

	bad := func(f F) CU { return CU{T: &T{K: "struct", F: []F{f}}, Ptr: true} }

	// Position of the broken content unit.
	put := func(l []CU, cu CU) []CU {
		i := g.N(len(l) + 1)

		return append(l[:i:i], append([]CU{cu}, l[i:]...)...)
	}

	n := 8
	if strings.EqualFold(s.Method, "head") {
		n = 7
	}

	switch g.N(n) {
	case 0:
		b.Method = g.Of("foo", "CONNECT", "", "get ", "gett", "x-get")
		b.Bad = badMethod
	case 1: // Placeholder without parameter.
		b.Path += "/{undeclared}"
		b.Bad = "a placeholder has no parameter"
	case 2: // Parameter without placeholder.
		b.Req = put(b.Req, bad(F{N: "Stray", T: k("string"), G: [][2]string{{"path", "stray"}}}))
		b.Bad = "a parameter has no placeholder"
	case 3: // Parameter declared twice.
		in := g.Of("query", "header", "cookie")
		cu := bad(F{N: "Twice", T: k("string"), G: [][2]string{{in, "twice"}}})
		b.Req = put(put(b.Req, cu), cu)
		b.Bad = "a parameter is declared twice"
	case 4: // Invalid tag.
		b.Req = put(b.Req, bad(F{N: "Tag", T: k("string"), G: [][2]string{{g.Of("query", "header"), "tagged"}, {"deprecated", "maybe"}}}))
		b.Bad = "a tag is invalid"
	case 5: // Type that has no schema.
		b.Req = put(b.Req, bad(F{N: "Chan", T: k(g.Of("chan", "func")), G: [][2]string{{"query", "chan"}}}))
		b.Bad = "a type has no schema"
	case 7:
		b.Resp = put(b.Resp, CU{T: &T{K: "struct", F: []F{
			{N: "Fine", T: named("Owner"), G: [][2]string{{"json", "fine"}}},
			{N: "Chan", T: k(g.Of("chan", "func")), G: [][2]string{{"json", "chan"}}},
		}}, Ptr: true, Status: 200})
		b.Bad = "a type has no schema"
	case 6:
		b.Resp = put(b.Resp, bad(F{N: "Hdr", T: k("string"), G: [][2]string{{"header", "X-Bad"}, {"required", "maybe"}}}))
		b.Bad = "a tag is invalid"
	}

	return &b
}

func genC02(g *genCtx, p *Plan, _ int) {
	g.safe, g.hooky, g.fickle = true, true, true
	p.Cfg = g.genCfg()
	p.Cfg.Hooks = g.P(80)

	nc := g.In(1, 3)
	total := 0

	if g.P(30) {
		g.addBase(p)
	}

	known := append([]*OpSpec(nil), g.base...)

	for c := 0; c < nc; c++ {
		var l []Step

		slot := 0

		reg := func(s *OpSpec, how int, wh bool, fs []Fault) {
			switch {
			case how < 5:
				op := "op"
				if wh {
					op = "wh"
				}

				l = append(l, Step{Op: op, Spec: s, Faults: fs})
			case how < 8 || p.Ver == "3.1":
				slot++
				x := g.split(s, slot, wh)

				i := len(x) - 1
				if g.P(20) && fs != nil {
					i = g.In(1, len(x)-1) // A context that failed half way is given up.
				}

				x[i].Faults = fs
				l = append(l, x[:i+1]...)
			default:
				l = append(l, Step{Op: "legacy", Spec: s, Faults: fs})
			}
		}

		for i := g.In(1, 4); i > 0; i-- {
			how := g.N(10)
			wh := p.Ver == "3.1" && g.P(20)
			path := g.path()

			if len(g.base) > 0 && g.P(25) {
				path = g.base[g.N(len(g.base))].Path
			}

			if wh {
				path = g.hook("hook")
			}

			m := g.method()
			if wh {
				m = g.Of(bodyMeth...)
			}

			s := g.op(m, path)
			if how >= 8 && p.Ver == "3.0" {
				s = g.legacyOp(m, path)
			}

			switch pick := g.N(11); {
			case pick == 10 && !wh && g.P(60), pick == 9 && !wh && len(g.base) > 0: // A set-up of an operation, new or not.
				l = append(l, g.setups(m, path, known)...)
			case pick < 5 && p.Cfg.Hooks: // A hook fails, possibly several times.
				for n := g.In(1, 2); n > 0; n-- {
					reg(s, how, wh, []Fault{g.fault()})
				}

				l = g.maybeNoise(l)

				reg(s, g.how(how), wh, nil)
			case pick < 7 && !wh: // An invalid declaration is corrected.
				b := g.broken(s)
				reg(b, how, false, nil)

				l = g.maybeNoise(l)

				reg(s, g.how(how), false, nil)
			case pick < 8 && len(known) > 0: // A conflict.
				o := *known[g.N(len(known))]
				o.Sum = "conflict"

				if !strings.HasPrefix(o.Path, "/") {
					l = append(l, Step{Op: "wh", Spec: &o})
				} else {
					l = append(l, Step{Op: "op", Spec: &o})
				}
			case pick < 9 && !wh: // A set-up of an operation, new or not.
				l = append(l, g.setups(m, path, known)...)
			default:
				reg(s, how, wh, nil)

				o := *s
				known = append(known, &o)
			}

			l = g.maybeNoise(l)
		}

		p.Clients = append(p.Clients, l)
		total += len(l)
	}

	p.Sched = g.sched(g.N(2*nc+1), total, nc)
}

// setups are a set-up and possibly a failure of it before.
func (g *genCtx) setups(m, path string, known []*OpSpec) []Step {
	st := g.setup(m, path, known)

	if g.P(40) {
		return []Step{st}
	}

	bad := st
	bad.Name = g.name("failed set up ")
	bad.Faults = []Fault{{At: 1, Kind: g.Of("err", "panic")}}

	return []Step{bad, st}
}

// setup makes a set-up of an operation, new or not.
func (g *genCtx) setup(m, path string, known []*OpSpec) Step {
	sp := &OpSpec{Method: m, Path: path}
	if len(known) > 0 && g.P(60) {
		o := known[g.N(len(known))]
		sp = &OpSpec{Method: o.Method, Path: o.Path}
	} else if _, ph := CleanPath(path); len(ph) > 0 {
		sp.Path = "/" + g.name("setup")
	}

	if !strings.HasPrefix(sp.Path, "/") {
		sp.Path = "/" + sp.Path
	}

	var ps []json.RawMessage
	for n := g.N(3); n > 0; n-- {
		ps = append(ps, json.RawMessage(canon(obj{
			"name": g.Of("s1", "s2", "s3", "s4"), "in": g.Of("query", "header"), "schema": obj{"type": "string"},
		})))
	}

	if g.P(15) { // Not in the path.
		ps = append(ps, json.RawMessage(`{"name":"nope","in":"path","required":true,"schema":{"type":"string"}}`))
	}

	raw, _ := json.Marshal(ps)

	return Step{Op: "specsetup", Spec: sp, Raw: raw, Name: g.name("set up "), Arg: g.Of("", "tagged")}
}

// how keeps deprecated registrations deprecated, since they document less.
func (g *genCtx) how(h int) int {
	if h < 8 {
		return g.N(8)
	}

	return h
}

func (g *genCtx) maybeNoise(l []Step) []Step {
	for g.P(25) {
		if n := g.noise(); n.Op != "walkreq" && n.Op != "walkresp" {
			l = append(l, n)
		}
	}

	return l
}

// untouched tells what a step changed although it must not have.
func untouched(before, after snapshot) string {
	b, a := obj{}, obj{}
	for k, v := range before.j {
		b[k] = v
	}

	for k, v := range after.j {
		a[k] = v
	}

	comps := func(o obj) (obj, obj) {
		c, _ := o["components"].(obj)
		n := obj{}

		for k, v := range c {
			n[k] = v
		}

		s, _ := n["schemas"].(obj)
		delete(n, "schemas")

		if len(n) == 0 {
			delete(o, "components")
		} else {
			o["components"] = n
		}

		return o, s
	}

	b, bs := comps(b)
	a, as := comps(a)

	if d := diff(tidy(a), tidy(b)); d != "" {
		return d
	}

	for n, v := range bs {
		w, ok := as[n]
		if !ok {
			return "/components/schemas/" + n + ": removed"
		}

		if d := diff(w, v); d != "" {
			return "/components/schemas/" + n + d
		}
	}

	return ""
}

// replay applies a step that succeeded to another document.
func (w *hist) replay(d Doc, e event) outcome {
	was := w.h.off
	w.h.off = true

	defer func() { w.h.off = was }()

	return guard(func() error {
		switch e.step.Op {
		case "op", "wh", "add", "addwh":
			if e.reg == nil { // Nothing was there to add.
				return nil
			}

			return register(d, e.reg, e.webhook, nil)
		case "legacy":
			return d.Legacy(*e.reg)
		case "specadd":
			return d.SpecAdd(e.reg.Method, e.reg.Path, e.step.Raw)
		case "specwh":
			return d.SpecAddWebhook(e.reg.Method, e.reg.Path, e.step.Raw)
		case "specsetup":
			return d.SpecSetup(e.step.Spec.Method, e.step.Spec.Path, func(o OpHandle) error { return w.setupOp(o, e.step) })
		case "info", "sec":
			w2 := &hist{p: w.p, r: &Result{}, d: d, h: w.h}
			w2.step(e.client, e.step)
		}

		return nil
	})
}

func runC02(p *Plan, r *Result) {
	w := newHist(p, r)
	acc := w.baseKeys()
	open := map[string]bool{} // failed, not retried yet
	retried, failures := 0, 0
	leftover := false // Components of attempts that are never repeated may stay.
	sh := NewDoc(p.Ver, p.Cfg)

	before, ok := r.snap(w.d, "at the start")
	if !ok {
		return
	}

	if p.Base != nil {
		if o := guard(func() error { return sh.LoadJSON(p.Base) }); !o.ok() {
			r.violate("load", "a valid document is not loaded: %v", o)

			return
		}
	}

	if p.Cfg.Hooks { // The shadow document has the same hooks, which never fail there.
		w.h.install(sh.Refl().JSONSchemaReflector())
	}

	w.run(func(e event) bool {
		after, ok := r.snap(w.d, "after "+e.step.Op)
		if !ok {
			return false
		}

		key, must := "", "" // why the step must fail

		switch {
		case e.step.Op == "specsetup":
			must = setupFails(before, e.step)
		case e.reg != nil:
			key = e.key()

			switch {
			case acc[key] && !(e.created && e.webhook):
				must = "it exists already"
			case !e.created || e.reg.Bad == badMethod:
				must = e.reg.Bad
			}
		}

		what := e.step.Op + " " + descStep(e.step)

		switch {
		case e.out.ok() && must != "":
			r.violate("accepted", "%s succeeds although %s", what, must)
		case !e.out.ok() && must == "" && e.fired == 0:
			r.violate("rejected", "%s fails without a reason: %v", what, e.out)
		case e.out.ok() && e.fired > 0:
			r.violate("swallowed", "%s succeeds although a hook failed", what)
		case !e.out.ok():
			failures++

			if must != "" {
				r.fault("declaration to be rejected: " + must)
			}

			switch {
			case e.fired > 0:
				open[key] = true
			case e.step.Op == "legacy" || !acc[key]:
				leftover = true
			}
		}

		if r.Violation != "" {
			return false
		}

		if !e.out.ok() || e.step.Op == "new" || e.step.Op == "fill" {
			if d := untouched(before, after); d != "" {
				r.violate("trace", "%s (%v) leaves a trace: %s", what, e.out, d)

				return false
			}

			if y := guard(func() error { _, err := w.d.YAML(); return err }); !y.ok() {
				r.violate("serialise", "document does not serialise to YAML after %s: %v", what, y)

				return false
			}
		}

		before = after

		if e.out.ok() {
			if e.step.Op == "specsetup" {
				acc[regKey(e.step.Spec, false)] = true
			}

			if e.reg != nil && !e.created {
				acc[key] = true

				if open[key] {
					retried++

					delete(open, key)
				}
			}

			if o := w.replay(sh, e); !o.ok() {
				r.violate("retry", "%s succeeds, but not in the history without failures: %v", what, o)

				return false
			}
		}

		return true
	})

	if r.Violation != "" {
		return
	}

	a, ok := r.snap(w.d, "at the end")
	if !ok {
		return
	}

	b, ok := r.snap(sh, "of the history without failures")
	if !ok {
		return
	}

	if leftover || len(open) > 0 {
		bs := b.comps()

		for n := range a.comps() {
			if _, ok := bs[n]; !ok {
				delete(a.comps(), n)
			}
		}
	}

	if d := diff(tidy(a.j), tidy(b.j)); d != "" {
		r.violate("differs", "document differs from the one of a history without the failures: %s", d)
	}

	if retried > 0 {
		r.probe("success after failure")
	}

	r.Nontriv = failures > 0
}

// setupFails tells why a set-up step must fail.
func setupFails(s snapshot, st *Step) string {
	path, ph := CleanPath(st.Spec.Path)
	want := map[string]bool{}

	for _, p := range ph {
		want["path "+p] = true
	}

	var l []interface{}

	_ = json.Unmarshal(st.Raw, &l)

	have, _ := s.get("paths", path, strings.ToLower(st.Spec.Method))["parameters"].([]interface{})
	seen := map[string]bool{}

	for _, p := range append(append([]interface{}{}, have...), l...) {
		o := p.(obj)
		if o["$ref"] != nil {
			continue
		}

		k := o["in"].(string) + " " + o["name"].(string)

		if seen[k] {
			return "a parameter is declared twice"
		}

		if o["in"] == "path" && !want[k] {
			return "a parameter has no placeholder"
		}

		seen[k] = true
	}

	for k := range want {
		if !seen[k] {
			return "a placeholder has no parameter"
		}
	}

	return ""
}
