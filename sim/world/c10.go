package world

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
)

// C10: after every step, whatever failed, the document is well-formed.

func genC10(g *genCtx, p *Plan, _ int) {
	p.Cfg = g.genCfg()
	p.Cfg.Hooks = g.P(70)
	g.hooky = p.Cfg.Hooks && g.P(50)
	g.fickle, g.strict = g.hooky, true

	nc := g.In(1, 3)
	total := 0

	var known []*OpSpec

	for c := 0; c < nc; c++ {
		var l []Step

		for i := g.In(1, 4); i > 0; i-- {
			x := g.regSteps(p.Ver, i)
			last := &x[len(x)-1]

			if last.Raw != nil {
				if g.P(30) {
					last.Raw = g.badRaw(last.Spec.Path)
				} else {
					last.Raw = g.rawOp(last.Spec.Path, g.P(60))
				}
			}

			switch {
			case last.Op == "op" && g.P(30):
				last.Spec = g.broken(last.Spec)
			case p.Cfg.Hooks && last.Raw == nil && g.P(50):
				if g.P(20) {
					g.nest(last, p.Ver, last.Spec)
				}

				last.Faults = append(last.Faults, g.fault())

				switch last.Op {
				case "op", "wh", "legacy", "add", "addwh":
					for g.P(60) { // Submitted again, with another failure or none.
						again := x[len(x)-1]
						again.Faults = nil

						if g.P(40) {
							again.Faults = append(again.Faults, g.fault())
						}

						x = append(x, again)
					}
				}
			}

			l = append(l, x...)

			if s := x[0].Spec; strings.HasPrefix(s.Path, "/") {
				known = append(known, s)
			}

			if g.P(15) {
				st := g.setup(g.method(), g.path(), known)
				if g.P(40) && p.Cfg.Hooks {
					st.Faults = []Fault{{At: 1, Kind: g.Of("err", "panic")}}
				}

				l = append(l, st)
			}

			if st, ok := g.walk(); ok && g.P(30) {
				st.Op = "walkreq"
				if st.Name == "" {
					st.Op = "walkresp"
				}

				st.Arg = ""

				if p.Cfg.Hooks && g.P(60) {
					st.Faults = append(st.Faults, Fault{At: g.In(1, 40), Kind: g.Of("err", "panic")})
				}

				l = append(l, st)
			}

			if g.P(25) {
				l = append(l, g.noise())
			}

			if g.P(20) {
				l = append(l, Step{Op: "restart", Arg: g.Of("json", "yaml")})
			}
		}

		p.Clients = append(p.Clients, l)
		total += len(l)
	}

	p.Sched = g.sched(g.N(3*nc+1), total, nc)
}

// badRaw is an operation whose parameters do not fit.
func (g *genCtx) badRaw(path string) json.RawMessage {
	o := parse(g.rawOp(path, g.P(60))).(obj)
	ps, _ := o["parameters"].([]interface{})

	switch {
	case len(ps) > 0 && g.P(50): // One more time.
		ps = append(ps, ps[g.N(len(ps))])
	case len(ps) > 0 && g.P(50): // Parameters of the path come first.
		ps = ps[1:]
	default:
		ps = append(ps, obj{"name": "stray", "in": "path", "required": true, "schema": obj{"type": "string"}})
	}

	o["parameters"] = ps

	return json.RawMessage(canon(o))
}

// fair tells if an operation conforms to the specification.
func fair(ver string, raw json.RawMessage) bool {
	op := parse(raw).(obj)
	if rs, _ := op["responses"].(obj); len(rs) == 0 {
		op["responses"] = obj{"204": obj{"description": ""}}
	}

	if l, ok := op["parameters"].([]interface{}); ok { // Whether they are repeated is checked elsewhere.
		m := map[string]interface{}{}
		for _, p := range l {
			m[canon(p)] = p
		}

		l = nil
		for _, p := range m {
			l = append(l, p)
		}

		op["parameters"] = l
	}

	return conformance(ver, obj{
		"openapi": ver + ".0", "info": obj{"title": "", "version": ""}, "paths": obj{"/": obj{"get": op}},
	}) == ""
}

var compName = regexp.MustCompile(`^[a-zA-Z0-9._-]+$`)

var placeholder = regexp.MustCompile(`{([^}]*)}`)

// wellFormed tells what is wrong with a document. Bare operations were made by set-up functions, which have to care
// for responses themselves.
func wellFormed(ver string, s snapshot, bare map[string]bool) (class, what string) {
	comps := s.comps()
	bad := ""

	refs(s.j, func(ref string) {
		n := strings.TrimPrefix(ref, "#/components/schemas/")
		if n == ref || bad != "" {
			return
		}

		n = strings.ReplaceAll(strings.ReplaceAll(n, "~1", "/"), "~0", "~")

		if _, ok := comps[n]; !ok {
			bad = fmt.Sprintf("reference %s does not resolve", ref)
		}
	})

	if bad != "" {
		return "reference", bad
	}

	all, _ := s.j["components"].(obj)
	for _, kind := range sortedKeys(all) {
		m, _ := all[kind].(obj)

		for _, n := range sortedKeys(m) {
			if !compName.MatchString(n) {
				return "component name", fmt.Sprintf("name of component %q in %s is not allowed", n, kind)
			}
		}
	}

	paths := s.get("paths")

	for _, path := range sortedKeys(paths) {
		pi, _ := paths[path].(obj)

		for _, m := range sortedKeys(pi) {
			if op, ok := pi[m].(obj); ok && methods[m] {
				if rs, _ := op["responses"].(obj); len(rs) == 0 && bare[m+" "+path] {
					op["responses"] = obj{"200": obj{"description": ""}}
				}

				if e := operationFormed(path, op); e != "" {
					return "operation", m + " " + path + ": " + e
				}
			}
		}
	}

	if _, ok := s.j["webhooks"]; ver == "3.1" && paths == nil && all == nil && !ok {
		s.j["paths"] = obj{} // Nothing is registered yet.
	}

	if e := conformance(ver, s.j); e != "" {
		return "schema", "document does not conform to the specification: " + e
	}

	return "", ""
}

func operationFormed(path string, op obj) string {
	ps, _ := op["parameters"].([]interface{})
	seen, want := map[string]bool{}, map[string]bool{}

	for _, m := range placeholder.FindAllStringSubmatch(path, -1) {
		if want[m[1]] {
			return "placeholder " + m[1] + " is repeated"
		}

		want[m[1]] = true
	}

	for _, p := range ps {
		o, _ := p.(obj)
		in, _ := o["in"].(string)
		name, _ := o["name"].(string)

		if seen[in+" "+name] {
			return fmt.Sprintf("%s parameter %q is repeated", in, name)
		}

		seen[in+" "+name] = true

		if in != "path" {
			continue
		}

		if !want[name] {
			return fmt.Sprintf("path parameter %q has no placeholder", name)
		}

		if o["required"] != true {
			return fmt.Sprintf("path parameter %q is not required", name)
		}

		delete(want, name)
	}

	if len(want) > 0 {
		return fmt.Sprintf("placeholder %v has no parameter", sorted(want))
	}

	if rs, _ := op["responses"].(obj); len(rs) == 0 {
		return "there is no response"
	}

	return ""
}

func runC10(p *Plan, r *Result) {
	w := newHist(p, r)
	failed, accepted := 0, 0
	bare := map[string]bool{}

	for _, c := range p.Clients {
		for _, st := range c {
			if (st.Op == "specadd" || st.Op == "specwh") && !fair(p.Ver, st.Raw) {
				return // A minimised plan may declare nonsense.
			}
		}
	}

	w.extra = func(st *Step) bool { return w.reload(st) }

	w.run(func(e event) bool {
		s, ok := r.snap(w.d, "after "+e.step.Op)
		if !ok {
			return false
		}

		if e.out.ok() && e.reg != nil && !e.created {
			accepted++
		}

		if !e.out.ok() {
			failed++

			if e.reg != nil && e.reg.Bad != "" {
				r.fault("declaration to be rejected: " + e.reg.Bad)
			}
		}

		if e.step.Op == "specsetup" {
			bare[regKey(e.step.Spec, false)] = true
		}

		if c, d := wellFormed(p.Ver, s, bare); d != "" {
			r.violate(c, "after %s %s (%v): %s", e.step.Op, descStep(e.step), e.out, d)

			return false
		}

		return true
	})

	if failed > 0 && accepted > 0 {
		r.probe("failures and registrations in one history")
	}

	r.Nontriv = accepted > 0 && failed > 0
}
