package world

import "strings"

// C01: many clients compete for few targets, spelled in many ways.

var c01Paths = [][]string{
	{"/a", "/a"},
	{"/b/{id}", "/b/{id:[0-9]+}", "/b/{id:.*}", "/b/{id:\\d{2}}", "/b/{id:[a-f]{1,3}-\\d{2}}"},
	{"/c/{x}/{y}", "/c/{x:[a-z]+}/{y}", "/c/{x}/{y:.+}", "/c/{x:.*}/{y:[^/]+}", "/c/{x:(ab){2}}/{y:x{3}y{4}}", "/c/{x}/{y:a:b}"},
	{"/b/{name}"},
	{"/a/"},
	{"/"},
	{"/A"},
	{"/b/{ID}"},
	{"/d/{a}.{b}", "/d/{a:[^.]+}.{b:json|xml}", "/d/{a}.{b:json}"},
	{"/d/{a}{b}", "/d/{a:[a-z]+}{b:[0-9]+}"},
	{"/d/{a}-{b}/{c}/{d}", "/d/{a}-{b:x}/{c:y}/{d:.*}", "/d/{a:a}-{b}/{c:y}/{d}"},
	{"/a//"},
	{"/ä/{ключ}", "/ä/{ключ:[а-я]+}"},
	{"/a%2Fb"},
}

func genC01(g *genCtx, p *Plan, _ int) {
	p.Cfg = g.genCfg()
	p.Cfg.Hooks = g.P(35)

	// A small world: few paths and methods.
	paths := c01Paths[g.N(3) : 3+g.N(len(c01Paths)-2)]
	ms := []string{g.Of(allMeth...)}

	for g.P(60) {
		ms = append(ms, g.Of(allMeth...))
	}

	hooks := []string{"h1", "h2"}[:g.In(1, 2)]
	if g.P(20) {
		hooks = append(hooks, g.Of("H1", "h1 ", " h1", "h1.created", "h1/created"))
	}

	if g.P(30) { // Some targets are taken from the start, others are added to what is there.
		g.addBase(p)

		for i := g.N(3); i > 0 && len(g.base) > 0; i-- {
			o := g.base[g.N(len(g.base))]
			hooks = append(hooks, g.hook("h"))
			paths = append(paths[:len(paths):len(paths)], []string{o.Path})
			ms = append(ms, o.Method)
		}
	}

	nc := g.In(2, 4)
	total := 0

	for c := 0; c < nc; c++ {
		var l []Step

		slot := 0

		for i := g.In(1, 4); i > 0; i-- {
			f := paths[g.N(len(paths))]
			path := g.Of(f...)
			m := g.Of(ms...)

			switch g.N(4) {
			case 0:
				m = strings.ToUpper(m)
			case 1:
				m = strings.ToUpper(m[:1]) + m[1:]
			}

			var s *OpSpec
			if g.P(50) {
				s = g.op(m, path)
			} else {
				s = g.small(m, path)
			}

			slot++

			pick := g.N(20)

			switch {
			case pick < 6:
				l = append(l, Step{Op: "op", Spec: s})
			case pick < 12:
				l = append(l, g.split(s, slot, false)...)
			case pick < 15:
				s.Req, s.Resp = nil, nil
				l = append(l, Step{Op: "specadd", Spec: s, Raw: g.rawOp(path, g.P(60))})
			case pick < 17 && p.Ver == "3.0":
				s = g.legacyOp(m, path)
				l = append(l, Step{Op: "legacy", Spec: s})
			case pick < 18 && p.Ver == "3.1":
				s = g.small(m, g.Of(hooks...))
				l = append(l, g.split(s, slot, true)...)
			case pick < 19 && p.Ver == "3.1":
				s = &OpSpec{Method: m, Path: g.Of(hooks...)}
				l = append(l, Step{Op: "specwh", Spec: s, Raw: g.rawOp(s.Path, g.P(60))})
			default:
				l = append(l, g.split(s, slot, false)...)
			}

			s.Sum = g.name("attempt ")

			if p.Cfg.Hooks && l[len(l)-1].Op != "addwh" && g.P(40) {
				g.nest(&l[len(l)-1], p.Ver, s)
			}

			if last := l[len(l)-1]; (last.Op == "add" || last.Op == "addwh") && g.P(30) {
				// Submitted again, right away or later.
				l = append(l, last)
			}

			if g.P(15) {
				l = append(l, g.noise())
			}
		}

		p.Clients = append(p.Clients, l)
		total += len(l)
	}

	p.Sched = g.sched(g.N(3*nc+1), total, nc)
}

// small is an operation with little content.
func (g *genCtx) small(method, path string) *OpSpec {
	s := &OpSpec{Method: method, Path: path}

	_, ph := CleanPath(path)
	if len(ph) > 0 {
		t := T{K: "struct"}
		for _, n := range ph {
			t.F = append(t.F, F{N: g.name("F"), T: k(g.Of("string", "int")), G: [][2]string{{"path", n}}})
		}

		s.Req = append(s.Req, CU{T: &t, Ptr: true})
	}

	if g.P(50) {
		t := named(g.Of("Owner", "Circle", "ErrResp"))
		s.Resp = append(s.Resp, CU{T: &t, Ptr: true, Status: []int{0, 200, 201}[g.N(3)]})
	}

	return s
}

// entries are the operations and webhooks of a document.
func (s snapshot) entries() map[string]string {
	m := map[string]string{}

	for path, pi := range s.get("paths") {
		po, ok := pi.(obj)
		if !ok {
			m["bad path item "+path] = canon(pi)

			continue
		}

		for k, v := range po {
			if methods[k] {
				m[k+" "+path] = canon(v)
			} else {
				m["member "+k+" of "+path] = canon(v)
			}
		}
	}

	for n, v := range s.get("webhooks") {
		m["hook "+n] = canon(v)
	}

	return m
}

func runC01(p *Plan, r *Result) {
	w := newHist(p, r)
	acc := snapshot{j: w.base}.entries() // accepted entries, and what was there from the start
	late, taken := 0, 0

	w.run(func(e event) bool {
		if e.reg == nil && !e.out.ok() {
			r.violate("outcome", "%s: %v", e.step.Op, e.out)

			return false
		}

		busy := false
		if e.reg != nil {
			_, busy = acc[e.key()]
		}

		switch {
		case e.reg == nil:
		case e.created && e.webhook: // Names are checked when the webhook is added.
			if e.out.err != nil && !busy {
				r.violate("rejected", "context for free %s is refused: %v", e.key(), e.out)
			}
		case e.out.ok() && busy && !e.created:
			r.violate("accepted twice", "%s is accepted again", e.key())
		case e.created && e.out.ok() && busy:
			r.violate("accepted twice", "a context for %s is given out although it already exists", e.key())
		case !e.out.ok() && !busy:
			r.violate("rejected", "%s is free, but the attempt fails: %v", e.key(), e.out)
		case e.created:
		case busy:
			taken++
			r.fault("conflicting registration")

			if e.step.Op == "add" || e.step.Op == "addwh" {
				late++
			}
		}

		if r.Violation != "" {
			return false
		}

		s, ok := r.snap(w.d, "after "+e.step.Op)
		if !ok {
			return false
		}

		now := s.entries()

		if e.reg != nil && !e.created && e.out.ok() && !busy {
			key := e.key()

			raw, ok := now[key]
			if !ok {
				r.violate("missing", "accepted %s is not in the document", key)

				return false
			}

			mark := e.reg.Sum
			if e.step.Raw != nil {
				mark, _ = parse(e.step.Raw).(obj)["summary"].(string)
			}

			o := parse([]byte(raw)).(obj)
			if e.webhook {
				o, _ = o[strings.ToLower(e.reg.Method)].(obj)
			}

			if o["summary"] != mark {
				r.violate("replaced", "%s is not what was accepted: summary %v, want %s", key, o["summary"], mark)

				return false
			}

			acc[key] = raw
		}

		for key, raw := range acc {
			if d := now[key]; d != raw {
				r.violate("changed", "accepted %s is changed by %s: %s, was %s", key, e.step.Op, clip(d), clip(raw))

				return false
			}
		}

		for key := range now {
			if _, ok := acc[key]; !ok {
				r.violate("extra", "%s is in the document after %s, but was never accepted", key, e.step.Op)

				return false
			}
		}

		return true
	})

	if taken > 0 {
		r.probe("rejected attempt")
	}

	if late > 0 {
		r.probe("target taken between preparation and completion")
	}

	r.Nontriv = taken > 0
}
