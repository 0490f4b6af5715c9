package world

import (
	"bytes"
	"encoding/json"

	"verifsim/simrt"
)

// C05: the same registrations in other orders, with other hash seeds, with other intermediate serialisations.

type alt struct {
	Order []int  `json:"order"` // of registrations, and of other steps
	Seed  uint64 `json:"seed"`
	Save  []int  `json:"save,omitempty"` // serialise before these
}

func genC05(g *genCtx, p *Plan, _ int) {
	g.safe = true
	p.Cfg = g.genCfg()
	p.Cfg.Hooks = g.P(20)

	nc := g.In(1, 3)
	total := 0
	once := map[string]bool{}
	regs := 0

	if g.P(30) {
		g.addBase(p)
		g.baseHooks = nil
		g.used = map[string]bool{}

		for _, o := range g.base {
			g.used[regKey(o, false)] = true
		}
	}

	for c := 0; c < nc; c++ {
		var l []Step

		for i := g.In(1, 4); i > 0; i-- {
			var steps []Step

			for {
				steps = g.regSteps(p.Ver, i)
				if last := steps[len(steps)-1].Op; last == "late" || last == "fill" || last == "add" && steps[len(steps)-2].Op == "add" || last == "add" && steps[len(steps)-2].Op == "late" {
					continue
				}

				break
			}

			l = append(l, steps...)
			regs++

			if g.P(30) {
				if n := g.noise(); n.Op != "walkreq" && n.Op != "walkresp" && !once[n.Op+n.Name] {
					if n.Op == "info" || n.Op == "sec" {
						once[n.Op+n.Name] = true
						regs++
					}

					l = append(l, n)
				}
			}
		}

		p.Clients = append(p.Clients, l)
		total += len(l)
	}

	p.Sched = g.sched(g.N(3*nc+1), total, nc)

	var alts []alt

	for i := g.In(2, 3); i > 0; i-- {
		a := alt{Order: g.Perm(regs), Seed: g.U64()}

		for j := 0; j < regs; j++ {
			if g.P(20) {
				a.Save = append(a.Save, j)
			}
		}

		alts = append(alts, a)
	}

	p.Extra, _ = json.Marshal(alts)
}

// bytesOf serialises a document in both formats.
func (r *Result) bytesOf(d Doc, when string) (j, y []byte, ok bool) {
	o := guard(func() (err error) {
		if j, err = d.JSON(); err != nil {
			return err
		}

		y, err = d.YAML()

		return err
	})

	if !o.ok() {
		if !r.crash("serialising "+when, o) {
			r.violate("serialise", "document does not serialise %s: %v", when, o)
		}

		return nil, nil, false
	}

	r.observe(string(j))
	r.observe(string(y))
	r.state(j)

	return j, y, true
}

// around shows where two texts part.
func around(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}

	cut := func(x []byte) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}

		if hi > len(x) {
			hi = len(x)
		}

		return string(x[lo:hi])
	}

	return "..." + cut(a) + "... vs ..." + cut(b) + "..."
}

func (r *Result) same(class, what string, aj, ay, bj, by []byte) bool {
	switch {
	case !bytes.Equal(aj, bj):
		r.violate(class, "%s, JSON: %s", what, around(aj, bj))
	case !bytes.Equal(ay, by):
		r.violate(class, "%s, YAML: %s", what, around(ay, by))
	default:
		return true
	}

	return false
}

func runC05(p *Plan, r *Result) {
	var alts []alt
	if err := json.Unmarshal(p.Extra, &alts); err != nil {
		panic("harness: " + err.Error())
	}

	w := newHist(p, r)

	var done []event

	w.run(func(e event) bool {
		if !e.out.ok() {
			r.violate("rejected", "%s %s: %v", e.step.Op, descStep(e.step), e.out)

			return false
		}

		if e.reg != nil && !e.created || e.step.Op == "info" || e.step.Op == "sec" {
			done = append(done, e)
		}

		return true
	})

	if r.Violation != "" {
		return
	}

	// Making a context may leave an empty list of paths, which tells nothing.
	level := func(d Doc) {
		for _, e := range done {
			if e.reg != nil && !e.webhook {
				return
			}
		}

		_, _ = d.Refl().NewOperationContext("get", "/never/added")
	}

	level(w.d)

	aj, ay, ok := r.bytesOf(w.d, "at the end")
	if !ok {
		return
	}

	bj, by, ok := r.bytesOf(w.d, "again")
	if !ok || !r.same("unstable", "serialising twice differs", aj, ay, bj, by) {
		return
	}

	for _, a := range alts {
		simrt.Reseed(a.Seed)
		r.fault("hash seed changed")

		cj, cy, ok := r.bytesOf(w.d, "with another hash seed")
		if !ok || !r.same("hash", "serialising with another hash seed differs", aj, ay, cj, cy) {
			return
		}

		d := NewDoc(p.Ver, p.Cfg)

		if p.Base != nil {
			if o := guard(func() error { return d.LoadJSON(p.Base) }); !o.ok() {
				r.violate("load", "a valid document is not loaded: %v", o)

				return
			}
		}

		if p.Cfg.Hooks {
			w.h.install(d.Refl().JSONSchemaReflector())
		}

		for n, i := range a.order(len(done)) {
			if i != n {
				r.fault("registration reordered")
			}

			for _, s := range a.Save {
				if s == n {
					if _, _, ok := r.bytesOf(d, "in between"); !ok {
						return
					}
				}
			}

			if o := w.replay(d, done[i]); !o.ok() {
				r.violate("rejected", "%s %s in another order: %v", done[i].step.Op, descStep(done[i].step), o)

				return
			}
		}

		level(d)

		bj, by, ok := r.bytesOf(d, "of another order")
		if !ok || !r.same("order", "another order of the same registrations gives another document", aj, ay, bj, by) {
			return
		}
	}

	r.Nontriv = len(done) > 1
}

// order adapts the permutation to the number of registrations, which may have been minimised.
func (a alt) order(n int) []int {
	var l []int

	seen := map[int]bool{}

	for _, i := range a.Order {
		if i < n && !seen[i] {
			seen[i] = true
			l = append(l, i)
		}
	}

	for i := 0; i < n; i++ {
		if !seen[i] {
			l = append(l, i)
		}
	}

	return l
}
