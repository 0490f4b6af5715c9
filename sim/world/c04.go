package world

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"

	"verifsim/simrt"
)

// C04: a finished document is read by several tasks.

type finished struct {
	Doc   json.RawMessage `json:"doc,omitempty"` // loaded
	YAML  bool            `json:"yaml,omitempty"`
	Steps []Step          `json:"steps,omitempty"` // made by these
}

func genC04(g *genCtx, p *Plan, _ int) {
	var f finished

	p.Cfg = g.genCfg()

	if g.P(50) {
		p.Kind = "made"

		for i := g.In(1, 4); i > 0; i-- {
			f.Steps = append(f.Steps, g.regSteps(p.Ver, i)...)

			if g.P(40) {
				f.Steps = append(f.Steps, g.noise())
			}
		}
	} else {
		p.Kind = "loaded"
		f.Doc = json.RawMessage(canon(g.entDoc(p.Ver)))
		f.YAML = g.P(30)
	}

	nc := g.In(2, 4)
	one := g.P(30)
	op := g.Of("json", "yaml", "resolve", "convert", "lookup", "info")

	for c := 0; c < nc; c++ {
		var l []Step

		for i := g.In(1, 4); i > 0; i-- {
			st := Step{Op: g.Of("json", "yaml", "resolve", "resolve", "convert", "convert", "lookup", "info"), N: g.N(1000)}
			if one { // The same thing by all of them.
				st.Op = op
			}

			l = append(l, st)
		}

		p.Clients = append(p.Clients, l)
	}

	p.Extra, _ = json.Marshal(f)
	p.Sched = g.bigSched([]int{2, 10, 50, 200}[g.N(4)], []uint64{1000, 5000, 40000}[g.N(3)], nc)
}

// make builds the document.
func (f *finished) make(p *Plan) (Doc, error) {
	if f.Doc != nil {
		d := NewDoc(p.Ver, p.Cfg)

		if f.YAML {
			if err := d.LoadJSON(f.Doc); err != nil {
				return nil, err
			}

			y, err := d.YAML()
			if err != nil {
				return nil, err
			}

			return d, d.LoadYAML(y)
		}

		return d, d.LoadJSON(f.Doc)
	}

	var r Result

	w := newHist(p, &r)
	for i := range f.Steps {
		w.step(0, &f.Steps[i])
	}

	return w.d, nil
}

// names are what can be looked up in the document.
func names(f *finished, d Doc) (comps []string, ops [][2]string) {
	b, err := d.JSON()
	if err != nil {
		return nil, nil
	}

	s := snapshot{j: parse(b).(obj)}
	comps = append(sortedKeys(s.comps()), "Missing")

	for _, p := range sortedKeys(s.get("paths")) {
		pi, _ := s.get("paths")[p].(obj)
		for _, m := range sortedKeys(pi) {
			ops = append(ops, [2]string{m, p})
		}

		ops = append(ops, [2]string{"GET", p}, [2]string{"unknown", p})
	}

	ops = append(ops, [2]string{"get", "/missing"})

	sort.Slice(ops, func(i, j int) bool { return ops[i][1]+ops[i][0] < ops[j][1]+ops[j][0] })

	return comps, ops
}

// readStep reads the document.
func readStep(d Doc, st *Step, comps []string, ops [][2]string) (b []byte, o outcome) {
	o = guard(func() (err error) {
		switch st.Op {
		case "json":
			b, err = d.JSON()
		case "yaml":
			b, err = d.YAML()
		case "resolve":
			s, ok := d.Resolve("#/components/schemas/" + comps[st.N%len(comps)])
			if !ok {
				return errors.New("not found")
			}

			b, err = json.Marshal(s)
		case "convert":
			b, err = d.Convert(comps[st.N%len(comps)])
		case "lookup":
			x := ops[st.N%len(ops)]
			b, err = d.Lookup(x[0], x[1])
		case "info":
			s := d.Refl().SpecSchema()
			b = []byte(s.Title() + "|" + s.Version() + "|" + s.Description())
		default:
			panic("harness: unknown step " + st.Op)
		}

		return err
	})

	return b, o
}

func runC04(p *Plan, r *Result) {
	var f finished
	if err := json.Unmarshal(p.Extra, &f); err != nil {
		panic("harness: " + err.Error())
	}

	var ds [3]Doc // the one that is read, its twin, and the one that nobody ever reads before the end

	for i := range ds {
		d, err := f.make(p)
		if err != nil {
			r.observe("not loaded")

			return
		}

		ds[i] = d
	}

	comps, ops := names(&f, ds[1])
	if comps == nil {
		r.violate("serialise", "document does not serialise")

		return
	}

	type res struct {
		b   []byte
		sum uint64
		o   outcome
	}

	all := make([][]res, len(p.Clients))
	races := simrt.Races()

	var fs []func()

	for c := range p.Clients {
		c := c
		all[c] = make([]res, len(p.Clients[c]))

		fs = append(fs, func() {
			for i := range p.Clients[c] {
				simrt.Point()

				b, o := readStep(ds[0], &p.Clients[c][i], comps, ops)
				all[c][i] = res{b, fnv(1, string(b)), o}
			}
		})
	}

	if len(fs) > 0 {
		simrt.Run(fs...)
	}

	if simrt.Races() > races {
		r.violate("race", "data race between tasks that read a finished document")

		return
	}

	for c := range all {
		for i, x := range all[c] {
			st := &p.Clients[c][i]
			what := fmt.Sprintf("task %d: %s", c, st.Op)
			b, o := readStep(ds[1], st, comps, ops)

			r.observe(kindOf(x.o))
			r.observe(string(x.b))

			switch {
			case fnv(1, string(x.b)) != x.sum:
				r.violate("overwritten", "%s: the result was overwritten later", what)
			case kindOf(o) != kindOf(x.o):
				r.violate("outcome", "%s: %v, alone: %v", what, x.o, o)
			case string(b) != string(x.b):
				r.violate("result", "%s: %s", what, around(x.b, b))
			}

			if r.Violation != "" {
				return
			}
		}
	}

	aj, ay, ok := r.bytesOf(ds[0], "after it was read")
	if !ok {
		return
	}

	bj, by, ok := r.bytesOf(ds[2], "that was not read")
	if !ok {
		return
	}

	if r.same("changed", "reading changed the document", aj, ay, bj, by) {
		r.Nontriv = len(all) > 1
	}
}
