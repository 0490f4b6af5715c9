package world

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/swaggest/openapi-go"
	"verifsim/cat"
	"verifsim/simrt"
)

// C03: every client has its own reflector and document, the values that describe operations are shared.

// shared is what clients of a run share, and how their documents differ.
type shared struct {
	Specs []*OpSpec `json:"specs"`
	Docs  []docSpec `json:"docs"`
}

type docSpec struct {
	Ver string `json:"ver"`
	Cfg Cfg    `json:"cfg"`
}

func genC03(g *genCtx, p *Plan, _ int) {
	var sh shared

	g.exact = true

	nc := g.In(2, 4)
	noTags := false
	all30 := g.P(30)
	same := g.P(40)

	for c := 0; c < nc; c++ {
		d := docSpec{Ver: g.Of("3.0", "3.1"), Cfg: g.genCfg()}
		if c > 0 && same {
			d.Cfg = sh.Docs[0].Cfg
		}

		d.Cfg.Hooks = g.P(40)

		if all30 {
			d.Ver = p.Ver
		}

		noTags = noTags || d.Cfg.NoTags
		sh.Docs = append(sh.Docs, d)
	}

	g.cfg = Cfg{NoTags: noTags}

	legacy := map[int]bool{}

	for i := g.In(1, 4); i > 0; i-- {
		m, path := g.method(), g.path()

		s := g.op(m, path)
		if g.P(20) {
			s = g.legacyOp(m, path)
			legacy[len(sh.Specs)] = true
		}

		if g.P(10) {
			s = g.broken(s)
		}

		sh.Specs = append(sh.Specs, s)
	}

	for c := 0; c < nc; c++ {
		var l []Step

		slot := 0

		for i := g.In(1, 3); i > 0; i-- {
			n := g.N(len(sh.Specs))
			s := sh.Specs[n]

			switch pick := g.N(10); {
			case pick < 3:
				l = append(l, Step{Op: "op", N: n + 1})
			case pick < 5 && legacy[n] && sh.Docs[c].Ver == "3.0":
				l = append(l, Step{Op: "legacy", N: n + 1})
			case pick < 7:
				slot++

				for _, st := range g.split(s, slot, false) {
					if st.Spec != nil {
						st.Spec, st.N = nil, n+1
					}

					l = append(l, st)
				}
			case pick < 8 && len(s.Req) > 0 && s.Bad == "":
				l = append(l, Step{Op: "walkreq", Name: s.Method, N: n + 1, Slot: g.N(len(s.Req))})
			case pick < 9 && len(s.Resp) > 0 && s.Bad == "":
				l = append(l, Step{Op: "walkresp", N: n + 1, Slot: g.N(len(s.Resp))})
			default: // Not shared.
				l = append(l, Step{Op: "op", Spec: g.op(g.method(), g.path())})
			}

			if g.P(40) {
				if st := g.noise(); st.CU == nil {
					l = append(l, st)
				}
			}
		}

		p.Clients = append(p.Clients, l)
	}

	p.Extra, _ = json.Marshal(sh)
	p.Sched = g.bigSched([]int{2, 10, 50, 200}[g.N(4)], []uint64{3000, 15000, 60000}[g.N(3)], nc)
}

// prepare makes all values that clients share, once.
func (sh *shared) prepare() {
	for _, s := range sh.Specs {
		s.Tags = spare(s.Tags)

		for i := range s.Sec {
			s.Sec[i].Scopes = spare(s.Sec[i].Scopes)
		}

		for _, l := range [][]CU{s.Req, s.Resp} {
			for i := range l {
				cu := &l[i]
				k := &kept{sample: cu.Structure(), opts: cu.options(nil)}
				k.opts = append(make([]openapi.ContentOption, 0, len(k.opts)+2), k.opts...)
				k.unit = cu.unit(nil)
				cu.keep = k
			}
		}
	}
}

// spare gives a list room that others must not write to.
func spare(l []string) []string {
	if l == nil {
		return nil
	}

	r := make([]string, len(l), len(l)+2)
	copy(r, l)

	x := r[:cap(r)]
	for i := len(l); i < len(x); i++ {
		x[i] = "unused"
	}

	return r
}

// touched tells what was done to the shared values.
func (sh *shared) touched(orig string) string {
	b, _ := json.Marshal(sh.Specs)
	if string(b) != orig {
		return "a declaration (tags, scopes or mappings)"
	}

	if !cat.SameFixed() {
		return "a schema that a type exposes"
	}

	room := func(l []string) bool {
		for _, s := range l[len(l):cap(l)] {
			if s != "unused" {
				return true
			}
		}

		return false
	}

	for _, s := range sh.Specs {
		if room(s.Tags) {
			return "the memory behind a list of tags"
		}

		for _, sec := range s.Sec {
			if room(sec.Scopes) {
				return "the memory behind a list of scopes"
			}
		}

		for _, l := range [][]CU{s.Req, s.Resp} {
			for _, cu := range l {
				if !sameSample(cu) {
					return "a sample structure"
				}

				for _, o := range cu.keep.opts[len(cu.keep.opts):cap(cu.keep.opts)] {
					if o != nil {
						return "the memory behind a list of options"
					}
				}
			}
		}
	}

	return ""
}

// sameSample tells if the sample that is shared still is what a new one would be.
func sameSample(cu CU) bool {
	old := cu.keep.sample
	cu.keep = nil

	return reflect.DeepEqual(old, cu.Structure())
}

// mark is what a step did, as far as it must not depend on other clients.
type mark struct {
	step, out string
	bytes     []byte
	sum       uint64
}

// lane is a client with its document.
type lane struct {
	w       *hist
	r       Result
	marks   []mark
	events  []event
	cur     *Step
	foreign string
	steps   []Step
	json    []byte
	yaml    []byte
	out     outcome
}

// bind resolves the shared values a step uses.
func (sh *shared) bind(st Step) (Step, bool) {
	if st.N == 0 {
		return st, true
	}

	if st.N > len(sh.Specs) {
		return st, false
	}

	s := sh.Specs[st.N-1]

	switch st.Op {
	case "walkreq", "walkresp":
		l := s.Req
		if st.Op == "walkresp" {
			l = s.Resp
		}

		if len(l) == 0 {
			return st, false
		}

		st.CU = &l[st.Slot%len(l)]
	default:
		st.Spec = s
	}

	return st, true
}

func (l *lane) run(ds docSpec) {
	p := &Plan{Ver: ds.Ver, Cfg: ds.Cfg}
	l.w = &hist{p: p, r: &l.r, d: NewDoc(ds.Ver, ds.Cfg), slots: map[int]*slot{}}
	l.w.h = &hooks{r: &l.r}

	if ds.Cfg.Hooks {
		l.w.h.install(l.w.d.Refl().JSONSchemaReflector())
		l.w.h.watch = l.watch
	}

	for i := range l.steps {
		simrt.Point()

		st := &l.steps[i]
		l.cur = st
		l.w.last = nil

		e := l.w.step(0, st)

		m := mark{step: st.Op + " " + descStep(st), out: kindOf(e.out), bytes: l.w.last}
		m.sum = fnv(1, string(m.bytes))
		l.marks = append(l.marks, m)
		l.events = append(l.events, e)
	}

	l.out = guard(func() (err error) {
		if l.json, err = l.w.d.JSON(); err != nil {
			return err
		}

		l.yaml, err = l.w.d.YAML()

		return err
	})
}

// watch checks that hooks see the operation of their own client.
func (l *lane) watch(e hookEvent) {
	if e.OC == nil || l.foreign != "" {
		return
	}

	s := l.cur.Spec
	if sl := l.w.slots[l.cur.Slot]; s == nil && sl != nil && (l.cur.Op == "add" || l.cur.Op == "fill") {
		s = sl.spec
	}

	if s == nil || l.cur.Op == "legacy" {
		return
	}

	if clean, _ := CleanPath(s.Path); e.OC.PathPattern() != s.Path && e.OC.PathPattern() != clean {
		l.foreign = fmt.Sprintf("hook %s of %s %s sees the context of %s %s", e.Kind, s.Method, s.Path, e.OC.Method(), e.OC.PathPattern())
	}
}

func kindOf(o outcome) string {
	switch {
	case o.pan != nil:
		return "panic"
	case o.err != nil:
		return "error"
	}

	return "ok"
}

func runC03(p *Plan, r *Result) {
	var specs []byte

	phase := func(only int) ([]*lane, *shared) {
		sh := &shared{}
		if err := json.Unmarshal(p.Extra, sh); err != nil {
			panic("harness: " + err.Error())
		}

		specs, _ = json.Marshal(sh.Specs)
		sh.prepare()

		var (
			ls []*lane
			fs []func()
		)

		for c := range p.Clients {
			l := &lane{}
			ls = append(ls, l)

			for _, st := range p.Clients[c] {
				if st, ok := sh.bind(st); ok {
					l.steps = append(l.steps, st)
				}
			}

			if c >= len(sh.Docs) || only >= 0 && only != c {
				continue
			}

			ds := sh.Docs[c]
			fs = append(fs, func() { l.run(ds) })
		}

		if len(fs) > 0 {
			simrt.Run(fs...)
		}

		return ls, sh
	}

	races := simrt.Races()
	ls, sh := phase(-1)
	raced := simrt.Races() > races

	for c, l := range ls {
		if l.w == nil {
			continue
		}

		for _, m := range l.marks {
			r.observe(m.step + m.out)
		}

		r.observe(string(l.json))
		r.observe(string(l.yaml))
		r.state(l.json)

		what := fmt.Sprintf("client %d", c)

		for i, m := range l.marks {
			r.logf("%d: %s -> %v", c, m.step, l.events[i].out)
		}

		switch {
		case l.r.Violation != "":
			r.violate(l.r.Class, "%s: %s", what, l.r.Violation)
		case l.foreign != "":
			r.violate("context", "%s: %s", what, l.foreign)
		case !l.out.ok():
			r.violate("serialise", "document of %s does not serialise: %v", what, l.out)
		}
	}

	if raced {
		r.violate("race", "data race between clients that build separate documents")
	}

	if t := sh.touched(string(specs)); t != "" {
		r.violate("shared", "the library modified %s that clients share", t)
	}

	for c := range p.Clients {
		if r.Violation != "" {
			return
		}

		l := ls[c]
		if l.w == nil {
			continue
		}

		alone, sh := phase(c)
		a := alone[c]

		if t := sh.touched(string(specs)); t != "" {
			r.violate("shared", "the library modified %s of the caller", t)

			return
		}

		what := fmt.Sprintf("client %d", c)

		for i, m := range l.marks {
			n := a.marks[i]

			switch {
			case fnv(1, string(m.bytes)) != m.sum || fnv(1, string(n.bytes)) != n.sum:
				r.violate("overwritten", "%s: what %s returned was overwritten later", what, m.step)
			case m.out != n.out:
				r.violate("outcome", "%s: %s gives %s, alone %s", what, m.step, m.out, n.out)
			case m.sum != n.sum:
				r.violate("output", "%s: %s: %s", what, m.step, around(m.bytes, n.bytes))
			}
		}

		if !r.same("document", "document of "+what+" differs from the one it makes alone", l.json, l.yaml, a.json, a.yaml) {
			return
		}

		l.model(sh.Docs[c], what, r)
	}

	r.Nontriv = r.Violation == ""
}

// model compares the document of a client with the model.
func (l *lane) model(ds docSpec, what string, r *Result) {
	x := newExpect(ds.Ver, ds.Cfg)

	for _, e := range l.events {
		if e.reg != nil && e.reg.Bad != "" && !x.has(e.reg, e.webhook) && (!e.created || e.reg.Bad == badMethod) {
			if e.out.ok() {
				r.violate("accepted", "%s: %s is accepted although %s", what, e.key(), e.reg.Bad)
			}

			return // Components may be left of it.
		}

		var rr Result

		if !x.follow(&rr, e) {
			r.violate(rr.Class, "%s: %s", what, rr.Violation)

			return
		}
	}

	if d := diff(tidy(parse(l.json).(obj)), toJSON(x.doc())); d != "" {
		r.violate("content", "document of %s: %s", what, d)
	}
}
