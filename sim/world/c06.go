package world

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	"github.com/swaggest/openapi-go/openapi31"
)

// C06: documents are persisted, clients crash and resume.

// strict parses JSON, refusing repeated members and trailing data.
func strict(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))

	v, err := strictValue(d)
	if err != nil {
		return nil, err
	}

	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("data after the end")
	}

	return v, nil
}

func strictValue(d *json.Decoder) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}

	switch t {
	case json.Delim('{'):
		o := obj{}

		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}

			v, err := strictValue(d)
			if err != nil {
				return nil, err
			}

			if _, ok := o[k.(string)]; ok {
				return nil, fmt.Errorf("member %q is repeated", k)
			}

			o[k.(string)] = v
		}

		_, err := d.Token()

		return o, err
	case json.Delim('['):
		l := []interface{}{}

		for d.More() {
			v, err := strictValue(d)
			if err != nil {
				return nil, err
			}

			l = append(l, v)
		}

		_, err := d.Token()

		return l, err
	}

	return t, nil
}

func genC06(g *genCtx, p *Plan, _ int) {
	if g.P(40) {
		p.Kind = "content"
		p.Extra, _ = json.Marshal(g.entDoc(p.Ver))

		return
	}

	p.Kind = "resume"
	g.safe = true
	p.Cfg = g.genCfg()

	nc := g.In(1, 3)
	total := 0

	for c := 0; c < nc; c++ {
		var l []Step

		for i := g.In(1, 4); i > 0; i-- {
			l = append(l, g.regSteps(p.Ver, i)...)

			if g.P(30) {
				if n := g.noise(); n.Op != "walkreq" && n.Op != "walkresp" { // They may leave components.
					l = append(l, n)
				}
			}

			if g.P(40) {
				l = append(l, g.save())
			}

			if g.P(30) {
				l = append(l, g.crash())
			}
		}

		p.Clients = append(p.Clients, l)
		total += len(l)
	}

	p.Sched = g.sched(g.N(3*nc+1), total, nc)

	// The schedule decides what has happened when the last crash comes.
	c := g.N(nc)
	p.Clients[c] = append(p.Clients[c], g.save(), g.crash())
}

func (g *genCtx) save() Step {
	s := Step{Op: "save", Arg: g.Of("json", "yaml")}

	switch g.N(10) {
	case 0, 1:
		s.Arg, s.Name = "json", "torn"
		s.N = g.N(1000)
	case 2:
		s.Name = "lost"
	}

	return s
}

// crash loses everything but the disk. Registering again may be interrupted by another crash.
func (g *genCtx) crash() Step {
	s := Step{Op: "crash"}

	if g.P(30) {
		s.N = g.In(1, 4)

		if g.P(50) {
			s.Name = g.Of("json", "yaml")
		}
	}

	s.Arg = g.Of("", "", "reverse")

	return s
}

func runC06(p *Plan, r *Result) {
	switch p.Kind {
	case "content":
		runContent(p, r)
	case "resume":
		runResume(p, r)
	}
}

// saved is a generation on the disk.
type saved struct {
	b    []byte
	yaml bool
	torn bool
	n    int             // log entries that it covers
	keys map[string]bool // registrations that it covers
}

type resume struct {
	*hist
	log   []event
	keys  map[string]bool // accepted in the life of the process
	gens  []saved
	again int
}

func runResume(p *Plan, r *Result) {
	w := &resume{hist: newHist(p, r), keys: map[string]bool{}}
	w.extra = func(st *Step) bool {
		switch st.Op {
		case "save":
			w.save(st.Arg == "yaml", st.Name, st.N)
		case "crash":
			w.crash(st)
		default:
			return false
		}

		return true
	}

	w.run(func(e event) bool {
		switch {
		case e.step.Op == "info" || e.step.Op == "sec":
			w.log = append(w.log, e)
		case e.reg == nil || e.created:
		case w.keys[e.key()] && e.out.ok():
			r.violate("accepted", "%s %s is accepted although it exists", e.step.Op, e.key())
		case !w.keys[e.key()] && !e.out.ok():
			r.violate("rejected", "%s %s is rejected: %v", e.step.Op, e.key(), e.out)
		case e.out.ok():
			w.keys[e.key()] = true
			w.log = append(w.log, e)
		}

		return r.Violation == ""
	})

	if r.Violation != "" {
		return
	}

	sh := NewDoc(p.Ver, p.Cfg)
	prepared := false

	for _, c := range p.Clients {
		for i := range c {
			prepared = prepared || c[i].Op == "new"
		}
	}

	if prepared && p.Ver == "3.1" { // Preparing a registration makes the list of paths, if only an empty one.
		for _, d := range []Doc{w.d, sh} {
			d.Spec().(*openapi31.Spec).PathsEns()
		}
	}

	for _, e := range w.log {
		if o := w.replay(sh, e); !o.ok() {
			r.violate("rejected", "%s %s is rejected in the uninterrupted history: %v", e.step.Op, descStep(e.step), o)

			return
		}
	}

	aj, ay, ok := r.bytesOf(w.d, "at the end")
	if !ok {
		return
	}

	bj, by, ok := r.bytesOf(sh, "of the uninterrupted history")
	if !ok {
		return
	}

	r.same("resumed", "document of a resumed history differs from the uninterrupted one", aj, ay, bj, by)
	r.Nontriv = w.again > 0
}

// save writes the document to disk, which may tear or lose it.
func (w *resume) save(yaml bool, fault string, pm int) {
	j, y, ok := w.r.bytesOf(w.d, "for saving")
	if !ok {
		return
	}

	s := saved{b: j, yaml: yaml, n: len(w.log), keys: map[string]bool{}}
	if yaml {
		s.b = y
	}

	for k := range w.keys {
		s.keys[k] = true
	}

	switch fault {
	case "lost":
		w.r.fault("lost write")

		return
	case "torn":
		w.r.fault("torn write")

		s.torn = true
		s.b = s.b[:len(s.b)*pm/1000]
	}

	w.gens = append(w.gens, s)
}

// crash loses the process, then another one resumes.
func (w *resume) crash(st *Step) {
	w.r.fault("crash")

	if !w.restart() {
		return
	}

	if st.N > 0 {
		w.register(st.N, st.Arg)

		if st.Name != "" {
			w.save(st.Name == "yaml", "", 0)
		}

		w.r.fault("crash while resuming")

		if w.r.Violation != "" || !w.restart() {
			return
		}
	}

	w.register(len(w.log), st.Arg)
}

// restart loads the last document of the disk that can be loaded.
func (w *resume) restart() bool {
	w.slots = map[int]*slot{}
	w.keys = map[string]bool{}

	for i := len(w.gens) - 1; i >= 0; i-- {
		s := w.gens[i]
		d := NewDoc(w.p.Ver, w.p.Cfg)

		o := guard(func() error {
			if s.yaml {
				return d.LoadYAML(s.b)
			}

			return d.LoadJSON(s.b)
		})

		if s.torn {
			if w.r.crash("loading a torn document", o) {
				return false
			}

			if o.ok() {
				w.r.violate("torn", "a torn document of %d bytes is loaded", len(s.b))

				return false
			}

			continue
		}

		if !o.ok() {
			if !w.r.crash("loading a persisted document", o) {
				w.r.violate("refused", "a persisted document is not loaded: %v", o)
			}

			return false
		}

		j, y, ok := w.r.bytesOf(d, "after restart")
		if !ok {
			return false
		}

		b := j
		if s.yaml {
			b = y
		}

		if !bytes.Equal(b, s.b) {
			w.r.violate("bytes", "restored document serialises differently: %s", around(b, s.b))

			return false
		}

		w.d = d
		for k := range s.keys {
			w.keys[k] = true
		}

		w.r.fault("restart from disk")

		return true
	}

	w.r.fault("restart from nothing")

	w.d = NewDoc(w.p.Ver, w.p.Cfg)

	return true
}

// register does the first n things of the log again.
func (w *resume) register(n int, order string) {
	for _, e := range w.log {
		if e.reg == nil { // Metadata is replaced, in the order of the history.
			w.replay(w.d, e)
		}
	}

	for i := 0; i < n && i < len(w.log); i++ {
		k := i
		if order == "reverse" {
			k = len(w.log) - 1 - i
		}

		e := w.log[k]
		if e.reg == nil {
			continue
		}

		w.again++

		o := w.replay(w.d, e)
		if w.r.crash("registering again", o) {
			return
		}

		key := e.key()

		switch {
		case w.keys[key] && o.ok():
			w.r.violate("accepted", "%s is accepted although it was persisted", key)

			return
		case !w.keys[key] && !o.ok():
			w.r.violate("rejected", "%s is rejected although it was not persisted: %v", key, o)

			return
		}

		w.keys[key] = true
	}
}

// load reads a document into a fresh one.
func (r *Result) load(ver string, b []byte, yaml bool) (Doc, outcome) {
	d := NewDoc(ver, Cfg{})

	return d, guard(func() error {
		if yaml {
			return d.LoadYAML(b)
		}

		return d.LoadJSON(b)
	})
}

var plainKey = regexp.MustCompile(`^([1-9][0-9]{0,3}|[a-zA-Z][a-zA-Z]{3,20})$`)

// byHand writes YAML as people do: block style, with keys and texts in quotes only where it is necessary.
func byHand(v interface{}, indent int) []byte {
	pad := strings.Repeat("  ", indent)

	switch v := v.(type) {
	case obj:
		if len(v) == 0 {
			return []byte("{}\n")
		}

		var b []byte

		for _, k := range sortedKeys(v) {
			q := strconv.QuoteToASCII(k)
			if low := strings.ToLower(k); plainKey.MatchString(k) && low != "true" && low != "false" && low != "null" {
				q = k
			}

			b = append(b, pad+q+":"...)

			switch x := v[k].(type) {
			case obj:
				if len(x) > 0 {
					b = append(b, '\n')
				} else {
					b = append(b, ' ')
				}
			case []interface{}:
				if len(x) > 0 {
					b = append(b, '\n')
				} else {
					b = append(b, ' ')
				}
			default:
				b = append(b, ' ')
			}

			b = append(b, byHand(v[k], indent+1)...)
		}

		return b
	case []interface{}:
		if len(v) == 0 {
			return []byte("[]\n")
		}

		var b []byte

		for _, x := range v {
			item := byHand(x, indent+1)

			if o, ok := x.(obj); ok && len(o) > 0 {
				item = item[2*(indent+1):] // The first key follows the dash.
			} else if l, ok := x.([]interface{}); ok && len(l) > 0 {
				item = append([]byte("\n"), item...)
			}

			b = append(b, pad+"- "...)
			b = append(b, item...)
		}

		return b
	}

	if s, ok := v.(string); ok {
		return []byte(strconv.QuoteToASCII(s) + "\n")
	}

	return []byte(canon(v) + "\n")
}

func runContent(p *Plan, r *Result) {
	want := parse(p.Extra)

	d, o := r.load(p.Ver, p.Extra, false)
	if !o.ok() {
		if !r.crash("loading", o) {
			r.violate("refused", "a document that conforms to the specification is not loaded: %v", o)
		}

		return
	}

	j1, y1, ok := r.bytesOf(d, "after loading")
	if !ok {
		return
	}

	check := func(b []byte, what string) bool {
		v, err := strict(b)
		if err != nil {
			r.violate("serialise", "%s is not valid JSON: %v", what, err)

			return false
		}

		if df := diff(v, want); df != "" {
			r.violate("content", "%s differs: %s", what, df)

			return false
		}

		return true
	}

	if !check(j1, "JSON of the loaded document") {
		return
	}

	for _, c := range []struct {
		b    []byte
		what string
	}{{j1, "JSON"}, {y1, "YAML"}, {byHand(want, 0), "YAML written by hand"}} {
		what := c.what

		d, o := r.load(p.Ver, c.b, what != "JSON")
		if !o.ok() {
			if !r.crash("loading "+what, o) {
				r.violate("refused", "%s of a valid document is not loaded: %v", what, o)
			}

			return
		}

		r.fault("restart from " + what)

		j2, y2, ok := r.bytesOf(d, "restored from "+what)
		if !ok || !check(j2, "JSON of the document restored from "+what) {
			return
		}

		if !r.same("bytes", "document restored from "+what+" serialises differently", j1, y1, j2, y2) {
			return
		}
	}

	r.Nontriv = true
}
