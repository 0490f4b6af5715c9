package world

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verifsim/simrt"
)

// C07: the storage damages a persisted document.

type damage struct {
	Kind string  `json:"kind"`
	Pm   int     `json:"pm"`             // where, per mille (and more digits)
	Pm2  int     `json:"pm2,omitempty"`  // other place
	N    int     `json:"n,omitempty"`    // what
	Val  rawJSON `json:"val,omitempty"`  // replacement
	Key  string  `json:"name,omitempty"` // replacement key
}

type rawJSON = json.RawMessage

type c07Extra struct {
	Doc  rawJSON  `json:"doc,omitempty"` // persisted document, instead of a registered one
	YAML bool     `json:"yaml,omitempty"`
	Dam  []damage `json:"dam"`
}

func genC07(g *genCtx, p *Plan, _ int) {
	var x c07Extra

	if g.P(60) {
		p.Kind = "grammar"
		x.Doc = rawJSON(canon(g.entDoc(p.Ver)))
	} else {
		p.Kind = "registered"
		g.safe = true
		p.Cfg = g.genCfg()

		var l []Step
		for i := g.In(1, 3); i > 0; i-- {
			l = append(l, g.regSteps(p.Ver, i)...)
		}

		if g.P(40) {
			l = append(l, Step{Op: "sec", Name: g.Of("basic", "key", "token"), Arg: g.Of("", "Described.")})
		}

		p.Clients = [][]Step{l}
	}

	x.YAML = g.P(40)

	for i := g.In(2, 12); i > 0; i-- {
		x.Dam = append(x.Dam, g.damage())
	}

	p.Extra, _ = json.Marshal(x)
}

func (g *genCtx) damage() damage {
	d := damage{Pm: g.N(1 << 20), Pm2: g.N(1 << 20), N: g.N(1 << 10)}

	switch pick := g.N(21); {
	case pick == 20:
		d.Kind = "foreign value"
		d.Key = g.Of(foreign...)
	case pick < 3:
		d.Kind = "truncate"
	case pick < 6:
		d.Kind = "bitflip"
	case pick < 7:
		d.Kind = "zero block"
	case pick < 8:
		d.Kind = "repeated block"
	case pick < 9:
		d.Kind = "lost block"
	case pick < 10:
		d.Kind = "stale tail"
	case pick < 12:
		d.Kind = "remove member"
	case pick < 17:
		d.Kind = "replace value"

		e := &ent{genCtx: g, ver: "3.0", left: 10, rich: 30}
		vals := []interface{}{
			nil, nil, true, 0.0, -1.5, "text", "", []interface{}{}, []interface{}{nil}, []interface{}{"a", 1.0}, obj{}, obj{"$ref": "#/x"},
			obj{"$ref": nil}, obj{"a": nil}, e.any(3, true), obj{"schema": true}, obj{"type": "http"}, obj{"in": "query", "name": "x"},
			obj{"200": nil}, obj{"default": obj{}}, obj{"type": []interface{}{"null"}}, 1e300, "0",
		}
		d.Val = rawJSON(canon(vals[g.N(len(vals))]))
	case pick < 18:
		d.Kind = "rename member"
		d.Key = g.Of("", "x-y", "$ref", "type", "/p/{id}", "200", "default", "schema", "content", "get", "in", "X", "\u2028", "foo bar")
	case pick < 19:
		d.Kind = "swap values"
	default:
		d.Kind = "repeated member"
	}

	return d
}

// foreign are values that other YAML writers may put in a document.
var foreign = []string{
	".inf", "-.inf", ".nan", "0x1F", "0b101", "0o17", "017", "1_000", "2001-01-01", "2001-01-01T00:00:00Z", "!!binary aGVsbG8=", "!!binary /w==",
	"!!binary '*'", "~", "yes", "off", "*nothing", "&here [*here]", "&here {a: *here}", "!foo bar", "!!str 200", "!!int '5'", "!!float 3", "!!set {a}",
	"!!omap [a: 1, a: 2]", "{1: 2, true: 3, ~: 4, 1.5: x}", "{[a]: b}", "{{a: b}: c}", "{.inf: x}", "{.nan: x, .nan: y}", "1:30", "1e400", "-0",
	"99999999999999999999", "18446744073709551615", "[a, {b: c}]", "{a, b}", "'it''s'", "\"\\x00\\uD800\\e\"", "{'200': a, 200: b}", "{1: a, 1.0: b, '1': c}", "{<<: {a: 1}, a: 2}",
	"{<<: x}", "!!null ''", "!!bool 'yes'", "!!timestamp 2001-01-01", "- a", "? x", "|", "%TAG",
}

// node is a place in a JSON value.
type node struct {
	parent interface{}
	key    string
	i      int
}

func nodes(v interface{}, out *[]node) {
	switch v := v.(type) {
	case obj:
		for _, k := range sortedKeys(v) {
			*out = append(*out, node{parent: v, key: k})
			nodes(v[k], out)
		}
	case []interface{}:
		for i := range v {
			*out = append(*out, node{parent: v, i: i})
			nodes(v[i], out)
		}
	}
}

func (n node) get() interface{} {
	if o, ok := n.parent.(obj); ok {
		return o[n.key]
	}

	return n.parent.([]interface{})[n.i]
}

func (n node) set(v interface{}) {
	if o, ok := n.parent.(obj); ok {
		o[n.key] = v
	} else {
		n.parent.([]interface{})[n.i] = v
	}
}

func pos(pm, n int) int {
	if n <= 0 {
		return 0
	}

	return int(int64(pm) * int64(n) >> 20)
}

// apply damages a document. Structural damage is done in JSON.
func (d damage) apply(b []byte) (res []byte, cut bool) {
	b = append([]byte{}, b...)
	at := pos(d.Pm, len(b))

	switch d.Kind {
	case "truncate":
		return b[:at], true
	case "bitflip":
		for i := 0; i <= d.N%3 && len(b) > 0; i++ {
			b[(at+i*d.Pm2)%len(b)] ^= 1 << uint((d.N+i)%8)
		}

		return b, false
	case "zero block", "repeated block", "lost block":
		n := 1 + d.N%64
		if at+n > len(b) {
			n = len(b) - at
		}

		switch d.Kind {
		case "zero block":
			for i := at; i < at+n; i++ {
				b[i] = 0
			}

			return b, false
		case "lost block":
			return append(b[:at], b[at+n:]...), false
		}

		return append(append(append([]byte{}, b[:at+n]...), b[at:at+n]...), b[at+n:]...), false
	case "stale tail":
		// The end of another version of the file follows.
		o := pos(d.Pm2, len(b))

		return append(append([]byte{}, b[:at]...), b[o:]...), false
	}

	var v interface{}
	if json.Unmarshal(b, &v) != nil {
		return b, false
	}

	var l []node

	nodes(v, &l)

	if len(l) == 0 {
		return b, false
	}

	n := l[pos(d.Pm, len(l))]

	switch d.Kind {
	case "remove member":
		if o, ok := n.parent.(obj); ok {
			delete(o, n.key)
		} else {
			n.set(nil)
		}
	case "replace value":
		var r interface{}

		_ = json.Unmarshal(d.Val, &r)
		n.set(r)
	case "rename member":
		if o, ok := n.parent.(obj); ok {
			x := o[n.key]
			delete(o, n.key)
			o[d.Key] = x
		}
	case "foreign value":
		mark := fmt.Sprintf("foreign-%d", d.N)
		n.set(mark)

		if s := canonLoop(v); s != nil {
			return bytes.Replace(s, []byte(`"`+mark+`"`), []byte(d.Key), 1), false
		}

		return b, false
	case "swap values":
		m := l[pos(d.Pm2, len(l))]
		x, y := clone(n.get()), clone(m.get())
		n.set(y)
		m.set(x)
	case "repeated member":
		if o, ok := n.parent.(obj); ok {
			mark := fmt.Sprintf("repeat-%d", d.N)
			o[mark] = l[pos(d.Pm2, len(l))].get()
			s := canonLoop(v)

			if s == nil {
				return b, false
			}

			k, _ := json.Marshal(n.key)

			return bytes.Replace(s, []byte(`"`+mark+`"`), k, 1), false
		}
	}

	if s := canonLoop(v); s != nil {
		return s, false
	}

	return b, false
}

// canonLoop serialises what may contain itself.
func canonLoop(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		return nil
	}

	return b
}

func clone(v interface{}) interface{} {
	switch v := v.(type) {
	case obj:
		o := obj{}
		for k, x := range v {
			o[k] = clone(x)
		}

		return o
	case []interface{}:
		l := make([]interface{}, len(v))
		for i, x := range v {
			l[i] = clone(x)
		}

		return l
	}

	return v
}

// emptySpec tells whether a document has nothing in it.
func emptySpec(d Doc) bool {
	switch s := d.Spec().(type) {
	case *openapi3.Spec:
		return canon(deep(*s)) == canon(deep(openapi3.Spec{}))
	case *openapi31.Spec:
		return canon(deep(*s)) == canon(deep(openapi31.Spec{}))
	}

	panic("unknown spec")
}

func deep(v interface{}) string { return fmt.Sprintf("%#v", v) }

func runC07(p *Plan, r *Result) {
	var x c07Extra
	if err := json.Unmarshal(p.Extra, &x); err != nil {
		panic("harness: " + err.Error())
	}

	var d Doc

	if p.Kind == "grammar" {
		var o outcome

		d, o = r.load(p.Ver, x.Doc, false)
		if !o.ok() {
			if !r.crash("loading", o) {
				r.violate("refused", "a document that conforms to the specification is not loaded: %v", o)
			}

			return
		}
	} else {
		w := newHist(p, r)
		w.run(func(event) bool { return true })

		d = w.d
	}

	j, y, ok := r.bytesOf(d, "before the damage")
	if !ok {
		return
	}

	for i, dm := range x.Dam {
		b := j
		bin := true

		switch dm.Kind {
		case "remove member", "replace value", "rename member", "swap values", "repeated member", "foreign value":
			bin = false
		default:
			if x.YAML {
				b = y
			}
		}

		bad, cut := dm.apply(b)
		if cut && len(bad) == len(b) || !cut && bytes.Equal(bad, b) {
			continue
		}

		// Damaged JSON is YAML, too.
		yaml := x.YAML || dm.Kind == "foreign value"

		format := "JSON"
		if yaml {
			format = "YAML"
		}

		if cut && len(bad) > 0 && !bin {
			panic("harness: cut")
		}

		r.fault(dm.Kind + " in " + format)

		what := fmt.Sprintf("%s with damage %d (%s)", format, i, dm.Kind)

		c, o := r.load(p.Ver, bad, yaml)
		r.observe(o.String())

		if r.crash("loading "+what, o) {
			r.logf("%s", bad)

			return
		}

		if cut && !yaml && o.ok() {
			r.violate("truncated", "JSON of %d bytes, cut to %d bytes, is loaded", len(b), len(bad))

			return
		}

		if !o.ok() {
			r.probe("damaged " + format + " refused")

			if !emptySpec(c) {
				r.violate("partial", "%s is refused (%v), but parts of it are in the document: %s", what, o, clip(deep(c.Spec())))

				return
			}

			continue
		}

		r.probe("damaged " + format + " accepted")

		if !bin && dm.Kind != "repeated member" && bytes.Contains(bad, []byte(`"openapi":"3.`)) && emptySpec(c) {
			r.violate("nothing", "%s is accepted, but nothing is loaded", what)

			return
		}

		if !r.consistent(p.Ver, c, what) {
			r.logf("%s", bad)

			return
		}
	}

	r.Nontriv = len(r.Faults) > 0
	_ = simrt.Steps
}

// consistent checks that a loaded document can be persisted and loaded again.
func (r *Result) consistent(ver string, c Doc, what string) bool {
	j1, y1, ok := r.bytesOf(c, "loaded from "+what)
	if !ok {
		return false
	}

	want, err := strict(j1)
	if err != nil {
		r.violate("serialise", "document loaded from %s serialises to invalid JSON: %v", what, err)

		return false
	}

	for _, again := range []struct {
		b    []byte
		yaml bool
	}{{j1, false}, {y1, true}} {
		f := "JSON"
		if again.yaml {
			f = "YAML"
		}

		c2, o := r.load(ver, again.b, again.yaml)
		if !o.ok() {
			if !r.crash("loading again", o) {
				r.violate("refused", "%s of a document that was loaded from %s is not loaded: %v", f, what, o)
			}

			return false
		}

		j2, _, ok := r.bytesOf(c2, "loaded again")
		if !ok {
			return false
		}

		have, err := strict(j2)
		if err != nil {
			r.violate("serialise", "document loaded again serialises to invalid JSON: %v", err)

			return false
		}

		if df := diff(have, want); df != "" {
			r.violate("content", "document loaded from %s changes when it is persisted as %s and loaded: %s", what, f, df)

			return false
		}
	}

	return true
}
