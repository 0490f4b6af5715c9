package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verifsim/spec"
)

// minimised is a violation with a plan that is as small as could be found.
type minimised struct {
	plan   json.RawMessage
	orig   json.RawMessage
	res    Result
	tried  int
	stable bool
	prop   string

	prelude *prelude
}

// keep are members that are not removed from plans.
var keep = map[string]bool{
	"prop": true, "ver": true, "clients": true, "op": true, "k": true, "n": true, "method": true, "path": true, "t": true,
	"spec": true, "kind": true, "mapseed": true, "name": true, "cu": true, "cfg": true, "at": true, "pm": true, "g": true, "bad": true,
	"slot": true, "raw": true, "to": true,
}

type tree = interface{}

func decode(b []byte) tree {
	var v tree

	json.Unmarshal(b, &v)

	return v
}

func clone(v tree) tree {
	switch v := v.(type) {
	case map[string]interface{}:
		o := make(map[string]interface{}, len(v))
		for k, x := range v {
			o[k] = clone(x)
		}

		return o
	case []interface{}:
		l := make([]interface{}, len(v))
		for i, x := range v {
			l[i] = clone(x)
		}

		return l
	}

	return v
}

// cut is a part to leave out: members or a range of elements.
type cut struct {
	path []interface{}
	key  string
	i, j int
	list bool
	size int
}

func size(v tree) int {
	switch v := v.(type) {
	case map[string]interface{}:
		n := 1
		for _, x := range v {
			n += size(x)
		}

		return n
	case []interface{}:
		n := 1
		for _, x := range v {
			n += size(x)
		}

		return n
	}

	return 1
}

func cuts(v tree, path []interface{}, skip func(key string) bool, out *[]cut) {
	sub := func(k interface{}) []interface{} { return append(append([]interface{}{}, path...), k) }

	switch v := v.(type) {
	case map[string]interface{}:
		for k, x := range v {
			if skip(k) {
				continue
			}

			if !keep[k] {
				*out = append(*out, cut{path: path, key: k, size: size(x)})
			}

			cuts(x, sub(k), skip, out)
		}
	case []interface{}:
		for n := len(v); n >= 1; n /= 2 {
			for i := 0; i+n <= len(v); i += n {
				*out = append(*out, cut{path: path, list: true, i: i, j: i + n, size: size(v[i : i+n])})
			}
		}

		for i, x := range v {
			cuts(x, sub(i), skip, out)
		}
	}
}

// apply returns a copy without the part.
func (c cut) apply(v tree) (res tree) {
	defer func() {
		if recover() != nil {
			res = nil
		}
	}()

	v = clone(v)

	at := func(x tree, k interface{}) tree {
		if s, ok := k.(string); ok {
			return x.(map[string]interface{})[s]
		}

		return x.([]interface{})[k.(int)]
	}

	// Documents have no containers that were emptied: these are not part of what the generator of documents makes.
	doc := len(c.path) > 0 && c.path[0] == "extra"

	x := v
	var parent tree
	var last interface{}

	for _, k := range c.path {
		parent, last = x, k
		x = at(x, k)
	}

	if !c.list {
		m := x.(map[string]interface{})
		if _, ok := m[c.key]; !ok {
			return nil
		}

		delete(m, c.key)

		if doc && len(m) == 0 {
			return nil
		}

		return v
	}

	l := x.([]interface{})
	if c.j > len(l) {
		return nil
	}

	l = append(append([]interface{}{}, l[:c.i]...), l[c.j:]...)

	if doc && len(l) == 0 {
		return nil
	}

	if s, ok := last.(string); ok {
		parent.(map[string]interface{})[s] = l
	} else {
		parent.([]interface{})[last.(int)] = l
	}

	return v
}

// member is the member of a document that differs, so that minimisation does not slip to another one.
func member(r Result) string {
	if r.Class != "content" || r.Violation == "" {
		return ""
	}

	s := strings.SplitN(r.Violation, "\n", 2)[0]
	i := strings.Index(s, ": /")

	if i < 0 {
		return ""
	}

	s = s[i+2:]

	if j := strings.Index(s, ": "); j > 0 {
		kind := strings.Trim(strings.SplitN(s[j+2:], " ", 2)[0], ",")

		return s[strings.LastIndex(s[:j], "/")+1:j] + " " + kind
	}

	return s
}

// prelude are runs that the same process has to execute before: their traces in the process matter.
type prelude struct {
	Prop string `json:"property"`
	Seed uint64 `json:"seed"`
	From int    `json:"from"`
	To   int    `json:"to"` // not included
}

func (p *prelude) play(w *worker) {
	if p == nil {
		return
	}

	for i := p.From; i < p.To; i++ {
		w.ask(request{Prop: p.Prop, Seed: p.Seed, Idx: i})
	}
}

// alone tells if a plan fails in a process of its own, as it did before.
func alone(bin string, p spec.Prop, pre *prelude, plan json.RawMessage, want Result) bool {
	w := newWorker(bin, p)
	defer w.close()

	pre.play(w)

	a := w.ask(request{Plan: plan})

	return a.Result.Violation == want.Violation && (a.Result.Hash == want.Hash || want.Hash == 0)
}

func minimise(bin string, p spec.Prop, f found, seed uint64, limit time.Duration) minimised {
	m := minimised{plan: f.plan, orig: f.plan, res: f.res}
	end := time.Now().Add(limit)

	if f.res.Class == "fatal" || f.res.Class == "hang" {
		limit = 0 // Each attempt would cost a process and much time.
		end = time.Now()
	}

	if limit > 0 && !alone(bin, p, nil, f.plan, f.res) {
		var x struct {
			Prop string `json:"prop"`
		}

		json.Unmarshal(f.plan, &x)

		// Runs before left something in the process.
		pre := &prelude{Prop: x.Prop, Seed: seed, From: f.from, To: f.idx}

		if alone(bin, p, pre, f.plan, f.res) {
			for pre.To-pre.From > 1 { // The later runs may do.
				n := *pre
				n.From = (pre.From + pre.To + 1) / 2

				if !alone(bin, p, &n, f.plan, f.res) {
					break
				}

				*pre = n
			}

			m.stable, m.prelude = true, pre
		}

		return m
	}

	const par = 8

	ws := make([]*worker, par)
	for i := range ws {
		ws[i] = newWorker(bin, p)
	}

	try := func(i int, v tree) (json.RawMessage, Result, bool) {
		b, _ := json.Marshal(v)

		a := ws[i].ask(request{Plan: b})
		if p.Race && a.fatal == "" { // Nothing may be left of attempts before.
			ws[i].close()
			ws[i] = newWorker(bin, p)
		}

		if a.fatal != "" {
			ws[i].close()
			ws[i] = newWorker(bin, p)

			return b, Result{}, false
		}

		return b, a.Result, a.Result.Harness == "" && a.Result.Violation != "" && a.Result.Class == f.res.Class &&
			member(a.Result) == member(f.res)
	}

	skip := func(k string) bool { return k == "extra" && f.res.Class == "refused" }
	cur := decode(f.plan)

	for changed := true; changed && time.Now().Before(end); {
		changed = false

		var l []cut

		cuts(cur, nil, skip, &l)
		sort.SliceStable(l, func(i, j int) bool {
			if l[i].size != l[j].size {
				return l[i].size > l[j].size
			}

			return fmt.Sprint(l[i]) < fmt.Sprint(l[j])
		})

		for i := 0; i < len(l) && time.Now().Before(end); i += par {
			type res struct {
				v  tree
				b  json.RawMessage
				r  Result
				ok bool
			}

			rs := make([]res, par)

			var wg sync.WaitGroup

			for k := 0; k < par && i+k < len(l); k++ {
				k := k
				v := l[i+k].apply(cur)

				if v == nil {
					continue
				}

				m.tried++

				wg.Add(1)

				go func() {
					defer wg.Done()

					b, r, ok := try(k, v)
					rs[k] = res{v, b, r, ok}
				}()
			}

			wg.Wait()

			for k := range rs {
				if rs[k].ok {
					cur, m.plan, m.res = rs[k].v, rs[k].b, rs[k].r
					changed = true

					break
				}
			}

			if changed && rs[0].v != nil && l[i].size > 3 {
				// Paths of other cuts may be off now.
				break
			}
		}
	}

	for _, w := range ws {
		w.close()
	}

	// It must fail in the same way in two more processes.
	m.stable = true

	for i := 0; i < 2 && limit > 0; i++ {
		if !alone(bin, p, nil, m.plan, m.res) {
			m.stable = false
		}
	}

	if !m.stable {
		m.plan, m.res = m.orig, f.res
	}

	return m
}

type replayFile struct {
	Property  string          `json:"property"`
	Seed      uint64          `json:"seed"`
	Run       int             `json:"run"`
	Violation string          `json:"violation"`
	Class     string          `json:"class"`
	Hash      uint64          `json:"hash"`
	Prelude   *prelude        `json:"prelude,omitempty"`
	Replay    string          `json:"replay"`
	Plan      json.RawMessage `json:"plan"`
	Original  json.RawMessage `json:"original_plan"`
}

func (m minimised) write(id string, seed uint64, idx int) string {
	h := sha256.Sum256(m.plan)
	path := filepath.Join(root, "evidence", fmt.Sprintf("replay-%s-%d-%x.json", id, seed, h[:4]))

	b, _ := json.MarshalIndent(replayFile{
		Property: id, Seed: seed, Run: idx, Violation: m.res.Violation, Class: m.res.Class, Hash: m.res.Hash,
		Replay: "./replay " + path, Plan: m.plan, Original: m.orig, Prelude: m.prelude,
	}, "", " ")

	os.MkdirAll(filepath.Dir(path), 0o755)

	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}

	return path
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}

	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%v", err)
	}

	p, ok := spec.Props[f.Property]
	if !ok {
		fatal("unknown property %s", f.Property)
	}

	w := newWorker(makeWorker(p), p)
	f.Prelude.play(w)
	a := w.ask(request{Plan: f.Plan})

	if a.fatal != "" {
		note("%s", a.fatal)
		note("VIOLATION property=%s replay=%s", f.Property, path)

		return 1
	}

	r := a.Result

	if r.Harness != "" {
		fatal("the harness failed: %s", r.Harness)
	}

	if r.Violation == "" {
		note("the run does not violate %s (hash %d)", f.Property, r.Hash)

		return 0
	}

	same := "differs from"
	if r.Hash == f.Hash && r.Violation == f.Violation {
		same = "is identical to"
	}

	note("[%s] %s", r.Class, r.Violation)
	note("this execution (hash %d) %s the recorded one", r.Hash, same)
	note("VIOLATION property=%s replay=%s", f.Property, path)

	return 1
}
