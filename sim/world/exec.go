package world

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"runtime/debug"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	"verifsim/cat"
	"verifsim/simrt"
)

type prop struct {
	gen func(g *genCtx, p *Plan, idx int)
	run func(p *Plan, r *Result)
}

var props map[string]prop

func init() {
	props = map[string]prop{
		"C01": {genC01, runC01},
		"C02": {genC02, runC02},
		"C03": {genC03, runC03},
		"C04": {genC04, runC04},
		"C05": {genC05, runC05},
		"C06": {genC06, runC06},
		"C07": {genC07, runC07},
		"C08": {genC08, runC08},
		"C09": {genC09, runC09},
		"C10": {genC10, runC10},
		"C11": {genC11, runC11},
		"C12": {genC12, runC12},
		"C13": {genC13, runC13},
	}
}

// errInjected is what injected hook errors wrap.
var errInjected = errors.New("injected failure")

type injPanic struct{ n int }

type outcome struct {
	err error
	pan interface{}
	st  string
}

func (o outcome) ok() bool { return o.err == nil && o.pan == nil }

func (o outcome) String() string {
	switch {
	case o.pan != nil:
		return fmt.Sprintf("panic: %v", o.pan)
	case o.err != nil:
		return "error: " + o.err.Error()
	}

	return "ok"
}

func (o outcome) injected() bool {
	if _, ok := o.pan.(injPanic); ok {
		return true
	}

	// Failures of user code that the library does not expect.
	s, ok := o.pan.(string)

	return ok && strings.HasPrefix(s, "BUG:") && strings.Contains(s, errInjected.Error())
}

func guard(f func() error) (o outcome) {
	defer func() {
		if p := recover(); p != nil {
			o.pan = p

			if _, ok := p.(injPanic); !ok {
				o.st = string(debug.Stack())
			}
		}
	}()

	o.err = f()

	return o
}

// crash reports panics that nobody injected.
func (r *Result) crash(what string, o outcome) bool {
	if o.pan == nil || o.injected() {
		return false
	}

	if h, ok := o.pan.(simrt.Hang); ok {
		r.violate("hang", "%s does not finish: %v", what, h)

		return true
	}

	r.violate("panic", "%s panics: %v\n%s", what, o.pan, firstFrames(o.st))
	r.logf("%s", o.st)

	return true
}

// firstFrames keeps the functions of a stack, without addresses.
func firstFrames(st string) string {
	var l []string

	for _, s := range strings.Split(st, "\n") {
		if strings.HasPrefix(s, "github.com/swaggest/") {
			if i := strings.LastIndex(s, "("); i > 0 {
				s = s[:i]
			}

			l = append(l, "  at "+s)
		}

		if len(l) == 8 {
			break
		}
	}

	return strings.Join(l, "\n")
}

// hookEvent is one call of a user hook.
type hookEvent struct {
	Kind, Name string
	Processed  bool
	Depth      int
	OC         openapi.OperationContext
	RC         *jsonschema.ReflectContext
}

// hooks are the user hooks of a document.
type hooks struct {
	r      *Result
	n      int
	off    bool
	faults []Fault
	fired  int
	watch  func(e hookEvent)
	read   func()
	nest   func(st *Step)
	kinds  []string // kinds of calls
}

func (h *hooks) begin(fs []Fault) {
	h.n, h.fired, h.faults, h.kinds = 0, 0, fs, nil
}

func (h *hooks) end() { h.faults = nil }

func (h *hooks) call(canErr bool, e hookEvent) error {
	if h.off {
		return nil
	}

	h.n++
	h.kinds = append(h.kinds, e.Kind)

	if h.watch != nil {
		h.watch(e)
	}

	for _, f := range h.faults {
		if h.n != f.At && !(f.Stay && h.n > f.At) {
			continue
		}

		if f.Kind == "nest" {
			if h.nest != nil {
				h.r.fault("registration inside hook " + e.Kind)
				h.nest(f.Step)
			}

			continue
		}

		h.fired++

		switch {
		case f.Kind == "read":
			h.r.fault("read in hook " + e.Kind)

			if h.read != nil {
				was := h.off
				h.off = true
				h.read()
				h.off = was
			}
		case f.Kind == "err" && canErr:
			h.r.fault("error in hook " + e.Kind)

			return fmt.Errorf("hook %d: %w", h.n, errInjected)
		default:
			h.r.fault("panic in hook " + e.Kind)

			panic(injPanic{h.n})
		}
	}

	return nil
}

func ocOf(rc *jsonschema.ReflectContext) openapi.OperationContext {
	if rc == nil || rc.Context == nil {
		return nil
	}

	oc, ok := openapi.OperationCtx(rc)
	if !ok {
		return nil
	}

	return oc
}

// install puts the hooks into a reflector.
func (h *hooks) install(r *jsonschema.Reflector) {
	r.DefaultOptions = append(r.DefaultOptions,
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			return false, h.call(true, hookEvent{Kind: "InterceptSchema", Name: p.Value.Type().String(), Processed: p.Processed, OC: ocOf(p.Context), RC: p.Context})
		}),
		jsonschema.InterceptProp(func(p jsonschema.InterceptPropParams) error {
			return h.call(true, hookEvent{
				Kind: "InterceptProp", Name: p.Name, Processed: p.Processed, Depth: len(p.Path), OC: ocOf(p.Context), RC: p.Context,
			})
		}),
		jsonschema.InterceptNullability(func(p jsonschema.InterceptNullabilityParams) {
			_ = h.call(false, hookEvent{Kind: "InterceptNullability", OC: ocOf(p.Context), RC: p.Context})
		}),
	)
}

// global makes hooks of catalogue types call h.
func (h *hooks) global() {
	cat.Hook = func(kind, typ string) error {
		return h.call(kind != "ContentUnitPreparer", hookEvent{Kind: kind, Name: typ})
	}
}

// options of a content unit.
func (c CU) options(h *hooks) []openapi.ContentOption {
	if c.keep != nil {
		return c.keep.opts
	}

	l := []openapi.ContentOption{func(cu *openapi.ContentUnit) {
		if c.CT != "" {
			openapi.WithContentType(c.CT)(cu)
		}

		if c.Format != "" {
			cu.Format = c.Format
		}

		if c.Desc != "" {
			cu.Description = c.Desc
		}

		if c.Status != 0 {
			openapi.WithHTTPStatus(c.Status)(cu)
		}

		if c.Def {
			cu.IsDefault = true
		}
	}}

	for _, in := range []string{"path", "query", "header", "cookie", "formData"} {
		if m := c.Map[in]; m != nil {
			in := in

			l = append(l, func(cu *openapi.ContentUnit) { cu.SetFieldMapping(openapi.In(in), m) })
		}
	}

	// Only responses have a status.
	if h == nil && c.Status != 0 && c.Ref != "" && c.CDesc == "" && c.Mark == "" && c.Blank == "" {
		return append(l, openapi.WithReference("#/components/responses/"+c.Ref))
	}

	if c.Ref != "" || c.CDesc != "" || c.Mark != "" || c.Blank != "" || h != nil {
		l = append(l, openapi.WithCustomize(func(cor openapi.ContentOrReference) {
			if h != nil {
				_ = h.call(false, hookEvent{Kind: "Customize"})
			}

			c.customize(cor)
		}))
	}

	return l
}

func (c CU) customize(cor openapi.ContentOrReference) {
	if c.Mark != "" {
		c.mark(cor)
	}

	if c.Blank != "" {
		blank(cor, c.Blank == "all")
	}

	if c.CDesc != "" {
		switch v := cor.(type) {
		case *openapi3.RequestBodyOrRef:
			if v.RequestBody != nil {
				v.RequestBody.WithDescription(c.CDesc)
			}
		case *openapi3.ResponseOrRef:
			if v.Response != nil {
				v.Response.WithDescription(c.CDesc)
			}
		case *openapi31.RequestBodyOrReference:
			if v.RequestBody != nil {
				v.RequestBody.WithDescription(c.CDesc)
			}
		case *openapi31.ResponseOrReference:
			if v.Response != nil {
				v.Response.WithDescription(c.CDesc)
			}
		}
	}

	if c.Ref != "" {
		switch cor.(type) {
		case *openapi3.RequestBodyOrRef, *openapi31.RequestBodyOrReference:
			cor.SetReference("#/components/requestBodies/" + c.Ref)
		default:
			cor.SetReference("#/components/responses/" + c.Ref)
		}
	}
}

const (
	blankType   = "application/x-blank"
	blankHeader = "X-Blank"
)

// blank adds content and a header that have no schemas.
func blank(cor openapi.ContentOrReference, header bool) {
	switch v := cor.(type) {
	case *openapi3.RequestBodyOrRef:
		if v.RequestBody != nil {
			v.RequestBody.WithContentItem(blankType, openapi3.MediaType{})
		}
	case *openapi3.ResponseOrRef:
		if v.Response != nil {
			h := openapi3.Header{}
			h.WithContentItem("text/plain", openapi3.MediaType{})
			v.Response.WithContentItem(blankType, openapi3.MediaType{})

			if header {
				v.Response.WithHeadersItem(blankHeader, openapi3.HeaderOrRef{Header: &h})
			}
		}
	case *openapi31.RequestBodyOrReference:
		if v.RequestBody != nil {
			v.RequestBody.WithContentItem(blankType, openapi31.MediaType{})
		}
	case *openapi31.ResponseOrReference:
		if v.Response != nil {
			h := openapi31.Header{}
			h.WithContentItem("text/plain", openapi31.MediaType{})
			v.Response.WithContentItem(blankType, openapi31.MediaType{})

			if header {
				v.Response.WithHeadersItem(blankHeader, openapi31.HeaderOrReference{Header: &h})
			}
		}
	}
}

// mark adds an extension to the schemas that are described in place: they belong to this document alone.
func (c CU) mark(cor openapi.ContentOrReference) {
	mark30 := func(s *openapi3.SchemaOrRef) {
		if s != nil && s.Schema != nil {
			s.Schema.WithMapOfAnythingItem("x-mark", c.Mark)
		}
	}
	mark31 := func(s map[string]interface{}) {
		if _, isRef := s["$ref"]; !isRef && s != nil {
			s["x-mark"] = c.Mark
		}
	}

	switch v := cor.(type) {
	case *openapi3.RequestBodyOrRef:
		if v.RequestBody != nil {
			for _, mt := range v.RequestBody.Content {
				mark30(mt.Schema)
			}
		}
	case *openapi3.ResponseOrRef:
		if v.Response != nil {
			for _, mt := range v.Response.Content {
				mark30(mt.Schema)
			}

			for _, h := range v.Response.Headers {
				if h.Header != nil {
					mark30(h.Header.Schema)
				}
			}
		}
	case *openapi31.RequestBodyOrReference:
		if v.RequestBody != nil {
			for _, mt := range v.RequestBody.Content {
				mark31(mt.Schema)
			}
		}
	case *openapi31.ResponseOrReference:
		if v.Response != nil {
			for _, mt := range v.Response.Content {
				mark31(mt.Schema)
			}

			for _, h := range v.Response.Headers {
				if h.Header != nil {
					mark31(h.Header.Schema)
				}
			}
		}
	}
}

// unit builds the content unit directly.
func (c CU) unit(h *hooks) openapi.ContentUnit {
	if c.keep != nil {
		return c.keep.unit
	}

	cu := openapi.ContentUnit{}
	s := c.Structure()

	if p, ok := s.(openapi.ContentUnitPreparer); ok {
		p.SetupContentUnit(&cu)
	} else {
		cu.Structure = s
	}

	for _, o := range c.options(h) {
		o(&cu)
	}

	return cu
}

// own30 sets parts of an operation.
func own30(o *openapi3.Operation, raw []byte) {
	n := openapi3.Operation{}
	if err := json.Unmarshal(raw, &n); err != nil {
		panic("harness: " + err.Error())
	}

	o.ExternalDocs, o.Servers, o.Callbacks, o.MapOfAnything = n.ExternalDocs, n.Servers, n.Callbacks, n.MapOfAnything
	o.Parameters = append(o.Parameters, n.Parameters...)
	o.Responses = n.Responses
}

// own31 sets parts of an operation.
func own31(o *openapi31.Operation, raw []byte) {
	n := openapi31.Operation{}
	if err := json.Unmarshal(raw, &n); err != nil {
		panic("harness: " + err.Error())
	}

	o.ExternalDocs, o.Servers, o.Callbacks, o.MapOfAnything = n.ExternalDocs, n.Servers, n.Callbacks, n.MapOfAnything
	o.Parameters = append(o.Parameters, n.Parameters...)
	o.Responses = n.Responses
}

// draft sets the metadata that is replaced later.
func draft(oc openapi.OperationContext, s *OpSpec) {
	if s.ID != "" {
		oc.SetID("draft")
	}

	if s.Sum != "" {
		oc.SetSummary("Draft.")
	}

	if s.Desc != "" {
		oc.SetDescription("Draft.")
	}

	if len(s.Tags) > 0 {
		oc.SetTags("draft", "one", "two")
	}

	if s.Depr {
		oc.SetIsDeprecated(false)
	}
}

// fill declares parts of an operation: "meta", "req", "resp" or everything.
func fill(oc openapi.OperationContext, s *OpSpec, part string, h *hooks) {
	if part == "" || part == "meta" {
		if s.Draft {
			draft(oc, s)
		}

		if s.ID != "" {
			oc.SetID(s.ID)
		}

		if s.Sum != "" {
			oc.SetSummary(s.Sum)
		}

		if s.Desc != "" {
			oc.SetDescription(s.Desc)
		}

		if len(s.Tags) > 0 {
			oc.SetTags(s.Tags...)
		}

		if s.Depr {
			oc.SetIsDeprecated(true)
		}

		for _, sec := range s.Sec {
			oc.AddSecurity(sec.Name, sec.Scopes...)
		}

		if s.Own != nil {
			switch e := oc.(type) {
			case openapi3.OperationExposer:
				own30(e.Operation(), s.Own)
			case openapi31.OperationExposer:
				own31(e.Operation(), s.Own)
			default:
				panic("the operation is not exposed")
			}
		}
	}

	if part == "" || part == "req" {
		for _, cu := range s.Req {
			oc.AddReqStructure(cu.Structure(), cu.options(h)...)
		}
	}

	if part == "" || part == "resp" {
		for _, cu := range s.Resp {
			oc.AddRespStructure(cu.Structure(), cu.options(h)...)
		}
	}
}

// register declares and adds an operation in one go.
func register(d Doc, s *OpSpec, webhook bool, h *hooks) error {
	_, err := registerCtx(d, s, webhook, h)

	return err
}

func registerCtx(d Doc, s *OpSpec, webhook bool, h *hooks) (openapi.OperationContext, error) {
	oc, err := d.Refl().NewOperationContext(s.Method, s.Path)
	if err != nil {
		return nil, err
	}

	fill(oc, s, "", h)

	if webhook {
		return oc, d.AddWebhook(oc)
	}

	return oc, d.Refl().AddOperation(oc)
}

// snapshot is the parsed content of a document.
type snapshot struct {
	raw []byte
	j   obj
}

func (s snapshot) get(ks ...string) obj {
	o := s.j
	for _, k := range ks {
		o, _ = o[k].(obj)
	}

	return o
}

// comps are the schema components.
func (s snapshot) comps() obj { return s.get("components", "schemas") }

// snap serialises the document, which must always be possible.
func (r *Result) snap(d Doc, when string) (snapshot, bool) {
	var s snapshot

	o := guard(func() (err error) {
		s.raw, err = d.JSON()

		return err
	})

	if !o.ok() {
		if !r.crash("serialising "+when, o) {
			r.violate("serialise", "document does not serialise %s: %v", when, o)
		}

		return s, false
	}

	if err := json.Unmarshal(s.raw, &s.j); err != nil {
		r.violate("serialise", "document is not valid JSON %s: %v", when, err)

		return s, false
	}

	r.observe(string(s.raw))
	r.state(s.raw)

	return s, true
}

// diff tells the first difference of two JSON values.
func diff(a, b interface{}) string {
	return diffAt("", a, b)
}

func diffAt(p string, a, b interface{}) string {
	ao, aok := a.(obj)
	bo, bok := b.(obj)

	if aok && bok {
		keys := map[string]bool{}
		for k := range ao {
			keys[k] = true
		}

		for k := range bo {
			keys[k] = true
		}

		for _, k := range sorted(keys) {
			x, xok := ao[k]
			y, yok := bo[k]

			switch {
			case !xok:
				return fmt.Sprintf("%s/%s: missing, want %s", p, k, clip(canon(y)))
			case !yok:
				return fmt.Sprintf("%s/%s: unexpected %s", p, k, clip(canon(x)))
			}

			if d := diffAt(p+"/"+k, x, y); d != "" {
				return d
			}
		}

		return ""
	}

	al, aok := a.([]interface{})
	bl, bok := b.([]interface{})

	if aok && bok && len(al) == len(bl) {
		for i := range al {
			if d := diffAt(fmt.Sprintf("%s/%d", p, i), al[i], bl[i]); d != "" {
				return d
			}
		}

		return ""
	}

	if x, y := canon(a), canon(b); x != y {
		return fmt.Sprintf("%s: got %s, want %s", p, clip(x), clip(y))
	}

	return ""
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}

	return s
}

func sorted(m map[string]bool) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}

	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}

	return l
}

func sortedKeys(o obj) []string {
	m := map[string]bool{}
	for k := range o {
		m[k] = true
	}

	return sorted(m)
}

func equalJSON(a, b interface{}) bool { return bytes.Equal([]byte(canon(a)), []byte(canon(b))) }

// Exec executes one run.
func Exec(p Plan) (r Result) {
	cat.ResetFixed()

	api := true

	if e, ok := execModes[p.Prop]; ok {
		api = e(&p)
	}

	cat.Hook = nil

	simrt.Begin(simrt.Config{API: api, Sched: p.Sched, Seed: p.MapSeed | 1, Budget: 200_000_000})

	o := guard(func() error {
		props[p.Prop].run(&p, &r)

		return nil
	})

	st := simrt.End()
	cat.Hook = nil

	r.Steps, r.Points, r.Switches, r.Trace = st.Steps, st.Points, st.Switches, st.Trace

	if o.pan != nil && r.Violation == "" {
		if h, ok := o.pan.(simrt.Hang); ok {
			r.violate("hang", "run does not finish: %v", h)
		} else {
			r.Harness = fmt.Sprintf("%v\n%s", o.pan, o.st)
		}
	}

	r.observe(r.Violation)

	return r
}

// execModes tells which properties preempt at statements.
var execModes = map[string]func(p *Plan) bool{
	"C03": func(*Plan) bool { return false },
	"C04": func(*Plan) bool { return false },
}
