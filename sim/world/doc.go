package world

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

// OpHandle is an operation of either version as a set-up function gets it.
type OpHandle interface {
	SetSummary(s string)
	AddTag(s string)
	AddParam(raw []byte) error
	AddResponse(status string, raw []byte) error
}

// Doc is a document of either version together with its reflector.
type Doc interface {
	Ver() string
	Refl() openapi.Reflector
	JSON() ([]byte, error)
	YAML() ([]byte, error)
	LoadJSON(b []byte) error
	LoadYAML(b []byte) error
	AddWebhook(oc openapi.OperationContext) error
	SpecAdd(method, path string, raw []byte) error
	SpecAddWebhook(method, name string, raw []byte) error
	SpecSetup(method, path string, fs ...func(OpHandle) error) error
	Resolve(ref string) (jsonschema.SchemaOrBool, bool)
	// Legacy registers through the deprecated functions of version 3.0.
	Legacy(spec OpSpec) error
	// ConvertAll converts every schema of the document to JSON Schema.
	Convert(name string) ([]byte, error)
	ComponentNames() []string
	// Lookup finds an operation.
	Lookup(method, path string) ([]byte, error)
	// Forbidden tells where unknown parameters are forbidden in an operation.
	Forbidden(method, path string) []string
	// Known tells if there is an operation.
	Known(method, path string) bool
	Spec() interface{}
}

// NewDoc makes an empty document with its reflector.
func NewDoc(ver string, cfg Cfg) Doc {
	if ver == "3.0" {
		d := &doc30{r: openapi3.NewReflector()}
		if cfg.Bare {
			d.r = &openapi3.Reflector{}
		}

		cfg.apply(d.r.JSONSchemaReflector())

		return d
	}

	d := &doc31{r: openapi31.NewReflector()}
	if cfg.Bare {
		d.r = &openapi31.Reflector{}
	}

	cfg.apply(d.r.JSONSchemaReflector())

	return d
}

type doc30 struct{ r *openapi3.Reflector }

func (d *doc30) Ver() string                                 { return "3.0" }
func (d *doc30) Refl() openapi.Reflector                     { return d.r }
func (d *doc30) JSON() ([]byte, error)                       { return d.r.SpecEns().MarshalJSON() }
func (d *doc30) YAML() ([]byte, error)                       { return d.r.SpecEns().MarshalYAML() }
func (d *doc30) Spec() interface{}                           { return d.r.SpecEns() }
func (d *doc30) AddWebhook(_ openapi.OperationContext) error { return fmt.Errorf("no webhooks in 3.0") }
func (d *doc30) SpecAddWebhook(_, _ string, _ []byte) error  { return fmt.Errorf("no webhooks in 3.0") }
func (d *doc30) Resolve(ref string) (jsonschema.SchemaOrBool, bool) {
	return d.r.ResolveJSONSchemaRef(ref)
}

func (d *doc30) LoadJSON(b []byte) error {
	d.r.Spec = &openapi3.Spec{}

	return d.r.SpecEns().UnmarshalJSON(b)
}

func (d *doc30) LoadYAML(b []byte) error {
	d.r.Spec = &openapi3.Spec{}

	return d.r.SpecEns().UnmarshalYAML(b)
}

func (d *doc30) SpecAdd(method, path string, raw []byte) error {
	op := openapi3.Operation{}
	if err := json.Unmarshal(raw, &op); err != nil {
		panic("harness: " + err.Error())
	}

	locate(op.Parameters)

	return d.r.SpecEns().AddOperation(method, path, op)
}

// locate tells where certain parameters are with Location instead of In.
func locate(l []openapi3.ParameterOrRef) {
	for i := range l {
		p := l[i].Parameter
		if p == nil || !strings.HasPrefix(p.Name, "loc") {
			continue
		}

		var at openapi3.ParameterLocation

		switch p.In {
		case openapi3.ParameterInQuery:
			at.WithQueryParameter(openapi3.QueryParameter{})

			if p.Style != nil {
				at.QueryParameter.WithStyle(openapi3.QueryParameterStyle(*p.Style))
			}
		case openapi3.ParameterInHeader:
			at.WithHeaderParameter(openapi3.HeaderParameter{})
		case openapi3.ParameterInCookie:
			at.WithCookieParameter(openapi3.CookieParameter{})
		default:
			continue
		}

		p.In, p.Style, p.Location = "", nil, &at
	}
}

func (d *doc30) SpecSetup(method, path string, fs ...func(OpHandle) error) error {
	var l []func(*openapi3.Operation) error
	for _, f := range fs {
		f := f

		l = append(l, func(o *openapi3.Operation) error { return f(op30{o}) })
	}

	return d.r.SpecEns().SetupOperation(method, path, l...)
}

func (d *doc30) Legacy(spec OpSpec) error {
	op := openapi3.Operation{}

	if spec.ID != "" {
		op.WithID(spec.ID)
	}

	if spec.Sum != "" {
		op.WithSummary(spec.Sum)
	}

	if spec.Desc != "" {
		op.WithDescription(spec.Desc)
	}

	if len(spec.Tags) > 0 {
		op.WithTags(spec.Tags...)
	}

	if spec.Depr {
		op.WithDeprecated(true)
	}

	if spec.Own != nil {
		own30(&op, spec.Own)
	}

	for i, cu := range spec.Req {
		if len(cu.Map) == 0 && i%2 == 0 {
			if err := d.r.SetRequest(&op, cu.Structure(), spec.Method); err != nil {
				return err
			}

			continue
		}

		if err := d.r.SetupRequest(openapi3.OperationContext{
			Operation: &op, Input: cu.Structure(), HTTPMethod: spec.Method,
			ReqQueryMapping: cu.Map["query"], ReqPathMapping: cu.Map["path"], ReqCookieMapping: cu.Map["cookie"],
			ReqHeaderMapping: cu.Map["header"], ReqFormDataMapping: cu.Map["formData"],
		}); err != nil {
			return err
		}
	}

	for _, cu := range spec.Resp {
		var err error

		switch {
		case len(cu.Map) == 0 && cu.CT == "":
			err = d.r.SetJSONResponse(&op, cu.Structure(), cu.Status)
		case cu.T == nil:
			err = d.r.SetStringResponse(&op, cu.Status, cu.CT)
		default:
			err = d.r.SetupResponse(openapi3.OperationContext{
				Operation: &op, Output: cu.Structure(), HTTPStatus: cu.Status, RespContentType: cu.CT,
				RespHeaderMapping: cu.Map["header"], HTTPMethod: spec.Method,
			})
		}

		if err != nil {
			return err
		}
	}

	return d.r.SpecEns().AddOperation(spec.Method, spec.Path, op)
}

func (d *doc30) ComponentNames() []string {
	var l []string

	if d.r.SpecEns().Components == nil || d.r.SpecEns().Components.Schemas == nil {
		return nil
	}

	for n := range d.r.SpecEns().Components.Schemas.MapOfSchemaOrRefValues {
		l = append(l, n)
	}

	return l
}

func (d *doc30) Convert(name string) ([]byte, error) {
	if d.r.SpecEns().Components == nil || d.r.SpecEns().Components.Schemas == nil {
		return nil, fmt.Errorf("no components")
	}

	s, ok := d.r.SpecEns().Components.Schemas.MapOfSchemaOrRefValues[name]
	if !ok {
		return nil, fmt.Errorf("no component %s", name)
	}

	return json.Marshal(s.ToJSONSchema(d.r.SpecEns()))
}

func (d *doc30) Lookup(method, path string) ([]byte, error) {
	pi, ok := d.r.SpecEns().Paths.MapOfPathItemValues[path]
	if !ok {
		return nil, fmt.Errorf("no path %s", path)
	}

	op, ok := pi.MapOfOperationValues[method]
	if !ok {
		return nil, fmt.Errorf("no operation %s", method)
	}

	if op.UnknownParamIsForbidden(openapi3.ParameterInQuery) {
		return nil, fmt.Errorf("unknown parameters are forbidden")
	}

	return json.Marshal(op)
}

func (d *doc30) Forbidden(method, path string) (l []string) {
	op := d.r.SpecEns().Paths.MapOfPathItemValues[path].MapOfOperationValues[method]

	for _, in := range paramIns {
		if op.UnknownParamIsForbidden(openapi3.ParameterIn(in)) {
			l = append(l, in)
		}
	}

	return l
}

func (d *doc30) Known(method, path string) bool {
	_, ok := d.r.SpecEns().Paths.MapOfPathItemValues[path].MapOfOperationValues[method]

	return ok
}

var paramIns = []string{"cookie", "header", "path", "query"}

type op30 struct{ o *openapi3.Operation }

func (o op30) SetSummary(s string) { o.o.WithSummary(s) }
func (o op30) AddTag(s string)     { o.o.Tags = append(o.o.Tags, s) }

func (o op30) AddParam(raw []byte) error {
	p := openapi3.ParameterOrRef{}
	if err := json.Unmarshal(raw, &p); err != nil {
		return err
	}

	if p.Parameter != nil {
		p = p.Parameter.ToParameterOrRef()
	}

	o.o.Parameters = append(o.o.Parameters, p)

	return nil
}

func (o op30) AddResponse(status string, raw []byte) error {
	r := openapi3.ResponseOrRef{}
	if err := json.Unmarshal(raw, &r); err != nil {
		return err
	}

	o.o.Responses.WithMapOfResponseOrRefValuesItem(status, r)

	return nil
}

type doc31 struct{ r *openapi31.Reflector }

func (d *doc31) Ver() string                                  { return "3.1" }
func (d *doc31) Refl() openapi.Reflector                      { return d.r }
func (d *doc31) JSON() ([]byte, error)                        { return d.r.SpecEns().MarshalJSON() }
func (d *doc31) YAML() ([]byte, error)                        { return d.r.SpecEns().MarshalYAML() }
func (d *doc31) Spec() interface{}                            { return d.r.SpecEns() }
func (d *doc31) AddWebhook(oc openapi.OperationContext) error { return d.r.AddWebhook(oc) }
func (d *doc31) Resolve(ref string) (jsonschema.SchemaOrBool, bool) {
	return d.r.ResolveJSONSchemaRef(ref)
}
func (d *doc31) Legacy(_ OpSpec) error { return fmt.Errorf("no deprecated functions in 3.1") }

func (d *doc31) LoadJSON(b []byte) error {
	d.r.Spec = &openapi31.Spec{}

	return d.r.SpecEns().UnmarshalJSON(b)
}

func (d *doc31) LoadYAML(b []byte) error {
	d.r.Spec = &openapi31.Spec{}

	return d.r.SpecEns().UnmarshalYAML(b)
}

func (d *doc31) op(raw []byte) openapi31.Operation {
	op := openapi31.Operation{}
	if err := json.Unmarshal(raw, &op); err != nil {
		panic("harness: " + err.Error())
	}

	return op
}

func (d *doc31) SpecAdd(method, path string, raw []byte) error {
	return d.r.SpecEns().AddOperation(method, path, d.op(raw))
}

func (d *doc31) SpecAddWebhook(method, name string, raw []byte) error {
	return d.r.SpecEns().AddWebhook(method, name, d.op(raw))
}

func (d *doc31) SpecSetup(method, path string, fs ...func(OpHandle) error) error {
	var l []func(*openapi31.Operation) error
	for _, f := range fs {
		f := f

		l = append(l, func(o *openapi31.Operation) error { return f(op31{o}) })
	}

	return d.r.SpecEns().SetupOperation(method, path, l...)
}

func (d *doc31) ComponentNames() []string {
	var l []string

	if d.r.SpecEns().Components == nil {
		return nil
	}

	for n := range d.r.SpecEns().Components.Schemas {
		l = append(l, n)
	}

	return l
}

func (d *doc31) Convert(name string) ([]byte, error) {
	if d.r.SpecEns().Components == nil {
		return nil, fmt.Errorf("no components")
	}

	s, ok := d.r.SpecEns().Components.Schemas[name]
	if !ok {
		return nil, fmt.Errorf("no component %s", name)
	}

	return json.Marshal(openapi31.ToJSONSchema(s, d.r.SpecEns()))
}

func (d *doc31) Lookup(method, path string) ([]byte, error) {
	if d.r.SpecEns().Paths == nil {
		return nil, fmt.Errorf("no paths")
	}

	pi, ok := d.r.SpecEns().Paths.MapOfPathItemValues[path]
	if !ok {
		return nil, fmt.Errorf("no path %s", path)
	}

	op, err := pi.Operation(method)
	if err != nil || op == nil {
		return nil, err
	}

	if op.UnknownParamIsForbidden(openapi31.ParameterInQuery) {
		return nil, fmt.Errorf("unknown parameters are forbidden")
	}

	return json.Marshal(op)
}

func (d *doc31) Forbidden(method, path string) (l []string) {
	pi := d.r.SpecEns().PathsEns().MapOfPathItemValues[path]

	op, err := pi.Operation(method)
	if err != nil || op == nil {
		return []string{"unknown operation"}
	}

	for _, in := range paramIns {
		if op.UnknownParamIsForbidden(openapi31.ParameterIn(in)) {
			l = append(l, in)
		}
	}

	return l
}

func (d *doc31) Known(method, path string) bool {
	pi := d.r.SpecEns().PathsEns().MapOfPathItemValues[path]
	op, err := pi.Operation(method)

	return err == nil && (op != nil || !methods[strings.ToLower(method)])
}

type op31 struct{ o *openapi31.Operation }

func (o op31) SetSummary(s string) { o.o.WithSummary(s) }
func (o op31) AddTag(s string)     { o.o.Tags = append(o.o.Tags, s) }

func (o op31) AddParam(raw []byte) error {
	p := openapi31.ParameterOrReference{}
	if err := json.Unmarshal(raw, &p); err != nil {
		return err
	}

	if p.Parameter != nil {
		p = p.Parameter.ToParameterOrRef()
	}

	o.o.Parameters = append(o.o.Parameters, p)

	return nil
}

func (o op31) AddResponse(status string, raw []byte) error {
	r := openapi31.ResponseOrReference{}
	if err := json.Unmarshal(raw, &r); err != nil {
		return err
	}

	o.o.ResponsesEns().WithMapOfResponseOrReferenceValuesItem(status, r)

	return nil
}
