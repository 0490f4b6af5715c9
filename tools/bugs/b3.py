exec(open("/verif/tools/bugs/heads.py").read())
BUGS = [
 {"id": "c03-body-cache", "prop": "C03", "pkg": "openapi3",
  "needs": "two reflectors with different options that reflect the same type as a response, in one process",
  "breaks": "whether a response has a body is decided by what another reflector found for the type",
  "edits": [("internal/json_schema.go", '''func hasJSONBody(r *jsonschema.Reflector, output interface{}) (bool, error) {
''', '''var bodyCache sync.Map

func hasJSONBody(r *jsonschema.Reflector, output interface{}) (bool, error) {
	t := reflect.TypeOf(output)
	if v, ok := bodyCache.Load(t); ok {
		return v == true, nil
	}

	has, err := reflectsJSONBody(r, output)
	if err == nil {
		bodyCache.Store(t, has)
	}

	return has, err
}

func reflectsJSONBody(r *jsonschema.Reflector, output interface{}) (bool, error) {
'''), ("internal/json_schema.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
  "demo": HEAD3 + '''
type demoUntagged struct {
	A int
}

func TestZZDemo(t *testing.T) {
	reg := func(opts ...func(rc *jsonschema.ReflectContext)) bool {
		r := openapi3.NewReflector()
		r.DefaultOptions = append(r.DefaultOptions, opts...)

		oc, err := r.NewOperationContext("get", "/a")
		if err != nil {
			t.Fatal(err)
		}

		oc.AddRespStructure(new(demoUntagged))

		if err := r.AddOperation(oc); err != nil {
			t.Fatal(err)
		}

		return len(r.Spec.Paths.MapOfPathItemValues["/a"].MapOfOperationValues["get"].
			Responses.MapOfResponseOrRefValues["200"].Response.Content) > 0
	}

	if reg() {
		t.Fatal("body without fields")
	}

	if !reg(jsonschema.ProcessWithoutTags) {
		t.Fatal("no body, another reflector did not have one")
	}
}
'''},
 {"id": "c02-spec-tags", "prop": "C02", "pkg": "openapi31",
  "needs": "a document that declares tags, and an operation with several tags that is rejected after its tags were looked at",
  "breaks": "the rejected operation leaves its tags in the list of tags of the document",
  "edits": [("openapi31/reflect.go", '''	if err := r.setupRequest(c.op, oc); err != nil {
		return c, fmt''', '''	if len(oc.Tags()) > 1 && len(r.SpecEns().Tags) > 0 {
		r.declareTags(oc.Tags())
	}

	if err := r.setupRequest(c.op, oc); err != nil {
		return c, fmt'''), ("openapi31/reflect.go", "func (r *Reflector) newOpenapiContext", "func (r *Reflector) newOpenapiContext") if False else
   ("openapi31/reflect.go", "// NewReflector creates", '''// declareTags keeps the list of tags complete, once there is one.
func (r *Reflector) declareTags(tags []string) {
	known := map[string]bool{}
	for _, t := range r.Spec.Tags {
		known[t.Name] = true
	}

	for _, t := range tags {
		if !known[t] {
			known[t] = true

			r.Spec.Tags = append(r.Spec.Tags, Tag{Name: t})
		}
	}
}

// NewReflector creates''')],
  "demo": HEAD + '''
func TestZZDemo(t *testing.T) {
	r := openapi31.NewReflector()
	r.Spec.Tags = []openapi31.Tag{{Name: "pets"}}

	oc, err := r.NewOperationContext("get", "/a/{id}")
	if err != nil {
		t.Fatal(err)
	}

	oc.SetTags("pets", "new")

	before, err := r.Spec.MarshalJSON()
	if err != nil {
		t.Fatal(err)
	}

	if err := r.AddOperation(oc); err == nil {
		t.Fatal("missing path parameter accepted")
	}

	after, err := r.Spec.MarshalJSON()
	if err != nil {
		t.Fatal(err)
	}

	if string(before) != string(after) {
		t.Fatal(string(after))
	}
}
'''},
 {"id": "c02-set-up-callbacks", "prop": "C02", "pkg": "openapi31",
  "needs": "an existing operation with callbacks, and a set-up of it that fails",
  "breaks": "what the set-up changed before it failed stays in the document",
  "edits": [("openapi31/helper.go", '''	for _, f := range setup {
		if err := f(operation); err != nil {''', '''	for _, f := range setup {
		if len(operation.Callbacks) > 0 {
			if err := pathItem.SetOperation(method, operation); err != nil {
				return err
			}

			s.PathsEns().WithMapOfPathItemValuesItem(path, pathItem)
		}

		if err := f(operation); err != nil {''')],
  "demo": HEAD + '''
func TestZZDemo(t *testing.T) {
	var s openapi31.Spec

	err := s.UnmarshalYAML([]byte(`openapi: 3.1.0
info: {title: a, version: "1"}
paths:
  /a:
    get:
      summary: sum
      callbacks:
        cb: {"$ref": "#/components/callbacks/cb"}
`))
	if err != nil {
		t.Fatal(err)
	}

	err = s.SetupOperation("get", "/a", func(op *openapi31.Operation) error {
		return errors.New("failed")
	})
	if err == nil {
		t.Fatal("accepted")
	}

	if v := s.Paths.MapOfPathItemValues["/a"].Get.Summary; v == nil || *v != "sum" {
		t.Fatal("summary changed")
	}
}
'''},
 {"id": "c04-internal-mark", "prop": "C04", "pkg": "openapi31",
  "needs": "a component with an x-internal mark, and a walk over a schema that refers to it",
  "breaks": "walking removes the mark from the document",
  "edits": [("openapi31/jsonschema.go", '''				dst := ctx.spec.Components.Schemas[dstName]
''', '''				dst := ctx.spec.Components.Schemas[dstName]
				delete(dst, "x-internal")
''')],
  "demo": HEAD + '''
func TestZZDemo(t *testing.T) {
	var s openapi31.Spec

	err := s.UnmarshalYAML([]byte(`openapi: 3.1.0
info: {title: a, version: "1"}
components:
  schemas:
    A: {type: object, x-internal: true}
`))
	if err != nil {
		t.Fatal(err)
	}

	before, err := s.MarshalJSON()
	if err != nil {
		t.Fatal(err)
	}

	openapi31.ToJSONSchema(map[string]interface{}{"$ref": "#/components/schemas/A"}, &s)

	after, err := s.MarshalJSON()
	if err != nil {
		t.Fatal(err)
	}

	if string(before) != string(after) {
		t.Fatal(string(after))
	}
}
'''},
 {"id": "c09-json-parameter", "prop": "C09", "pkg": "openapi31",
  "needs": "a structured parameter that is described by JSON content",
  "breaks": "hooks that run for the content of a parameter are told that a body is processed",
  "edits": [("openapi31/reflect.go", '''				propertySchema, err := r.Reflect(property,
					openapi.WithOperationCtx(oc, false, in),''', '''				propertySchema, err := r.Reflect(property,
					openapi.WithOperationCtx(oc, false, openapi.InBody),''')],
  "demo": HEAD + '''
type demoFilter struct {
	A int `json:"a"`
}

type demoReq struct {
	Filter demoFilter `query:"filter"`
}

func TestZZDemo(t *testing.T) {
	r := openapi31.NewReflector()

	var in []openapi.In

	r.DefaultOptions = append(r.DefaultOptions, jsonschema.InterceptProp(func(params jsonschema.InterceptPropParams) error {
		if params.Processed && params.Name == "a" {
			if oc, ok := openapi.OperationCtx(params.Context); ok {
				in = append(in, oc.ProcessingIn())
			}
		}

		return nil
	}))

	oc, err := r.NewOperationContext("get", "/a")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(new(demoReq))

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	for _, i := range in {
		if i != openapi.InQuery {
			t.Fatal(in)
		}
	}
}
'''},
 {"id": "c10-cookie-duplicates", "prop": "C10", "pkg": "openapi3",
  "needs": "two request structures of one operation that both declare the same cookie",
  "breaks": "the operation is accepted with two parameters of the same name and location",
  "edits": [("openapi3/reflect.go", '''				if ep.Parameter != nil && ep.Parameter.In == p.In && ep.Parameter.Name == p.Name {''', '''				if ep.Parameter != nil && ep.Parameter.In == p.In && ep.Parameter.Name == p.Name && p.In != ParameterInCookie {'''),
   ("openapi3/helper.go", '''paramIndex[p.Parameter.Name+string(p.Parameter.In)]; found {''', '''paramIndex[p.Parameter.Name+string(p.Parameter.In)]; found && p.Parameter.In != ParameterInCookie {''')],
  "demo": HEAD3 + '''
type demoA struct {
	S string `cookie:"s"`
}

type demoB struct {
	S string `cookie:"s"`
}

func TestZZDemo(t *testing.T) {
	r := openapi3.NewReflector()

	oc, err := r.NewOperationContext("get", "/a")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(new(demoA))
	oc.AddReqStructure(new(demoB))

	if err := r.AddOperation(oc); err != nil {
		return
	}

	if n := len(r.Spec.Paths.MapOfPathItemValues["/a"].MapOfOperationValues["get"].Parameters); n > 1 {
		t.Fatal("parameters", n)
	}
}
'''},
 {"id": "c12-ssv-array", "prop": "C12", "pkg": "openapi31",
  "needs": "a query parameter of a fixed size array type with collectionFormat ssv",
  "breaks": "the parameter is described as if its elements were repeated, or separated by commas",
  "edits": [("openapi31/reflect.go", '''				p.WithStyle(ParameterStyleSpaceDelimited).WithExplode(false)
''', '''				if field.Type.Kind() == reflect.Slice {
					p.WithStyle(ParameterStyleSpaceDelimited).WithExplode(false)
				}
''')],
  "demo": HEAD + '''
type demoReq struct {
	A [2]int `query:"a" collectionFormat:"ssv"`
}

func TestZZDemo(t *testing.T) {
	r := openapi31.NewReflector()

	oc, err := r.NewOperationContext("get", "/a")
	if err != nil {
		t.Fatal(err)
	}

	oc.AddReqStructure(new(demoReq))

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	p := r.Spec.Paths.MapOfPathItemValues["/a"].Get.Parameters[0].Parameter
	if p.Style == nil || *p.Style != openapi31.ParameterStyleSpaceDelimited {
		t.Fatal("not space delimited")
	}
}
'''},
 {"id": "c13-examples", "prop": "C13", "pkg": "openapi31",
  "needs": "a component example with a value that fails to marshal",
  "breaks": "YAML of the document is returned without an error, and without the examples",
  "edits": [("openapi31/yaml.go", '''	jsonData, err := s.MarshalJSON()
	if err != nil {
		return nil, err
	}

	var v orderedMap
''', '''	jsonData, err := s.MarshalJSON()
	if err != nil && s.Components != nil && len(s.Components.Examples) > 0 {
		cp := *s
		comps := *s.Components
		comps.Examples = nil
		cp.Components = &comps
		jsonData, err = cp.MarshalJSON()
	}

	if err != nil {
		return nil, err
	}

	var v orderedMap
''')],
  "demo": HEAD + '''
type demoBad struct{}

func (demoBad) MarshalJSON() ([]byte, error) { return nil, errors.New("failed") }

func TestZZDemo(t *testing.T) {
	s := openapi31.Spec{Openapi: "3.1.0"}

	var v interface{} = demoBad{}

	s.ComponentsEns().Examples = map[string]openapi31.ExampleOrReference{"a": {Example: &openapi31.Example{Value: &v}}}

	if y, err := s.MarshalYAML(); err == nil {
		t.Fatal(string(y))
	}
}
'''},
 {"id": "c01-head-fallback", "prop": "C01", "pkg": "openapi31",
  "needs": "a HEAD operation that is registered after the GET operation of the same path in OpenAPI 3.1",
  "breaks": "a method and path that is free is rejected as already existing, in one of two orders",
  "edits": [("openapi31/helper.go", '''	case http.MethodHead:
		return p.Head, nil
''', '''	case http.MethodHead:
		if p.Head == nil {
			return p.Get, nil
		}

		return p.Head, nil
''')],
  "demo": HEAD + '''
func TestZZDemo(t *testing.T) {
	r := openapi31.NewReflector()

	for _, m := range []string{"get", "head"} {
		oc, err := r.NewOperationContext(m, "/a")
		if err != nil {
			t.Fatal(err)
		}

		if err := r.AddOperation(oc); err != nil {
			t.Fatal(err)
		}
	}
}
'''},
]
