package world

import (
	"encoding/json"
	"errors"
	"fmt"
	"mime/multipart"
	"net/http"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"verifsim/cat"
)

// The executable reference model: what a document must say about a declared operation. It is written from the
// documentation of the library, works on generic JSON, and delegates the reflection of single Go types to the
// JSON Schema library, which is a dependency and not under test.

type obj = map[string]interface{}

func toJSON(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	return parse(b)
}

func parse(b []byte) interface{} {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		panic(fmt.Sprintf("%v: %s", err, b))
	}

	return v
}

func canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}

	return string(b)
}

const refPrefix = "#/components/schemas/"

var defSanitizer = regexp.MustCompile(`[^a-zA-Z0-9.\-_]+`)

// Model of one document.
type Model struct {
	ver string
	cfg Cfg
	r   *jsonschema.Reflector
}

// NewModel creates a model for a version.
func NewModel(ver string, cfg Cfg) *Model {
	m := &Model{ver: ver, cfg: cfg, r: &jsonschema.Reflector{}}
	if cfg.Bare {
		cfg.apply(m.r)

		return m
	}

	m.r.DefaultOptions = append(m.r.DefaultOptions, jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
		switch p.Value.Kind() {
		case reflect.Int64:
			p.Schema.WithFormat("int64")
		case reflect.Int32:
			p.Schema.WithFormat("int32")
		case reflect.Float32:
			p.Schema.WithFormat("float")
		case reflect.Float64:
			p.Schema.WithFormat("double")
		}

		return false, nil
	}))

	cfg.apply(m.r)

	return m
}

// apply configures a JSON Schema reflector, the one under test as well as the one of the model.
func (c Cfg) apply(r *jsonschema.Reflector) {
	if c.NoTags {
		r.DefaultOptions = append(r.DefaultOptions, jsonschema.ProcessWithoutTags)
	}

	if c.Strip != "" {
		r.DefaultOptions = append(r.DefaultOptions, jsonschema.StripDefinitionNamePrefix(c.Strip))
	}

	if c.Rename != "" {
		r.DefaultOptions = append(r.DefaultOptions, jsonschema.InterceptDefName(func(_ reflect.Type, n string) string {
			return n + c.Rename
		}))
	}

	if c.EnvNull {
		r.DefaultOptions = append(r.DefaultOptions, func(rc *jsonschema.ReflectContext) { rc.EnvelopNullability = true })
	}

	for _, n := range c.Inline {
		r.InlineDefinition(cat.Types[n]())
	}

	if c.Map {
		s := jsonschema.Schema{}
		s.AddType(jsonschema.String)
		s.WithPattern("^mapped$")
		s.WithDescription("Mapped type.")

		r.AddTypeMapping(new(cat.Text), s)
	}
}

func sanitize(rc *jsonschema.ReflectContext) {
	jsonschema.InterceptDefName(func(_ reflect.Type, n string) string {
		return defSanitizer.ReplaceAllString(n, "")
	})(rc)
}

// schema renders a reflected schema the way the version of the document has it.
func (m *Model) schema(s jsonschema.SchemaOrBool) interface{} {
	if s.TypeObject != nil {
		c := *s.TypeObject
		c.Definitions = nil
		s.TypeObject = &c
	}

	j := toJSON(s)

	if m.ver == "3.0" {
		return to30(j)
	}

	return j
}

func to30(j interface{}) interface{} {
	if b, ok := j.(bool); ok {
		if b {
			return obj{}
		}

		return obj{"not": obj{}}
	}

	js := j.(obj)
	if ref, ok := js["$ref"]; ok {
		if js["deprecated"] == true {
			return obj{"allOf": []interface{}{obj{"deprecated": true}, obj{"$ref": ref}}}
		}

		return obj{"$ref": ref}
	}

	os := obj{}

	for k, v := range js {
		if (k == "minimum" && js["exclusiveMinimum"] != nil) || (k == "maximum" && js["exclusiveMaximum"] != nil) {
			continue
		}

		switch k {
		case "title", "description", "required", "default", "enum", "deprecated", "format", "multipleOf", "maximum", "minimum",
			"maxLength", "minLength", "pattern", "maxItems", "minItems", "uniqueItems", "maxProperties", "minProperties",
			"readOnly", "writeOnly":
			os[k] = v
		case "not", "items":
			os[k] = to30(v)
		case "additionalProperties":
			if _, isBool := v.(bool); isBool {
				os[k] = v
			} else {
				os[k] = to30(v)
			}
		case "oneOf", "anyOf", "allOf":
			var l []interface{}
			for _, i := range v.([]interface{}) {
				l = append(l, to30(i))
			}

			os[k] = l
		case "properties":
			p := obj{}
			for n, s := range v.(obj) {
				p[n] = to30(s)
			}

			os[k] = p
		case "examples":
			os["example"] = v.([]interface{})[0]
		case "exclusiveMaximum":
			os["exclusiveMaximum"] = true
			os["maximum"] = v
		case "exclusiveMinimum":
			os["exclusiveMinimum"] = true
			os["minimum"] = v
		case "type":
			switch t := v.(type) {
			case string:
				setType(os, t)
			case []interface{}:
				for _, i := range t {
					setType(os, i.(string))
				}
			}
		default:
			if strings.HasPrefix(k, "x-") {
				os[k] = v
			}
		}
	}

	return os
}

func setType(os obj, t string) {
	if t == "null" {
		os["nullable"] = true
	} else {
		os["type"] = t
	}
}

func hasTag(t reflect.Type, tag string) bool {
	found := false

	eachField(t, func(f reflect.StructField) {
		if v := strings.Split(f.Tag.Get(tag), ",")[0]; v != "" && v != "-" {
			found = true
		}
	}, tag)

	return found
}

// eachField calls f for each field of a structure, including the ones of embedded structures.
func eachField(t reflect.Type, f func(f reflect.StructField), tag string) {
	for t != nil && t.Kind() == reflect.Ptr {
		t = t.Elem()
	}

	if t == nil || t.Kind() != reflect.Struct {
		return
	}

	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)

		if sf.Anonymous {
			if tag == "" || strings.Split(sf.Tag.Get(tag), ",")[0] != "-" {
				eachField(sf.Type, f, tag)
			}

			continue
		}

		f(sf)
	}
}

func isList(t reflect.Type) bool {
	for t != nil && t.Kind() == reflect.Ptr {
		t = t.Elem()
	}

	return t != nil && (t.Kind() == reflect.Slice || t.Kind() == reflect.Map || t.Kind() == reflect.Array)
}

func embedsList(t reflect.Type) bool {
	for t != nil && t.Kind() == reflect.Ptr {
		t = t.Elem()
	}

	if t == nil || t.Kind() != reflect.Struct {
		return false
	}

	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); f.Anonymous && (isList(f.Type) || embedsList(f.Type)) {
			return true
		}
	}

	return false
}

// OpModel is the expected entry of an operation.
type OpModel struct {
	Op    obj
	Comps map[string]interface{} // components it defines
	Field []FieldUse             // expected uses of declared fields, for hooks
	Deep  []FieldUse             // the same with fields of nested structures
}

// FieldUse tells where a declared property is documented.
type FieldUse struct {
	Name, In string
	Resp     bool
}

func (om *OpModel) see(ip jsonschema.InterceptPropParams, in string, resp bool) {
	om.Deep = append(om.Deep, FieldUse{Name: ip.Name, In: in, Resp: resp})
}

var errModel = errors.New("rejected by model")

// CleanPath strips patterns of placeholders. Braces of a pattern are balanced.
func CleanPath(p string) (clean string, params []string) {
	for len(p) > 0 {
		name, rest := leading(p)
		if name == "" {
			clean, p = clean+p[:1], p[1:]

			continue
		}

		params = append(params, name)
		clean, p = clean+"{"+name+"}", rest
	}

	return clean, params
}

func leading(p string) (name, rest string) {
	if p[0] != '{' {
		return "", ""
	}

	depth := 0

	for i := 0; i < len(p); i++ {
		switch p[i] {
		case '{':
			depth++
		case ':':
			if name == "" {
				name = p[1:i]
			}
		case '}':
			if depth--; depth > 0 {
				continue
			}

			if name == "" {
				name = p[1:i]
			}

			return name, p[i+1:]
		}
	}

	return "", ""
}

var methods = map[string]bool{"get": true, "put": true, "post": true, "delete": true, "options": true, "head": true, "patch": true, "trace": true}

// Structure makes the sample value of a content unit.
func (c CU) Structure() interface{} {
	if c.keep != nil {
		return c.keep.sample
	}

	if c.Prep != nil {
		return cat.Prep{Status: c.Prep.Status, Type: c.Prep.Type}
	}

	if c.T == nil {
		return nil
	}

	if c.Nil && c.Ptr && !virtual[c.T.N] {
		return reflect.Zero(reflect.PtrTo(c.T.Type())).Interface()
	}

	return c.T.New(c.Ptr)
}

// resolved is the content unit as the library has it after options were applied.
func (c CU) resolved() CU {
	if c.Prep == nil {
		return c
	}

	r := c
	t := named("OwnerResp")
	r.T = &t
	r.Ptr = true
	r.Prep = nil
	r.keep = nil

	if c.Status == 0 {
		r.Status = c.Prep.Status
	}

	if c.CT == "" {
		r.CT = c.Prep.Type
	}

	if c.Desc == "" {
		r.Desc = "Prepared content."
	}

	return r
}

func (m *Model) reflect(i interface{}, comps map[string]interface{}, opts ...func(*jsonschema.ReflectContext)) (jsonschema.Schema, error) {
	all := []func(*jsonschema.ReflectContext){jsonschema.DefinitionsPrefix(refPrefix), sanitize}
	if comps != nil {
		all = append(all, jsonschema.CollectDefinitions(func(name string, s jsonschema.Schema) {
			if _, ok := comps[name]; !ok {
				comps[name] = m.schema(s.ToSchemaOrBool())
			}
		}))
	}

	return m.r.Reflect(i, append(all, opts...)...)
}

func boolTag(o obj, t reflect.StructTag, names ...string) error {
	for _, n := range names {
		if v, ok := t.Lookup(n); ok {
			b, err := strconv.ParseBool(v)
			if err != nil {
				return err
			}

			o[n] = b
		}
	}

	return nil
}

func (m *Model) params(in string, cu CU, om *OpModel, seen map[string]bool) error {
	i := cu.Structure()
	if i == nil {
		return nil
	}

	t := reflect.TypeOf(i)
	if isList(t) {
		return nil
	}

	var add []string
	if in == "query" {
		add = []string{"form"}
	}

	var fail error

	s, err := m.reflect(i, om.Comps,
		func(rc *jsonschema.ReflectContext) { rc.ProcessWithoutTags = false; rc.UnnamedFieldWithTag = true },
		jsonschema.PropertyNameMapping(cu.Map[in]),
		jsonschema.PropertyNameTag(in, add...),
		jsonschema.SkipEmbeddedMapsSlices,
		jsonschema.InterceptProp(func(ip jsonschema.InterceptPropParams) error {
			om.see(ip, in, false)

			if !ip.Processed || len(ip.Path) > 1 || fail != nil {
				return nil
			}

			p, err := m.param(in, ip, om)
			if err != nil {
				fail = err

				return nil
			}

			if key := in + " " + ip.Name; seen[key] {
				fail = fmt.Errorf("duplicate %s", key)
			} else {
				seen[key] = true
			}

			params, _ := om.Op["parameters"].([]interface{})
			om.Op["parameters"] = append(params, p)
			om.Field = append(om.Field, FieldUse{Name: ip.Name, In: in})

			return nil
		}),
	)
	if err != nil {
		return err
	}

	if fail != nil {
		return fail
	}

	if s.AdditionalProperties != nil && s.AdditionalProperties.TypeBoolean != nil && !*s.AdditionalProperties.TypeBoolean {
		om.Op["x-forbid-unknown-"+in] = true
	}

	return nil
}

func (m *Model) param(in string, ip jsonschema.InterceptPropParams, om *OpModel) (obj, error) {
	f := ip.Field
	ps := *ip.PropertySchema
	p := obj{"name": ip.Name, "in": in}

	if ps.Description != nil {
		p["description"] = *ps.Description
	}

	sc := m.schema(ps.ToSchemaOrBool())

	if o, ok := sc.(obj); ok && m.ver == "3.0" && f.Type.Kind() != reflect.Ptr {
		delete(o, "nullable")
	}

	switch cf := f.Tag.Get("collectionFormat"); {
	case cf == "csv" && (in == "query" || in == "cookie"):
		p["style"], p["explode"] = "form", false
	case cf == "ssv" && in == "query":
		p["style"], p["explode"] = "spaceDelimited", false
	case cf == "pipes" && in == "query":
		p["style"], p["explode"] = "pipeDelimited", false
	case cf == "multi" && (in == "query" || in == "cookie"):
		p["style"], p["explode"] = "form", true
	}

	if f.Tag.Get("collectionFormat") == "json" || (hasTag(f.Type, "json") && !hasTag(f.Type, in)) {
		js, err := m.reflect(reflect.New(f.Type).Interface(), om.Comps, jsonschema.RootRef,
			jsonschema.InterceptProp(func(ip jsonschema.InterceptPropParams) error {
				om.see(ip, in, false)

				return nil
			}))
		if err != nil {
			return nil, err
		}

		p["content"] = obj{"application/json": m.media(m.schema(js.ToSchemaOrBool()))}
	} else {
		ts, err := m.reflect(reflect.New(f.Type).Interface(), nil)
		if err != nil {
			return nil, err
		}

		if in == "query" && ts.HasType(jsonschema.Object) {
			p["style"], p["explode"] = "deepObject", true
		}

		m.put(p, sc)
	}

	names := []string{"required", "deprecated", "explode"}
	if m.ver == "3.0" {
		names = append(names, "allowEmptyValue", "allowReserved")

		if st, ok := f.Tag.Lookup("style"); ok {
			p["style"] = st
		}
	}

	if d, ok := f.Tag.Lookup("description"); ok {
		p["description"] = d
	}

	if err := boolTag(p, f.Tag, names...); err != nil {
		return nil, err
	}

	if in == "path" {
		p["required"] = true
	}

	return p, nil
}

// put adds a schema to a media type, parameter or header. Version 3.1 leaves out schemas without constraints.
func (m *Model) put(o obj, sc interface{}) {
	o["schema"] = sc
}

func (m *Model) media(sc interface{}) obj {
	o := obj{}
	m.put(o, sc)

	return o
}

func str(format string) obj {
	o := obj{"type": "string"}
	if format != "" {
		o["format"] = format
	}

	return o
}

func (m *Model) body(method string, cu CU, mime, tag string, add []string, mapping map[string]string, om *OpModel) error {
	i := cu.Structure()

	switch strings.ToUpper(method) {
	case http.MethodGet, http.MethodHead, http.MethodDelete, http.MethodTrace:
		if _, ok := i.(openapi.RequestBodyEnforcer); !ok {
			return nil
		}
	}

	if i == nil {
		if m.cfg.NoTags && tag == "json" { // FIXED BEHAVIOUR: an absent structure reflects to an empty schema.
			om.setBody(mime, m.media(obj{}))
		}

		return nil
	}

	t := reflect.TypeOf(i)
	tagged := hasTag(t, tag)

	for _, a := range add {
		tagged = tagged || hasTag(t, a)
	}

	if tag != "json" && !tagged && len(mapping) == 0 {
		return nil
	}

	if tag == "json" {
		_, force := i.(openapi.RequestJSONBodyEnforcer)
		if (hasTag(t, "formData") || hasTag(t, "form")) && !force {
			return nil
		}

		if !tagged && !isList(t) && !embedsList(t) && !m.cfg.NoTags && !(cu.T != nil && cu.T.K == "cat" && virtual[cu.T.N]) {
			return nil
		}
	}

	title := ""
	if tag != "json" {
		title = strings.ToUpper(tag[:1]) + tag[1:]
	}

	files := false
	comps := map[string]interface{}{}

	s, err := m.r.Reflect(i,
		jsonschema.DefinitionsPrefix(refPrefix),
		jsonschema.InterceptDefName(func(t reflect.Type, n string) string {
			if title == "" {
				return n
			}

			for _, a := range append([]string{tag}, add...) {
				if hasTag(t, a) {
					return title + n
				}
			}

			return n
		}),
		jsonschema.RootRef,
		jsonschema.PropertyNameMapping(mapping),
		jsonschema.PropertyNameTag(tag, add...),
		sanitize,
		jsonschema.InterceptNullability(func(p jsonschema.InterceptNullabilityParams) {
			if p.NullAdded && p.Schema.ReflectType != nil {
				switch reflect.Zero(p.Schema.ReflectType).Interface().(type) {
				case []multipart.File, []*multipart.FileHeader:
					p.Schema.RemoveType(jsonschema.Null)
				}
			}
		}),
		jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			switch p.Value.Interface().(type) {
			case *multipart.File, *multipart.FileHeader:
				p.Schema.AddType(jsonschema.String)
				p.Schema.RemoveType(jsonschema.Null)
				p.Schema.WithFormat("binary")

				if m.ver == "3.1" {
					p.Schema.WithExtraPropertiesItem("contentMediaType", "application/octet-stream")
				}

				files = true

				return true, nil
			}

			return false, nil
		}),
		jsonschema.InterceptProp(func(ip jsonschema.InterceptPropParams) error {
			om.see(ip, "body", false)

			if ip.Processed && len(ip.Path) == 1 {
				om.Field = append(om.Field, FieldUse{Name: ip.Name, In: "body"})
			}

			return nil
		}),
		jsonschema.CollectDefinitions(func(name string, s jsonschema.Schema) { comps[name] = m.schema(s.ToSchemaOrBool()) }),
	)
	if err != nil {
		return err
	}

	for n, c := range comps {
		om.Comps[n] = c
	}

	if files && mime == "application/x-www-form-urlencoded" {
		mime = "multipart/form-data"
	}

	om.setBody(mime, m.media(m.schema(s.ToSchemaOrBool())))

	return nil
}

func (om *OpModel) setBody(mime string, mt obj) {
	b, ok := om.Op["requestBody"].(obj)
	if !ok {
		b = obj{"content": obj{}}
		om.Op["requestBody"] = b
	}

	c, ok := b["content"].(obj)
	if !ok { // Customized to be a reference earlier.
		c = obj{}
		b["content"] = c
	}

	c[mime] = mt
}

// markAll is what the customisation of a content unit does to schemas described in place.
func markAll(l interface{}, m string) {
	c, _ := l.(obj)
	for _, i := range c {
		o, _ := i.(obj)
		s, ok := o["schema"].(obj)

		if _, isRef := s["$ref"]; ok && !isRef {
			s["x-mark"] = m
		}
	}
}

var formTags = []string{"form"}

func (m *Model) request(spec OpSpec, om *OpModel) error {
	seen := map[string]bool{}

	own, _ := om.Op["parameters"].([]interface{})
	for _, p := range own {
		if o := p.(obj); o["$ref"] == nil {
			seen[o["in"].(string)+" "+o["name"].(string)] = true
		}
	}

	for _, cu := range spec.Req {
		cu = cu.resolved()

		params := func() error {
			for _, in := range []string{"query", "path", "cookie", "header"} {
				if err := m.params(in, cu, om, seen); err != nil {
					return err
				}
			}

			return nil
		}
		form := func() error {
			return m.body(spec.Method, cu, "application/x-www-form-urlencoded", "formData", formTags, cu.Map["formData"], om)
		}
		jsn := func() error { return m.body(spec.Method, cu, "application/json", "json", nil, nil, om) }
		run := func(fs ...func() error) error {
			for _, f := range fs {
				if err := f(); err != nil {
					return err
				}
			}

			return nil
		}

		var err error

		switch cu.CT {
		case "":
			if err = run(form, params, jsn); err == nil {
				eachField(typeOf(cu.Structure()), func(f reflect.StructField) {
					if ct := strings.Split(f.Tag.Get("contentType"), ",")[0]; ct != "" && ct != "-" {
						om.setBody(ct, obj{"schema": str("")})
					}
				}, "contentType")
			}
		case "application/json":
			err = run(params, jsn)
		case "application/x-www-form-urlencoded", "multipart/form-data":
			err = run(form, params)
		default:
			om.setBody(cu.CT, obj{"schema": str(cu.Format)})
		}

		if err != nil {
			return err
		}

		if b, ok := om.Op["requestBody"].(obj); ok {
			if _, isRef := b["$ref"]; !isRef && cu.Desc != "" {
				b["description"] = cu.Desc
			}

			if cu.Mark != "" {
				markAll(b["content"], cu.Mark)
			}

			if _, isRef := b["$ref"]; cu.Blank != "" && !isRef {
				om.setBody(blankType, obj{})
			}

			if cu.CDesc != "" {
				if _, isRef := b["$ref"]; !isRef {
					b["description"] = cu.CDesc
				}
			}

			if cu.Ref != "" {
				om.Op["requestBody"] = obj{"$ref": "#/components/requestBodies/" + cu.Ref}
			}
		}
	}

	return nil
}

func typeOf(i interface{}) reflect.Type {
	if i == nil {
		return nil
	}

	return reflect.TypeOf(i)
}

func (m *Model) response(spec OpSpec, om *OpModel) error {
	resps, ok := om.Op["responses"].(obj)
	if !ok {
		resps = obj{}
		om.Op["responses"] = resps
	}

	for _, cu := range spec.Resp {
		cu = cu.resolved()

		status := cu.Status
		if status == 0 && !cu.Def {
			status = 200
		}

		ct := strings.Split(cu.CT, ";")[0]
		key := strconv.Itoa(status)

		switch {
		case cu.Def:
			key = "default"
		case status > 0 && status < 6:
			key += "XX"
		}

		resp, ok := resps[key].(obj)
		if ok {
			if _, isRef := resp["$ref"]; isRef {
				ok = false
			}
		}

		if !ok {
			resp = obj{"description": ""}
		}

		i := cu.Structure()

		if strings.ToUpper(spec.Method) != http.MethodHead {
			if err := m.jsonResponse(resp, ct, i, om); err != nil {
				return err
			}
		}

		if err := m.respHeaders(resp, cu, i, om); err != nil {
			return err
		}

		if strings.ToUpper(spec.Method) != http.MethodHead {
			ensure := func(ct, format string) {
				c, ok := resp["content"].(obj)
				if !ok {
					c = obj{}
					resp["content"] = c
				}

				if _, ok := c[ct]; !ok {
					c[ct] = obj{"schema": str(format)}
				}
			}

			eachField(typeOf(i), func(f reflect.StructField) {
				if t := strings.Split(f.Tag.Get("contentType"), ",")[0]; t != "" && t != "-" {
					ensure(t, "")
				}
			}, "contentType")

			if ct != "" {
				ensure(ct, cu.Format)
			}
		}

		if cu.Desc != "" {
			resp["description"] = cu.Desc
		}

		if resp["description"] == "" {
			resp["description"] = http.StatusText(status)
		}

		if cu.Mark != "" {
			markAll(resp["content"], cu.Mark)
			markAll(resp["headers"], cu.Mark)
		}

		if cu.Blank != "" {
			in := func(k string) obj {
				o, ok := resp[k].(obj)
				if !ok {
					o = obj{}
					resp[k] = o
				}

				return o
			}

			in("content")[blankType] = obj{}

			if cu.Blank == "all" {
				in("headers")[blankHeader] = obj{"style": "simple", "content": obj{"text/plain": obj{}}}
			}
		}

		if cu.CDesc != "" {
			resp["description"] = cu.CDesc
		}

		if cu.Ref != "" {
			resp = obj{"$ref": "#/components/responses/" + cu.Ref}
		}

		resps[key] = resp
	}

	if len(resps) == 0 {
		resps["204"] = obj{"description": "No Content"}
	}

	return nil
}

func (m *Model) jsonResponse(resp obj, ct string, i interface{}, om *OpModel) error {
	if i == nil {
		return nil
	}

	probe, err := m.r.Reflect(i, sanitize)
	if err == nil {
		c := probe
		c.Title, c.Description, c.Comment, c.ExtraProperties, c.ID, c.Examples = nil, nil, nil, nil, nil, nil

		if j := canon(toJSON(c)); j == "{}" || j == `{"type":"object"}` {
			return nil
		}
	}

	s, err := m.reflect(i, om.Comps, jsonschema.RootRef, jsonschema.InterceptProp(func(ip jsonschema.InterceptPropParams) error {
		om.see(ip, "body", true)

		if ip.Processed && len(ip.Path) == 1 {
			om.Field = append(om.Field, FieldUse{Name: ip.Name, In: "body", Resp: true})
		}

		return nil
	}))
	if err != nil {
		return err
	}

	sc := m.schema(s.ToSchemaOrBool())
	if o, ok := sc.(obj); ok && m.ver == "3.0" {
		delete(o, "nullable")
	}

	if ct == "" {
		ct = "application/json"
	}

	c, ok := resp["content"].(obj)
	if !ok {
		c = obj{}
		resp["content"] = c
	}

	c[ct] = m.media(sc)

	if s.Description != nil && resp["description"] == "" {
		resp["description"] = *s.Description
	}

	return nil
}

func (m *Model) respHeaders(resp obj, cu CU, i interface{}, om *OpModel) error {
	if i == nil {
		return nil
	}

	var fail error

	s, err := m.reflect(i, nil,
		func(rc *jsonschema.ReflectContext) { rc.ProcessWithoutTags = false },
		jsonschema.InlineRefs,
		jsonschema.PropertyNameMapping(cu.Map["header"]),
		jsonschema.PropertyNameTag("header"),
		jsonschema.InterceptProp(func(ip jsonschema.InterceptPropParams) error {
			om.see(ip, "header", true)

			if !ip.Processed || len(ip.Path) > 1 || fail != nil {
				return nil
			}

			om.Field = append(om.Field, FieldUse{Name: ip.Name, In: "header", Resp: true})

			ps := *ip.PropertySchema
			h := obj{"style": "simple"}

			if ps.Description != nil {
				h["description"] = *ps.Description
			}

			if ps.Deprecated != nil {
				h["deprecated"] = *ps.Deprecated
			}

			m.put(h, m.schema(ps.ToSchemaOrBool()))

			names := []string{"required", "deprecated", "explode"}
			if m.ver == "3.0" {
				names = append(names, "allowEmptyValue", "allowReserved")
			}

			fail = boolTag(h, ip.Field.Tag, names...)

			hs, ok := resp["headers"].(obj)
			if !ok {
				hs = obj{}
				resp["headers"] = hs
			}

			hs[ip.Name] = h

			return nil
		}),
	)
	if err != nil {
		return err
	}

	if s.Description != nil && resp["description"] == "" {
		resp["description"] = *s.Description
	}

	return fail
}

// Op computes the expected entry of an operation, or an error if the declaration must be rejected.
func (m *Model) Op(spec OpSpec, webhook bool) (om OpModel, err error) {
	om = OpModel{Op: obj{}, Comps: map[string]interface{}{}}

	if !methods[strings.ToLower(spec.Method)] {
		return om, errModel
	}

	if spec.Own != nil {
		om.Op = parse(spec.Own).(obj)
	}

	if spec.ID != "" {
		om.Op["operationId"] = spec.ID
	}

	if spec.Sum != "" {
		om.Op["summary"] = spec.Sum
	}

	if spec.Desc != "" {
		om.Op["description"] = spec.Desc
	}

	if len(spec.Tags) > 0 {
		om.Op["tags"] = toJSON(spec.Tags)
	}

	if spec.Depr {
		om.Op["deprecated"] = true
	}

	var sec []interface{}

	for _, s := range spec.Sec {
		sc := s.Scopes
		if sc == nil {
			sc = []string{}
		}

		sec = append(sec, obj{s.Name: toJSON(sc)})
	}

	if sec != nil {
		om.Op["security"] = sec
	}

	if err := m.request(spec, &om); err != nil {
		return om, err
	}

	// Path parameters and placeholders must match.
	_, ph := CleanPath(spec.Path)
	want := map[string]bool{}

	for _, p := range ph {
		want[p] = true
	}

	params, _ := om.Op["parameters"].([]interface{})
	for _, p := range params {
		if o := p.(obj); o["in"] == "path" {
			if !want[o["name"].(string)] {
				return om, errModel
			}

			delete(want, o["name"].(string))
		}
	}

	if len(want) > 0 {
		return om, errModel
	}

	if err := m.response(spec, &om); err != nil {
		return om, err
	}

	om.Op = toJSON(om.Op).(obj)

	return om, nil
}
