package world

import "strings"

// A grammar of what documents may contain, written from the OpenAPI specifications. Each entry names the members
// of an object: "name type", required members have "!". Types: s string, b boolean, n number, i count, any, uri,
// [T] list, {T} map with arbitrary keys, (a|b) enumeration, T? of an object or a reference to it.
// "x" allows extensions.

const gram30 = `
Spec: openapi! =3.0.3; info! Info; externalDocs ExternalDocs; servers [Server]; security [Sec]; tags [Tag]; paths! Paths; components Components; x
Info: title! s; description s; termsOfService uri; contact Contact; license License; version! s; x
Contact: name s; url uri; email s; x
License: name! s; url uri; x
ExternalDocs: description s; url! uri; x
Server: url! uri; description s; variables {Var}; x
Var: enum [s]; default! s; description s; x
Tag: name! s; description s; externalDocs ExternalDocs; x
PathItem: summary s; description s; servers [Server]; parameters [Parameter?]; get Operation; put Operation; post Operation; delete Operation; options Operation; head Operation; patch Operation; trace Operation; x
Operation: tags [s]; summary s; description s; externalDocs ExternalDocs; operationId s; parameters [Parameter?]; requestBody RequestBody?; responses! Responses; callbacks {Callback?}; deprecated b; security [Sec]; servers [Server]; x
RequestBody: description s; content! {MediaType}; required b; x
MediaType: schema Schema?; example any; examples {Example?}; encoding {Encoding}; x
Encoding: contentType s; headers {Header}; style (form|spaceDelimited|pipeDelimited|deepObject); explode b; allowReserved b
Example: summary s; description s; value any; externalValue uri; x
Response: description! s; headers {Header?}; content {MediaType}; links {Link?}; x
Components: schemas [Schema?]; responses [Response?]; parameters [Parameter?]; examples [Example?]; requestBodies [RequestBody?]; headers [Header?]; securitySchemes [SecScheme?]; links [Link?]; callbacks [Callback?]; x
Schema: title s; multipleOf n; maximum n; exclusiveMaximum b; minimum n; exclusiveMinimum b; maxLength i; minLength i; pattern s; maxItems i; minItems i; uniqueItems b; maxProperties i; minProperties i; required [s]; enum [any]; type (array|boolean|integer|number|object|string); not Schema?; allOf [Schema?]; oneOf [Schema?]; anyOf [Schema?]; items Schema?; properties {Schema?}; additionalProperties SchemaOrBool; description s; format s; default any; nullable b; discriminator Discriminator; readOnly b; writeOnly b; example any; externalDocs ExternalDocs; deprecated b; xml XML; x
Discriminator: propertyName! s; mapping {s}
XML: name s; namespace uri; prefix s; attribute b; wrapped b; x
Flows: implicit ImplicitFlow; password PasswordFlow; clientCredentials PasswordFlow; authorizationCode CodeFlow; x
ImplicitFlow: authorizationUrl! uri; refreshUrl uri; scopes! {s}; x
PasswordFlow: tokenUrl! uri; refreshUrl uri; scopes {s}; x
CodeFlow: authorizationUrl! uri; tokenUrl! uri; refreshUrl uri; scopes {s}; x
`

const gram31 = `
Spec: openapi! =3.1.0; info! Info; jsonSchemaDialect uri; servers [Server]; paths Paths; webhooks {PathItem?}; components Components; security [Sec]; tags [Tag]; externalDocs ExternalDocs; x
Info: title! s; summary s; description s; termsOfService uri; contact Contact; license License; version! s; x
Contact: name s; url uri; email s; x
License: name! s; identifier s; url uri; x
ExternalDocs: description s; url! uri; x
Server: url! uri; description s; variables {Var}; x
Var: enum [s]; default! s; description s; x
Tag: name! s; description s; externalDocs ExternalDocs; x
PathItem: summary s; description s; servers [Server]; parameters [Parameter?]; get Operation; put Operation; post Operation; delete Operation; options Operation; head Operation; patch Operation; trace Operation; x
Operation: tags [s]; summary s; description s; externalDocs ExternalDocs; operationId s; parameters [Parameter?]; requestBody RequestBody?; responses Responses; callbacks {Callback?}; deprecated b; security [Sec]; servers [Server]; x
RequestBody: description s; content! {MediaType}; required b; x
MediaType: schema Schema; encoding {Encoding}; example any; examples {Example?}; x
Encoding: contentType s; headers {Header?}; style (form|spaceDelimited|pipeDelimited|deepObject); explode b; allowReserved b
Example: summary s; description s; value any; externalValue uri; x
Response: description! s; headers {Header?}; content {MediaType}; links {Link?}; x
Components: schemas {Schema}; responses [Response?]; parameters [Parameter?]; examples [Example?]; requestBodies [RequestBody?]; headers [Header?]; securitySchemes [SecScheme?]; links [Link?]; callbacks [Callback?]; pathItems [PathItem?]
Flows: implicit ImplicitFlow; password PasswordFlow; clientCredentials PasswordFlow; authorizationCode CodeFlow; x
ImplicitFlow: authorizationUrl! uri; refreshUrl uri; scopes! {s}; x
PasswordFlow: tokenUrl! uri; refreshUrl uri; scopes! {s}; x
CodeFlow: authorizationUrl! uri; tokenUrl! uri; refreshUrl uri; scopes! {s}; x
`

type member struct {
	name, typ string
	must      bool
}

func parseGram(s string) map[string][]member {
	m := map[string][]member{}

	for _, l := range strings.Split(strings.TrimSpace(s), "\n") {
		i := strings.Index(l, ": ")

		for _, f := range strings.Split(l[i+2:], "; ") {
			p := strings.SplitN(f, " ", 2)
			e := member{name: strings.TrimSuffix(p[0], "!"), must: strings.HasSuffix(p[0], "!")}

			if len(p) == 2 {
				e.typ = p[1]
			}

			m[l[:i]] = append(m[l[:i]], e)
		}
	}

	return m
}

var grams = map[string]map[string][]member{"3.0": parseGram(gram30), "3.1": parseGram(gram31)}

// ent generates documents.
type ent struct {
	*genCtx
	ver  string
	g    map[string][]member
	left int // size that is left
	rich int // percentage of optional members
}

func (e *ent) doc() obj {
	return e.object("Spec", 0)
}

var entStrings = []string{
	"", "text", "two words", "yes", "no", "on", "null", "~", "1", "1.5", "0x1F", "017", "1e3", "true", "12:30:45", "2001-01-01",
	"a: b", "# c", "- d", "'", "\"", "it's \"quoted\"", "multi\nline", "multi\n\n  indented\n", "trailing ", " leading", "\ttab",
	"ünï ✓ 漢字 😀", "{", "[x]", "&a", "*b", "!c", "%d", "@e", "`f`", "|", ">", "?", "<<", "=", ".inf", "NaN", "\\d+\\.\\w", "<b>&amp;</b>",
	"a\u2028b", "a\u0085b", "\ufeffbom", "a\x00b", "a\x1bb", "\r\n", "y", "1_000", "+1", "-", "--- x", "...", "0", "-0", "0.0",
}

func (e *ent) str() string {
	if e.P(60) {
		return e.name("s")
	}

	if e.P(2) {
		return e.long()
	}

	return e.Of(entStrings...)
}

// long is text longer than what fits in a line, or in a buffer.
func (e *ent) long() string {
	w := e.Of("word ", "unbroken", "two  spaces ", "line\n", "ünï✓ ", "\"'", "a: b ", " # ", "- ")
	if e.P(5) {
		return strings.Repeat(w, 70000/len(w))
	}

	return strings.Repeat(w, e.In(10, 60))
}

func (e *ent) key() string {
	if e.P(70) {
		return e.name("k")
	}

	if e.P(2) {
		return e.name("k") + strings.Repeat(e.Of("long", " key", "-k", "ü"), e.In(10, 80))
	}

	for {
		// The YAML library does not quote the merge key: a known finding.
		if k := e.Of(entStrings...); k != "" && k != "<<" {
			return k
		}
	}
}

func (e *ent) compKey() string {
	return e.Of("Comp", "comp-", "c_", "c.", "1") + e.name("")
}

func (e *ent) num() interface{} {
	switch e.N(6) {
	case 0:
		return 0.0
	case 1:
		return -1.5
	case 2:
		return 1e21
	case 3:
		return 123456789.0
	case 4:
		return 1e-7
	}

	return float64(e.N(1000))
}

// any is any JSON value, as far as the range of floating point numbers goes.
func (e *ent) any(depth int, null bool) interface{} {
	e.left--

	switch pick := e.N(8); {
	case pick == 0 && null:
		return nil
	case pick <= 1:
		return e.P(50)
	case pick <= 3:
		return e.num()
	case pick == 4 && depth > 0:
		l := []interface{}{}
		for i := e.N(3); i > 0; i-- {
			l = append(l, e.any(depth-1, true))
		}

		return l
	case pick == 5 && depth > 0:
		o := obj{}
		for i := e.N(3); i > 0; i-- {
			o[e.key()] = e.any(depth-1, true)
		}

		return o
	}

	return e.str()
}

func (e *ent) ref(kind string) obj {
	o := obj{"$ref": "#/components/" + kind + "/" + e.name("r")}
	if e.P(20) {
		o["$ref"] = e.Of("other.yaml", "https://example.com/x.json#/a~1b", "#/components/schemas/Any", "../x y.yaml")
	}

	if e.ver == "3.1" && e.P(20) {
		o["summary"] = e.str()
	}

	if e.ver == "3.1" && e.P(20) {
		o["description"] = e.str()
	}

	return o
}

func (e *ent) ext(o obj) {
	for e.P(8) {
		o["x-"+e.key()] = e.any(2, true)
	}
}

func (e *ent) value(typ string, depth int) interface{} {
	e.left--

	switch {
	case typ == "s":
		return e.str()
	case typ == "uri":
		return e.Of("https://example.com/", "https://example.com/a?b=c&d", "/rel", "urn:x:"+e.name(""))
	case typ == "b":
		return e.P(50)
	case typ == "n":
		return e.num()
	case typ == "i":
		return float64(e.N(100))
	case typ == "any":
		return e.any(2, false)
	case typ[0] == '=':
		return typ[1:]
	case typ[0] == '(':
		return e.Of(strings.Split(typ[1:len(typ)-1], "|")...)
	case typ == "Sec":
		o := obj{}
		for i := e.N(3); i > 0; i-- {
			l := []interface{}{}
			for j := e.N(3); j > 0; j-- {
				l = append(l, e.str())
			}

			o[e.key()] = l
		}

		return o
	case typ[0] == '[' && depth == -1: // Components.
		o := obj{}
		for i := e.In(1, 3); i > 0; i-- {
			o[e.compKey()] = e.value(typ[1:len(typ)-1], 1)
		}

		return o
	case typ[0] == '[':
		l := []interface{}{}
		for i := e.In(1, 2); i > 0; i-- {
			l = append(l, e.value(typ[1:len(typ)-1], depth+1))
		}

		return l
	case typ[0] == '{':
		o := obj{}

		n := e.In(1, 2)
		if e.left < 0 {
			n = 1
		}

		for ; n > 0; n-- {
			k := e.key()
			if depth == -1 {
				k = e.compKey()
			}

			o[k] = e.value(typ[1:len(typ)-1], depth+1)
		}

		return o
	case strings.HasSuffix(typ, "?"):
		typ = strings.TrimSuffix(typ, "?")
		if e.P(25) || e.left < 0 && e.P(70) {
			kinds := map[string]string{
				"Schema": "schemas", "Parameter": "parameters", "Response": "responses", "Example": "examples", "Header": "headers",
				"RequestBody": "requestBodies", "Link": "links", "Callback": "callbacks", "SecScheme": "securitySchemes", "PathItem": "pathItems",
			}

			return e.ref(kinds[typ])
		}
	}

	switch typ {
	case "Parameter":
		return e.param(depth)
	case "Header":
		return e.header(depth)
	case "SchemaOrBool":
		if e.P(40) {
			return e.P(50)
		}

		return e.value("Schema?", depth)
	case "Link":
		return e.link(depth)
	case "Callback":
		o := obj{}
		for i := e.In(1, 2); i > 0; i-- {
			t := "PathItem"
			if e.ver == "3.1" {
				t = "PathItem?"
			}

			o["{$request.body#/"+e.name("cb")+"}"] = e.value(t, depth+1)
		}

		e.ext(o)

		return o
	case "SecScheme":
		return e.secScheme(depth)
	case "Paths":
		o := obj{}
		for i := e.In(0, 2); i > 0; i-- {
			p := "/" + e.name("p") + e.Of("", "/{id}", "/a b", "/ünï", "/x-y")

			pi := e.object("PathItem", depth+1)
			if e.ver == "3.0" && e.P(10) {
				pi["$ref"] = "other.yaml"
			}

			o[p] = pi
		}

		e.ext(o)

		return o
	case "Responses":
		o := obj{}
		if e.P(30) {
			o["default"] = e.value("Response?", depth+1)
		}

		for i := e.N(3); i > 0; i-- {
			o[e.Of("200", "201", "404", "500", "1XX", "2XX", "4XX", "599")] = e.value("Response?", depth+1)
		}

		e.ext(o)

		return o
	}

	if typ == "Schema" && e.ver == "3.1" {
		return e.schema31(2)
	}

	return e.object(typ, depth)
}

func (e *ent) object(typ string, depth int) obj {
	ms, ok := e.g[typ]
	if !ok {
		panic("no grammar for " + typ)
	}

	o := obj{}

	for _, m := range ms {
		if m.name == "x" {
			e.ext(o)

			continue
		}

		if !m.must {
			p := e.rich
			if depth > 3 {
				p /= 2
			}

			if e.left < 0 || !e.P(p) {
				continue
			}
		}

		d := depth + 1
		if typ == "Components" {
			d = -1
		}

		o[m.name] = e.value(m.typ, d)
	}

	if typ == "Example" && o["value"] != nil {
		// They exclude each other.
		delete(o, "externalValue")
	}

	return o
}

// contentOr sets schema or content, and examples.
func (e *ent) contentOr(o obj, depth int) {
	if e.P(70) {
		typ := "Schema?"
		if e.ver == "3.1" {
			typ = "Schema"
		}

		o["schema"] = e.value(typ, depth+1)

		if e.P(15) {
			o["example"] = e.any(1, false)
		} else if e.P(15) {
			o["examples"] = e.value("{Example?}", depth+1)
		}
	} else {
		o["content"] = obj{e.Of("application/json", "text/plain"): e.value("MediaType", depth+1)}
	}
}

func (e *ent) param(depth int) obj {
	in := e.Of("query", "path", "header", "cookie")
	o := obj{"name": e.str(), "in": in}

	if in == "path" {
		o["required"] = true
	} else if e.P(30) {
		o["required"] = e.P(50)
	}

	for _, n := range []string{"deprecated", "explode"} {
		if e.P(20) {
			o[n] = e.P(50)
		}
	}

	if e.ver == "3.0" && in == "query" {
		for _, n := range []string{"allowEmptyValue", "allowReserved"} {
			if e.P(20) {
				o[n] = e.P(50)
			}
		}
	}

	if e.P(20) {
		o["description"] = e.str()
	}

	e.contentOr(o, depth)

	if e.P(40) {
		switch in {
		case "query":
			o["style"] = e.Of("form", "spaceDelimited", "pipeDelimited", "deepObject")
		case "path":
			if e.ver == "3.0" {
				o["style"] = e.Of("matrix", "label", "simple")
			}
		case "header":
			if e.ver == "3.0" {
				o["style"] = "simple"
			}
		case "cookie":
			o["style"] = "form"
		}
	}

	e.ext(o)

	return o
}

func (e *ent) header(depth int) obj {
	o := obj{"style": "simple"}

	names := []string{"required", "deprecated", "explode"}
	if e.ver == "3.0" {
		names = append(names, "allowEmptyValue", "allowReserved")
	}

	for _, n := range names {
		if e.P(20) {
			o[n] = e.P(50)
		}
	}

	if e.P(20) {
		o["description"] = e.str()
	}

	e.contentOr(o, depth)
	e.ext(o)

	return o
}

func (e *ent) link(depth int) obj {
	o := obj{}

	if e.P(50) {
		o["operationId"] = e.str()
	} else {
		o["operationRef"] = "#/paths/x"
	}

	if e.P(40) {
		typ := "{any}"
		if e.ver == "3.1" {
			typ = "{s}"
		}

		o["parameters"] = e.value(typ, depth+1)
	}

	if e.P(30) {
		o["requestBody"] = e.any(2, false)
	}

	if e.P(30) {
		o["description"] = e.str()
	}

	if e.P(20) && e.ver == "3.0" {
		o["server"] = e.object("Server", depth+1)
	}

	e.ext(o)

	return o
}

func (e *ent) secScheme(depth int) obj {
	var o obj

	switch e.N(6) {
	case 0:
		o = obj{"type": "apiKey", "name": e.str(), "in": e.Of("header", "query", "cookie")}
	case 1:
		o = obj{"type": "http", "scheme": e.Of("basic", "digest", "hoba")}
	case 2:
		o = obj{"type": "http", "scheme": "bearer"}
		if e.P(50) {
			o["bearerFormat"] = e.str()
		}
	case 3:
		o = obj{"type": "oauth2", "flows": e.object("Flows", depth+1)}
	case 4:
		o = obj{"type": "openIdConnect", "openIdConnectUrl": "https://example.com/.well-known"}
	default:
		if e.ver == "3.0" {
			return e.secScheme(depth)
		}

		o = obj{"type": "mutualTLS"}
	}

	if e.P(30) {
		o["description"] = e.str()
	}

	e.ext(o)

	return o
}

func (e *ent) schema31(depth int) obj {
	o := obj{}

	for i := e.In(1, 4); i > 0; i-- {
		switch e.N(12) {
		case 0:
			o["type"] = e.Of("string", "object", "integer")
		case 1:
			o["type"] = []interface{}{"null", "array"}
		case 2:
			o["enum"] = []interface{}{e.any(1, true), e.any(1, true)}
		case 3:
			o["const"] = e.any(2, true)
		case 4:
			o["$ref"] = "#/components/schemas/" + e.name("S")
		case 5:
			o["default"] = e.any(2, true)
		case 6:
			o["examples"] = []interface{}{e.any(2, true)}
		case 7:
			o[e.Of("minimum", "exclusiveMaximum", "multipleOf")] = e.num()
		case 8:
			o["description"] = e.str()
		case 9:
			o["x-"+e.key()] = e.any(2, true)
		case 10:
			if depth > 0 {
				p := obj{}
				for j := e.N(3); j > 0; j-- {
					p[e.key()] = e.schema31(depth - 1)
				}

				o[e.Of("properties", "$defs", "patternProperties")] = p
			}
		case 11:
			if depth > 0 {
				o[e.Of("items", "not", "additionalProperties")] = e.schema31(depth - 1)
			} else {
				o["additionalProperties"] = e.P(50)
			}
		}
	}

	return o
}

// entDoc generates a document of a version.
func (g *genCtx) entDoc(ver string) obj {
	e := &ent{genCtx: g, ver: ver, g: grams[ver], left: []int{15, 60, 200, 500}[g.N(4)], rich: []int{15, 30, 60}[g.N(3)]}
	d := e.doc()

	if ver == "3.1" && d["paths"] == nil && d["webhooks"] == nil && d["components"] == nil {
		d["paths"] = obj{}
	}

	// Every kind of object gets its share, however deep it is in the grammar.
	for e.P(60) {
		kinds := [][2]string{
			{"schemas", "Schema"}, {"responses", "Response"}, {"parameters", "Parameter"}, {"examples", "Example"},
			{"requestBodies", "RequestBody"}, {"headers", "Header"}, {"securitySchemes", "SecScheme"}, {"links", "Link"},
			{"callbacks", "Callback"}, {"pathItems", "PathItem"},
		}

		if ver == "3.0" {
			kinds = kinds[:9]
		}

		k := kinds[e.N(len(kinds))]
		e.left, e.rich = 30, 50

		c, ok := d["components"].(obj)
		if !ok {
			c = obj{}
			d["components"] = c
		}

		l, ok := c[k[0]].(obj)
		if !ok {
			l = obj{}
			c[k[0]] = l
		}

		l[e.compKey()] = e.value(k[1], 1)
	}

	return d
}
