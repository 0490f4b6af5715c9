package world

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"verifsim/simrt"
)

// genCtx generates declarations.
type genCtx struct {
	*Rng
	cfg  Cfg
	uniq int
	// plain restricts declarations to what both versions of OpenAPI document alike.
	plain bool
	// hooky asks for types with hook methods.
	hooky bool
	// fickle asks for types with values that fail to encode at times.
	fickle bool
	// safe leaves out what depends on the order in which fields of different types are reflected.
	safe bool
	// exact leaves out what the order of everything in the history influences.
	exact bool
	// strict leaves out what is known not to conform to the specification.
	strict bool
	// base are the operations of a document that is there from the start.
	base []*OpSpec
	// baseHooks are the names of its webhooks.
	baseHooks []string
	// used are the operations that must not be registered again.
	used map[string]bool
}

func (g *genCtx) name(p string) string {
	g.uniq++

	return p + strconv.Itoa(g.uniq)
}

var (
	jsonTypes = []string{
		"Owner", "Pet", "Node", "PagePet", "PageOwner", "PageNode", "Color", "Level", "Circle", "Square", "Shape", "AnyShape",
		"Doc", "Text", "Exposed", "Raw", "Prepared", "Holder", "Base", "Derived", "RefEmbed", "StrictBody", "Inner", "ErrResp",
		"Loose", "Combo", "Rich", "Bools", "Mixed", "Cond", "URLInfo", "UrlInfo", "Inlined", "NoName", "InPlace",
		"Company", "ChainA", "ChainB", "ChainC", "Pair",
	}
	bodyTypes = []string{
		"Owner", "Pet", "Node", "PagePet", "PageOwner", "PageNode", "Circle", "Square", "Doc", "Exposed", "Raw", "Prepared", "Holder",
		"Base", "Derived", "RefEmbed", "IntMap", "PetList", "EmbMap", "StrictBody", "ErrResp", "AnyShape", "Inner",
		"Loose", "Combo", "Rich", "Bools", "Mixed", "Cond", "URLInfo", "UrlInfo", "Inlined", "NoName", "InPlace",
		"Company", "ChainA", "ChainB", "ChainC", "Pair", "Virtual", "Fixed",
	}
	respTypes = append([]string{"Hdrs", "HdrsTitled", "PetResp", "PagedResp", "OwnerResp", "RawResp", "Empty", "IntMap", "PetList", "EmbMap", "Virtual", "VirtualResp", "Fixed"}, jsonTypes...)
	hookTypes = []string{"Exposed", "Raw", "Prepared", "Holder", "Rich", "Loose", "Bools"}
	reqTypes  = [][]string{ // At most one of each group in an operation.
		{"Paging", "ListReq"}, {"SearchReq"}, {"TreeReq"}, {"Filter"}, {"StrictReq"}, {"StrictHdr"}, {"RawBody2"},
	}
	formTypes = []string{"FormData", "FormReq", "Upload", "FormJSON", "FormOwn", "FormTree", "FormExt"}
	// valueOnly are named types that the JSON Schema library documents differently by value and by pointer.
	valueOnly = map[string]bool{"Color": true, "Level": true, "IntMap": true, "PetList": true, "EmbMap": true}
	// composite types refer to others at their root. As a request structure, they make the library add components
	// for the types that they refer to even where there is no body.
	composite = map[string]bool{"AnyShape": true, "Shape": true, "RefEmbed": true, "Combo": true, "Cond": true}
	allMeth   = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}
	bodyMeth  = []string{"put", "post", "patch", "options"}
)

func (g *genCtx) constraint(kind string, f *F) {
	add := func(k, v string) { f.G = append(f.G, [2]string{k, v}) }

	if g.P(30) {
		add("description", g.Of("Some text.", "It's \"quoted\".", "Ünïcode: ✓", "a: b # c"))
	}

	if g.P(8) {
		add("deprecated", g.Of("true", "false"))
	}

	if g.P(8) {
		add("title", g.Of("Title", "T & <t>"))
	}

	// The nullable tag of a field of a named type changes the shared definition (a quirk of jsonschema-go).
	switch kind {
	case "string", "int", "int64", "float", "float64", "bool":
		if g.P(5) {
			add(g.Of("readOnly", "writeOnly", "nullable"), "true")
		}
	}

	switch kind {
	case "map":
		switch g.N(4) {
		case 0:
			add("minProperties", strconv.Itoa(g.In(1, 3)))
		case 1:
			add("maxProperties", strconv.Itoa(g.In(4, 9)))
		}
	case "bool":
		if g.P(30) {
			add("default", g.Of("true", "false"))
		}
	case "string":
		switch g.N(9) {
		case 7:
			add("const", "abc")
		case 0:
			add("minLength", strconv.Itoa(g.In(1, 9)))
		case 1:
			add("maxLength", strconv.Itoa(g.In(10, 99)))
		case 2:
			add("pattern", g.Of("^[a-z]+$", `^\d+$`))
		case 3:
			add("format", g.Of("uuid", "email", "date-time"))
		case 4:
			add("enum", g.Of("a,b,c", "on,off"))
		case 5:
			add("default", g.Of("dflt", "yes", "1.0"))
		case 6:
			add("example", g.Of("abc", "null", "12"))
		}
	case "int", "int32", "int64", "int8", "uint", "uint16", "float32", "float64":
		switch g.N(9) {
		case 0:
			add("minimum", strconv.Itoa(g.In(0, 9)))
		case 1:
			add("maximum", strconv.Itoa(g.In(10, 99)))
		case 2:
			add("multipleOf", strconv.Itoa(g.In(1, 9)))
		case 3:
			add("exclusiveMinimum", strconv.Itoa(g.In(0, 9)))
		case 4:
			add("exclusiveMaximum", strconv.Itoa(g.In(10, 99)))
		case 5:
			add("default", strconv.Itoa(g.In(0, 99)))
		case 6:
			add("example", strconv.Itoa(g.In(0, 99)))
		case 7:
			add("enum", "1,2,3")
		}
	case "slice":
		switch g.N(5) {
		case 0:
			add("minItems", strconv.Itoa(g.In(1, 3)))
		case 1:
			add("maxItems", strconv.Itoa(g.In(4, 9)))
		case 2:
			add("uniqueItems", "true")
		}
	}
}

func (g *genCtx) scalar() T {
	return k(g.Of("string", "string", "int", "int32", "int64", "int8", "uint", "uint16", "float32", "float64", "bool", "time"))
}

func (g *genCtx) paramField(in, name string) F {
	f := F{N: g.name("F")}

	switch {
	case g.fickle && g.P(6) && !g.cfg.NoTags:
		f.T = named(g.Of("FickleDef", "FickleBody"))
	case g.P(4) && !g.safe && !g.cfg.NoTags:
		f.T = g.jsonStruct(g.In(1, 2), 1)
	case g.P(3) && !g.safe && !g.cfg.NoTags:
		f.T = named(g.Of("JFilter", "Owner", "Node", "PagePet"))
	case in == "path" && g.P(12):
		f.T = ptr(g.scalar())
	case in == "path" && g.P(10):
		f.T = named(g.Of("Color", "Level", "Text"))
	case in == "path" || g.P(60):
		f.T = g.scalar()
	case g.P(40):
		f.T = slice(k(g.Of("string", "int", "float64")))
		if g.P(15) {
			f.T.K = "array"
		}

		if g.P(60) {
			f.G = append(f.G, [2]string{"collectionFormat", g.Of("csv", "ssv", "pipes", "multi")})
		}
	case g.P(30):
		f.T = ptr(g.scalar())
	case g.P(40):
		f.T = named(g.Of("Color", "Level", "Text"))
	case in == "query" && g.P(40) && !g.safe && !g.cfg.NoTags:
		f.T = named(g.Of("JFilter", "Filter"))
	case g.P(40):
		f.T = mapOf(k(g.Of("int", "string")))
	case g.P(50):
		f.T = k("any")
	default:
		f.T = k("string")
	}

	g.constraint(f.T.K, &f)

	if g.P(4) && f.T.K != "cat" && f.T.K != "struct" { // Parameters with content must not have them.
		f.G = append(f.G, [2]string{g.Of("explode", "allowReserved", "allowEmptyValue"), g.Of("true", "false")})
	}

	if in == "path" && g.P(5) {
		f.G = append(f.G, [2]string{"required", g.Of("true", "false")})
	}

	if g.P(30) && in != "path" {
		f.G = append(f.G, [2]string{"required", g.Of("true", "true", "false")})
	}

	if g.P(6) && f.T.K != "cat" && f.T.K != "struct" && !g.safe {
		// The field is for something else as well, or not for that.
		f.G = append(f.G, [2]string{g.Of("json", "json", "formData", "contentType"), "-"})
	} else if g.P(4) && !g.safe && f.T.K != "cat" && f.T.K != "struct" {
		f.G = append(f.G, [2]string{"json", g.name("d")})
	}

	f.G = append(f.G, [2]string{in, name})

	return f
}

func (g *genCtx) jsonType(depth int) T {
	switch {
	case depth <= 0 || g.P(35):
		return g.scalar()
	case g.P(45):
		return named(g.Of(jsonTypes...))
	case g.P(30):
		return slice(g.jsonType(depth - 1))
	case g.P(30):
		return mapOf(g.jsonType(depth - 1))
	case g.P(10):
		return array(g.jsonType(depth - 1))
	case g.P(30):
		t := g.jsonType(depth - 1)
		if t.K == "ptr" || t.K == "any" || valueOnly[t.N] {
			return t
		}

		return ptr(t)
	case g.P(20):
		return k(g.Of("bytes", "any", "raw"))
	default:
		return g.jsonStruct(g.In(1, 3), depth-1)
	}
}

func (g *genCtx) jsonField(depth int) F {
	f := F{N: g.name("J"), T: g.jsonType(depth)}
	g.constraint(f.T.K, &f)

	n := g.name("j")

	switch {
	case g.P(15):
		n += ",omitempty"
	case g.P(20):
		f.G = append(f.G, [2]string{"required", "true"})
	}

	if g.P(5) {
		f.G = append(f.G, [2]string{g.Of("query", "header", "path", "cookie"), "-"})
	} else if g.P(4) {
		n = "-"
	}

	f.G = append(f.G, [2]string{"json", n})

	return f
}

func (g *genCtx) jsonStruct(n, depth int) T {
	t := T{K: "struct"}
	for i := 0; i < n; i++ {
		t.F = append(t.F, g.jsonField(depth))
	}

	return t
}

// op generates an operation that must be accepted.
func (g *genCtx) op(method, path string) *OpSpec {
	s := &OpSpec{Method: method, Path: path}

	g.meta(s)

	_, ph := CleanPath(path)

	var (
		pt   T
		used = map[string]bool{}
	)

	pt.K = "struct"

	for _, p := range ph {
		pt.F = append(pt.F, g.paramField("path", p))
	}

	for i := g.many(2, 9); i > 0; i-- {
		in := g.Of("query", "query", "header", "cookie")
		n := g.name("p")

		if in == "header" {
			n = g.headerName(n)
		}

		pt.F = append(pt.F, g.paramField(in, n))
	}

	cu := CU{Ptr: g.P(80), Desc: g.desc()}

	if g.P(15) && len(pt.F) > 0 { // Names of parameters come from a mapping.
		cu.Map = map[string]map[string]string{}
		g.mapped(&pt.F[g.N(len(pt.F))], cu.Map)

		for i := range pt.F {
			if tag := pt.F[i].G; g.P(30) && len(tag) > 0 {
				if _, ok := inNames[tag[len(tag)-1][0]]; ok {
					g.mapped(&pt.F[i], cu.Map)
				}
			}
		}
	}

	hasBody := false // Whether the method has a request body.

	for _, m := range bodyMeth {
		hasBody = hasBody || strings.EqualFold(m, method)
	}

	mixed := hasBody && g.P(30)
	if mixed && g.P(25) {
		f := g.formStruct()
		pt.F = append(pt.F, f.F...)

		if g.P(40) {
			cu.CT = g.Of("application/x-www-form-urlencoded", "multipart/form-data")
		}
	} else if mixed {
		for i := 1 + g.many(1, 6); i > 0; i-- {
			pt.F = append(pt.F, g.jsonField(2))
		}

		if g.P(30) && !g.plain {
			cu.CT = "application/json"
		}
	}

	if len(pt.F) > 0 {
		cu.T = &pt
		s.Req = append(s.Req, cu)
	}

	for i := range reqTypes {
		if g.P(10) {
			n := g.Of(reqTypes[i]...)
			if used[n] || g.cfg.NoTags {
				continue
			}

			t := named(n)
			s.Req = append(s.Req, CU{T: &t, Ptr: g.P(80)})
		}
	}

	if (hasBody || g.P(5)) && !mixed {
		cu := g.body()
		if cu.T != nil && composite[cu.T.N] && (!hasBody || g.safe) {
			cu.T.N = "Owner"
		}

		s.Req = append(s.Req, cu)
	} else if g.P(8) {
		t := named("BodyGet")
		s.Req = append(s.Req, CU{T: &t, Ptr: true, Desc: g.desc()})
	}

	if len(s.Req) > 1 && g.P(30) {
		p := g.Perm(len(s.Req))
		r := make([]CU, len(s.Req))

		for i, j := range p {
			r[i] = s.Req[j]
		}

		s.Req = r
	}

	// What a reference is to become once more content is added to it is not defined.
	for i := range s.Req {
		if i+1 < len(s.Req) {
			s.Req[i].Ref = ""
		}
	}

	for i := range s.Req { // A file that is not sent as a form.
		t := s.Req[i].T
		if g.P(4) && !g.safe && t != nil && t.K == "struct" && len(t.F) > 0 {
			if _, ok := t.F[len(t.F)-1].get("json"); ok {
				t.F = append(t.F, F{N: g.name("File"), T: k(g.Of("file", "fileh")), G: [][2]string{{"json", g.name("file")}}})
			}
		}
	}

	g.responses(s)

	for _, l := range [][]CU{s.Req, s.Resp} {
		for i := range l {
			if l[i].T != nil && valueOnly[l[i].T.N] {
				l[i].Ptr = false
			}

			l[i].Nil = l[i].Ptr && g.P(10)
		}
	}

	return s
}

// many0 is a list or a map of something.
func (g *genCtx) many0(t T) T {
	if g.P(50) {
		return mapOf(t)
	}

	return slice(t)
}

// many is a small number, rarely a larger one.
func (g *genCtx) many(few, max int) int {
	if g.P(7) {
		return g.In(few+1, max)
	}

	return g.N(few + 1)
}

func (g *genCtx) headerName(n string) string {
	return g.Of("X-", "x-", "X-", "X-UP-", "ETAG") + n
}

var inNames = map[string]bool{"path": true, "query": true, "header": true, "cookie": true, "formData": true}

// mapped makes the name of a field come from a mapping instead of its tag, the last one.
func (g *genCtx) mapped(f *F, m map[string]map[string]string) {
	if len(f.G) == 0 || !inNames[f.G[len(f.G)-1][0]] {
		return
	}

	tag := f.G[len(f.G)-1]
	f.G = f.G[:len(f.G)-1]

	if m[tag[0]] == nil {
		m[tag[0]] = map[string]string{}

		if g.P(40) { // There is no such field.
			m[tag[0]]["Unrelated"] = "unrelated"
		}
	}

	m[tag[0]][f.N] = tag[1]
}

// formStruct is a structure with form fields.
func (g *genCtx) formStruct() T {
	t := T{K: "struct"}
	tag := g.Of("formData", "formData", "form")

	for i := 1 + g.many(3, 9); i > 0; i-- {
		f := F{N: g.name("P"), T: g.scalar()}

		switch {
		case g.P(15):
			f.T = slice(k(g.Of("string", "int", "float64")))
		case g.P(10):
			f.T = ptr(f.T)
		case g.P(8):
			f.T = mapOf(k(g.Of("string", "bool")))
		case g.P(8) && tag == "formData":
			f.T = k(g.Of("file", "fileh"))
		case g.P(8):
			f.T = named("Unit")
		}

		g.constraint(f.T.K, &f)

		if g.P(40) {
			f.G = append(f.G, [2]string{"required", "true"})
		}

		f.G = append(f.G, [2]string{tag, g.name("f")})
		t.F = append(t.F, f)
	}

	return t
}

func (g *genCtx) desc() string {
	if g.P(25) {
		return g.Of("Described.", " spaced ", "Says: \"hi\"", "línea ✓", "x: y # z", "'", "multi\nline",
			strings.Repeat("A long line of text, ", 12))
	}

	return ""
}

func (g *genCtx) meta(s *OpSpec) {
	if g.P(40) {
		s.ID = g.name("op")

		if g.P(8) {
			s.ID = "sameOp"
		}
	}

	if g.P(40) {
		s.Sum = g.Of("Summary", "Does \"it\"", "Súm ✓", "yes", "1", "- a") + g.name(" ")
	}

	s.Desc = g.desc()

	for i := g.many(2, 5); i > 0 && g.P(60); i-- {
		s.Tags = append(s.Tags, g.Of("pets", "owners", "a b", "ünï", "Pets", " pets "))
	}

	s.Depr = g.P(10)
	s.Draft = g.P(10)

	if g.P(12) {
		s.Own = g.own()
	}

	for i := g.many(2, 6); i > 0 && g.P(40); i-- {
		sec := Sec{Name: g.Of("basic", "token", "key")}
		if g.P(40) {
			sec.Scopes = []string{g.Of("read", "write"), "admin"}[:g.In(1, 2)]
		}

		s.Sec = append(s.Sec, sec)
	}
}

// own is what is set directly in an operation.
func (g *genCtx) own() json.RawMessage {
	o := obj{"responses": obj{}, "x-own": g.name("own")}

	if g.P(30) {
		o["externalDocs"] = obj{"url": "https://example.com/" + g.name("docs"), "description": "Docs."}
	}

	if g.P(30) {
		o["servers"] = []interface{}{obj{"url": "https://{host}/", "variables": obj{"host": obj{"default": "a", "enum": []interface{}{"a", "b"}}}}}
	}

	if g.P(30) {
		o["parameters"] = []interface{}{obj{"name": g.name("own"), "in": g.Of("query", "cookie"), "schema": obj{"type": "string"}}}
	}

	if g.P(40) {
		o["responses"] = obj{g.Of("200", "404", "default", "418", "4XX"): obj{"description": "Own."}}
	}

	if g.P(20) {
		o["callbacks"] = obj{"done": obj{"{$request.query.url}": obj{"post": obj{"responses": obj{"204": obj{"description": "Fine."}}}}}}
	}

	return json.RawMessage(canon(o))
}

func (g *genCtx) body() CU {
	cu := CU{Ptr: g.P(75), Desc: g.desc()}

	pick := g.N(10)
	if g.hooky && g.P(60) {
		pick = 20
	}

	switch {
	case pick == 20:
		t := named(g.Of(hookTypes...))
		if g.fickle && g.P(20) {
			t.N = g.Of("FickleDef", "FickleBody")
		}

		cu.T = &t
	case pick < 4:
		t := named(g.Of(bodyTypes...))
		cu.T = &t
	case pick < 5:
		t := g.jsonStruct(1+g.many(3, 9), 2)
		cu.T = &t
	case pick < 6:
		t := slice(g.jsonType(1))
		if g.P(25) && !g.safe {
			t = g.scalar()
		} else if g.P(20) && !g.safe {
			t = g.many0(named(g.Of("FormOwn", "Hdrs", "RawBody2")))
		}

		cu.T = &t
	case pick < 7:
		t := mapOf(g.jsonType(1))
		cu.T = &t
	case pick < 9:
		t := named(g.Of(formTypes...))
		cu.T = &t

		if g.P(25) {
			cu.CT = g.Of("application/x-www-form-urlencoded", "multipart/form-data")
		}

		if t.N == "FormReq" || t.N == "FormData" {
			cu.Ptr = true
		}

		if g.P(45) {
			t = g.formStruct()
			cu.T = &t

			if g.P(20) {
				cu.Map = map[string]map[string]string{}

				for i := range t.F {
					if i > 0 && g.P(50) { // One is left with a tag.
						g.mapped(&t.F[i], cu.Map)
					}
				}
			}
		}
	default:
		if g.P(50) {
			t := named("RawBody")
			cu.T = &t
		} else {
			cu.CT = g.Of("text/plain", "application/octet-stream", "text/csv", "image/png", "Text/Markdown", "application/vnd.API+json", "application/json; charset=utf-8", "multipart/mixed")
			cu.Format = g.Of("", "binary", "byte")
		}
	}

	if g.P(6) {
		cu.Ref = g.Of("BodyA", "BodyB")
	} else if g.P(8) {
		cu.CDesc = "Customized."
	} else if g.P(8) {
		cu.Mark = g.name("mark")
	} else if g.P(6) {
		cu.Blank = g.blank()
	}

	return cu
}

func (g *genCtx) blank() string {
	if g.strict {
		return "content"
	}

	return g.Of("all", "content")
}

func (g *genCtx) responses(s *OpSpec) {
	n := g.many(3, 9)

	for i := 0; i < n; i++ {
		cu := CU{Ptr: g.P(75), Desc: g.desc()}

		switch g.N(12) {
		case 0:
			cu.Def = true

			if g.P(25) {
				cu.Status = []int{200, 404, 500, 4}[g.N(4)]
			}
		case 1:
			cu.Status = g.In(1, 5)
		case 2, 3:
		default:
			cu.Status = []int{200, 201, 202, 204, 301, 400, 404, 409, 500, 503, 100, 226, 299, 418, 599}[g.N(15)]
		}

		pick := g.N(12)
		if g.hooky && g.P(40) {
			pick = 20
		}

		switch {
		case pick == 20:
			t := named(g.Of(hookTypes...))
			if g.fickle && g.P(20) {
				t.N = g.Of("FickleDef", "FickleBody")
			}

			cu.T = &t
		case pick < 6:
			t := named(g.Of(respTypes...))
			cu.T = &t
		case pick < 7:
			t := slice(g.jsonType(1))
			if g.P(35) {
				t = g.scalar()
			} else if g.P(20) && !g.safe {
				t = g.many0(named(g.Of("FormOwn", "Hdrs", "RawBody2")))
			}

			cu.T = &t
		case pick < 8:
			t := g.jsonStruct(1+g.many(2, 6), 2)
			for j := g.many(2, 6); j > 0; j-- {
				t.F = append(t.F, g.paramField("header", g.headerName(g.name("R"))))
			}

			cu.T = &t
		case pick < 9:
			cu.Prep = &Prep{Status: []int{0, 200, 206}[g.N(3)], Type: g.Of("", "application/vnd.x+json")}
			cu.Ptr = false
		case pick < 10:
			cu.CT = g.Of("text/plain", "text/html", "application/pdf", "image/png", "Text/Markdown", "application/octet-stream", "text/plain ; charset=utf-8", "application/vnd.API+json")
			cu.Format = g.Of("", "binary")
		}

		if cu.T != nil && g.P(20) && cu.T.N != "RawResp" {
			cu.CT = g.Of("application/json", "application/xml", "application/json; charset=utf-8", "application/problem+json", "Application/JSON")
		}

		if g.P(5) {
			cu.Ref = g.Of("RespA", "RespB")
		} else if g.P(8) {
			cu.CDesc = "Customized."
		} else if g.P(8) {
			cu.Mark = g.name("mark")
		} else if g.P(6) {
			cu.Blank = g.blank()
		}

		s.Resp = append(s.Resp, cu)
	}
}

func (g *genCtx) genCfg() Cfg {
	c := Cfg{}

	if g.P(15) {
		c.NoTags = true
	}

	if g.P(15) {
		c.Inline = []string{g.Of("Owner", "Circle", "Square", "Base", "Unit", "FormOwn")}
	}

	if g.P(15) {
		c.Strip = g.Of("Cat", "Verifsim")
	}

	if g.P(15) {
		c.Rename = g.Of("V2", "_x", " (y)")
	}

	c.Map = g.P(15)
	c.Bare = g.P(12)
	c.EnvNull = g.P(12) && !g.safe && !g.exact
	g.cfg = c

	return c
}

var pathPool = []string{
	"/things", "/things/{id}", "/things/{id:[0-9]+}", "/things/{id}/sub", "/a/{x}/{y}", "/a/{x:.*}/{y:[a-z]+}",
	"/files/{name:.+}", "/files/{name}", "/pets/{petId}/toys/{toyId:\\d+}", "/", "/things/", "/with-dash_and.dot", "/ünï/{id}", "/codes/{code:[A-Z]{2}\\d{3}}",
}

// path makes a path that is not used yet.
func (g *genCtx) path() string {
	p := g.Of(pathPool...)

	return "/" + g.name("r") + p
}

func (g *genCtx) method() string {
	m := g.Of("get", "post", "put", "patch", "post", "delete", "options", "head", "trace", "get")
	switch g.N(5) {
	case 0:
		return strings.ToUpper(m)
	case 1:
		return strings.ToUpper(m[:1]) + m[1:]
	}

	return m
}

// sched makes a random schedule of n switches over the given number of points.
func (g *genCtx) sched(n, points, clients int) []simrt.Switch {
	if clients < 2 {
		return nil
	}

	at := map[int]bool{}
	for i := 0; i < n; i++ {
		at[g.In(1, points)] = true
	}

	var l []simrt.Switch

	for p := 1; p <= points; p++ {
		if at[p] {
			l = append(l, simrt.Switch{At: uint64(p), To: g.N(clients)})
		}
	}

	return l
}

// genSched is sched for a large number of points.
func (g *genCtx) bigSched(n int, points uint64, clients int) []simrt.Switch {
	if clients < 2 || points == 0 {
		return nil
	}

	at := make([]uint64, 0, n)
	for i := 0; i < n; i++ {
		at = append(at, 1+g.U64()%points)
	}

	for i := range at { // Insertion sort: short lists.
		for j := i; j > 0 && at[j] < at[j-1]; j-- {
			at[j], at[j-1] = at[j-1], at[j]
		}
	}

	var l []simrt.Switch
	for _, a := range at {
		l = append(l, simrt.Switch{At: a, To: g.N(clients)})
	}

	return l
}

// Gen makes the plan of a run: a function of property, seed and index only.
func Gen(prop string, seed uint64, idx int) Plan {
	num, err := strconv.Atoi(prop[1:])
	if err != nil {
		panic(err)
	}

	g := &genCtx{Rng: NewRng(seed, uint64(num), uint64(idx))}
	p := Plan{Prop: prop, Ver: g.Of("3.0", "3.1"), MapSeed: g.U64()}

	f, ok := props[prop]
	if !ok {
		panic(fmt.Sprintf("no property %s", prop))
	}

	f.gen(g, &p, idx)

	return p
}
