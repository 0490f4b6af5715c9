// Package cat is a catalogue of named Go types that simulated clients declare in their operations.
package cat

import (
	"encoding/json"
	"errors"
	"mime/multipart"
	"reflect"
	"time"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
)

// Hook is called whenever a hook method of a catalogue type is called.
var Hook func(kind, typ string) error

func hook(kind, typ string) error {
	if Hook == nil {
		return nil
	}

	return Hook(kind, typ)
}

type Owner struct {
	Name  string `json:"name" minLength:"1" required:"true"`
	Age   *int   `json:"age,omitempty" minimum:"0" maximum:"150"`
	Email string `json:"email,omitempty" format:"email" description:"Where to write to."`
}

type Pet struct {
	ID      int64            `json:"id" required:"true" example:"123"`
	Name    string           `json:"name" pattern:"^[a-z]+$"`
	Owner   *Owner           `json:"owner"`
	Friends []Pet            `json:"friends,omitempty"`
	Meta    map[string]Owner `json:"meta,omitempty"`
	Color   Color            `json:"color"`
	Born    time.Time        `json:"born"`
}

type Node struct {
	Val  string  `json:"val"`
	Next *Node   `json:"next"`
	Kids []*Node `json:"kids,omitempty"`
}

type Page[T any] struct {
	Items []T   `json:"items" minItems:"1"`
	Total int64 `json:"total"`
}

type Color string

func (Color) Enum() []interface{} { return []interface{}{"red", "green", "blue"} }

type Level int

func (Level) NamedEnum() ([]interface{}, []string) {
	return []interface{}{1, 2, 3}, []string{"low", "mid", "high"}
}

type Circle struct {
	R float64 `json:"r" exclusiveMinimum:"0"`
}

type Square struct {
	Side float32 `json:"side"`
	Tag  string  `json:"tag" default:"sq"`
}

type Shape struct{}

func (Shape) JSONSchemaOneOf() []interface{} { return []interface{}{Circle{}, Square{}} }

type AnyShape struct {
	Kind string `json:"kind" const:"any"`
}

func (AnyShape) JSONSchemaAnyOf() []interface{} { return []interface{}{Square{}, Circle{}, Owner{}} }

type Doc struct {
	Body string `json:"body" title:"The body"`
	A    Shape  `json:"a"`
	B    Level  `json:"b"`
}

func (Doc) Title() string       { return "Document" }
func (Doc) Description() string { return "Document is a described structure." }

type Text struct{ s string }

func (t Text) MarshalText() ([]byte, error)  { return []byte(t.s), nil }
func (t *Text) UnmarshalText(b []byte) error { t.s = string(b); return nil }

type Exposed struct {
	X int `json:"x"`
}

func (Exposed) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.AddType(jsonschema.Object)
	s.WithDescription("Exposed by the type.")
	s.WithPropertiesItem("x", jsonschema.Integer.ToSchemaOrBool())
	s.WithExtraPropertiesItem("x-exposed", true)
	s.WithExtraPropertiesItem("x-exposed-too", []string{"a", "b"})

	return s, hook("Exposer", "Exposed")
}

type Raw struct {
	X int `json:"x"`
}

func (Raw) JSONSchemaBytes() ([]byte, error) {
	return []byte(`{"type":"string","pattern":"^raw-.+$","minLength":5,"description":"Raw schema."}`), hook("RawExposer", "Raw")
}

type Prepared struct {
	P string `json:"p"`
	Q []int  `json:"q" uniqueItems:"true" maxItems:"7"`
}

func (Prepared) PrepareJSONSchema(s *jsonschema.Schema) error {
	if err := hook("Preparer", "Prepared"); err != nil {
		return err
	}

	s.WithTitle("Prepared")
	s.WithExtraPropertiesItem("x-prepared", "yes")

	return nil
}

// Loose exposes a schema without type.
type Loose struct{}

func (Loose) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.WithDescription("Anything goes.")

	return s, hook("Exposer", "Loose")
}

// Combo combines other types.
type Combo struct {
	A string `json:"a"`
}

func (Combo) JSONSchemaAllOf() []interface{} { return []interface{}{Circle{}, Owner{}} }
func (Combo) JSONSchemaNot() interface{}     { return Square{} }

// Cond has conditions that refer to other types.
type Cond struct {
	Kind string `json:"kind" enum:"a,b"`
}

func (Cond) JSONSchemaIf() interface{}   { return CondIf{} }
func (Cond) JSONSchemaThen() interface{} { return CondThen{} }
func (Cond) JSONSchemaElse() interface{} { return CondElse{} }

type CondIf struct {
	Kind string `json:"kind" const:"a"`
}

type CondThen struct {
	A CondDeep `json:"a" required:"true"`
}

type CondElse struct {
	B *CondElse `json:"b"`
}

type CondDeep struct {
	D int64 `json:"d"`
}

// Names that differ only in letter case.

type URLInfo struct {
	URL string `json:"url" format:"uri"`
}

type UrlInfo struct {
	Host string   `json:"host" format:"hostname"`
	Info *URLInfo `json:"info,omitempty"`
}

// Rich exposes a schema that uses many keywords.
type Rich struct{}

func (Rich) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}

	if err := json.Unmarshal([]byte(`{
		"title": "Rich", "type": ["object", "null"], "required": ["n", "l"], "minProperties": 1, "maxProperties": 9,
		"properties": {
			"n": {"type": "number", "exclusiveMinimum": 0, "maximum": 10.5, "multipleOf": 0.5, "default": 1.5},
			"m": {"type": "integer", "minimum": -5, "exclusiveMaximum": 7, "enum": [1, 2, null], "examples": [1, 2]},
			"l": {"type": "array", "items": {"type": "string", "minLength": 1, "maxLength": 3, "pattern": "^[a-z]$"}, "minItems": 1, "maxItems": 5, "uniqueItems": true},
			"o": {"type": "object", "additionalProperties": {"anyOf": [{"type": "string"}, {"not": {"type": "integer"}}]}},
			"c": {"type": "object", "additionalProperties": false, "readOnly": true},
			"w": {"type": ["string", "null"], "format": "date", "writeOnly": true, "deprecated": true, "x-w": {"deep": [1, "two", null]}}
		},
		"x-rich": "yes", "x-also": {"a": [1]}, "x-last": 3
	}`), &s); err != nil {
		panic(err)
	}

	return s, hook("Exposer", "Rich")
}

// Bools exposes a schema with schemas that are just true or false.
type Bools struct{}

func (Bools) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}

	if err := json.Unmarshal([]byte(`{
		"type": "object", "additionalProperties": true,
		"properties": {
			"any": true, "never": false, "none": {"type": "array", "items": false}, "all": {"type": "array", "items": true},
			"not": {"not": true}, "more": {"type": "object", "additionalProperties": false, "properties": {"x": true}},
			"alt": {"oneOf": [{"type": "string"}, false]}, "both": {"allOf": [true, {"type": "integer"}], "anyOf": [true]}
		},
		"examples": [{"any": 1}, {"any": 2}]
	}`), &s); err != nil {
		panic(err)
	}

	return s, hook("Exposer", "Bools")
}

// Fickle is a default value that fails to encode at times.
type Fickle struct{}

func (Fickle) MarshalJSON() ([]byte, error) {
	if err := hook("MarshalJSON", "Fickle"); err != nil {
		return nil, err
	}

	return []byte(`{"fickle":true}`), nil
}

// FickleDef has a default value that fails to encode at times.
type FickleDef struct {
	A int `json:"a"`
}

func (FickleDef) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithDefault(Fickle{})

	return nil
}

// FickleBody has it deeper.
type FickleBody struct {
	Def  FickleDef   `json:"def"`
	List []FickleDef `json:"list"`
}

// Company refers to itself and to many others.
type Company struct {
	Name   string             `json:"name" description:" spaced "`
	Parent *Company           `json:"parent"`
	Subs   []Company          `json:"subs,omitempty"`
	Boss   Owner              `json:"boss"`
	Pets   []Pet              `json:"pets" maxItems:"100"`
	Logo   *Circle            `json:"logo,omitempty"`
	Frame  Square             `json:"frame"`
	Doc    *Doc               `json:"doc,omitempty"`
	Errs   map[string]ErrResp `json:"errs"`
}

// ChainA, ChainB and ChainC refer to each other in a circle.
type ChainA struct {
	B *ChainB `json:"b"`
	S string  `json:"s" description:"Ends with space. "`
}

type ChainB struct {
	C map[string]ChainC `json:"c"`
	D *Circle           `json:"d"`
}

type ChainC struct {
	A []ChainA `json:"a"`
	O Owner    `json:"o"`
}

func (ChainC) Description() string { return "Closes the circle. " }

// Pair has two type parameters.
type Pair[K comparable, V any] struct {
	Key K `json:"key"`
	Val V `json:"val"`
}

// Virtual has fields that are made at run time.
type Virtual struct {
	jsonschema.Struct
}

func newVirtual() *Virtual {
	v := &Virtual{}
	v.DefName = "Virtual"
	v.SetTitle("Virtual")
	v.Fields = []jsonschema.Field{
		{Name: "Foo", Value: "abc", Tag: `json:"foo" minLength:"3"`},
		{Name: "Bar", Value: new(Owner), Tag: `json:"bar"`},
	}

	return v
}

// VirtualResp has them next to others.
type VirtualResp struct {
	ID int `json:"id"`
	H  int `header:"X-Virtual"`
	jsonschema.Struct
	Nested jsonschema.Struct `json:"nested"`
}

func newVirtualResp() *VirtualResp {
	v := &VirtualResp{}
	v.DefName = "VirtualOuter"
	v.Fields = []jsonschema.Field{{Name: "Foo", Value: 5, Tag: `json:"foo" minimum:"3"`}}
	v.Nested.DefName = "VirtualInner"
	v.Nested.SetDescription("Nested.")
	v.Nested.Fields = []jsonschema.Field{{Name: "List", Value: []Circle{}, Tag: `json:"list"`}}

	return v
}

// Mixed has fields of less usual types.
type Mixed struct {
	Arr  [3]int                 `json:"arr"`
	Dur  time.Duration          `json:"dur"`
	Keys map[int]string         `json:"keys"`
	Cols map[Color]Circle       `json:"cols"`
	Ptrs *[]*Square             `json:"ptrs"`
	Deep [][]map[string][]Loose `json:"deep"`
	Any  []interface{}          `json:"any"`
	Skip string                 `json:"-"`
	priv string
	*Inner
}

type Holder struct {
	E  Exposed             `json:"e"`
	R  Raw                 `json:"r"`
	P  *Prepared           `json:"p"`
	PS []Prepared          `json:"ps,omitempty"`
	M  map[string]Exposed  `json:"m,omitempty"`
	T  Text                `json:"t"`
	J  json.RawMessage     `json:"j"`
	I  interface{}         `json:"i"`
	D  *Doc                `json:"d,omitempty"`
	MM map[string][]Square `json:"mm"`
}

type Base struct {
	CreatedAt time.Time `json:"createdAt"`
	UpdatedAt time.Time `json:"updatedAt,omitempty"`
}

type Derived struct {
	Base
	Name string `json:"name"`
}

type RefEmbed struct {
	Owner `refer:"true"`
	Extra bool `json:"extra"`
}

type IntMap map[string]int

type PetList []Pet

type EmbMap struct {
	IntMap
}

type StrictBody struct {
	A string   `json:"a" required:"true"`
	B *string  `json:"b"`
	_ struct{} `additionalProperties:"false" description:"Nothing else."`
}

// Request structures.

type Paging struct {
	Limit  int `query:"limit" minimum:"1" maximum:"100" default:"20"`
	Offset int `query:"offset" description:"Items to skip."`
}

type Auth struct {
	Token string `header:"X-Token" required:"true" description:"Access token."`
	Sess  string `cookie:"sess" deprecated:"true"`
}

type ListReq struct {
	Paging
	Auth
	Sort []string `query:"sort" collectionFormat:"csv" enum:"asc,desc"`
}

type Filter struct {
	Min int    `query:"min" minimum:"0"`
	Max *int   `query:"max"`
	Lbl string `query:"lbl" example:"abc"`
}

// TreeQ is recursive, in query as well as in JSON.
type TreeQ struct {
	A    int     `json:"a" query:"a"`
	Kids []TreeQ `json:"kids" query:"kids"`
	Up   *TreeQ  `json:"up" query:"up"`
}

// TreeH is recursive in headers.
type TreeH struct {
	Kids []TreeH `header:"X-Kids"`
}

// TreeR is recursive and named differently in query and JSON.
type TreeR struct {
	A    int     `json:"ja" query:"qa"`
	Kids []TreeR `json:"jkids" query:"qkids"`
}

type TreeReq struct {
	Tree TreeQ  `query:"tree"`
	Opt  *TreeQ `query:"opt" description:"Optional."`
}

type JFilter struct {
	A int      `json:"a"`
	B []string `json:"b,omitempty"`
	O *Owner   `json:"o,omitempty"`
}

type SearchReq struct {
	Filter Filter   `query:"filter"`
	JF     JFilter  `query:"jf" required:"true"`
	JS     []string `query:"js" collectionFormat:"json"`
	Pipes  []int    `query:"pipes" collectionFormat:"pipes"`
	Multi  []string `query:"multi" collectionFormat:"multi"`
	SSV    []string `query:"ssv" collectionFormat:"ssv"`
	Plain  []string `query:"plain"`
	Ptr    *string  `query:"ptr"`
}

type StrictReq struct {
	Q string   `query:"sq"`
	H string   `header:"X-Sh"`
	C string   `cookie:"sc"`
	_ struct{} `query:"_" cookie:"_" additionalProperties:"false"`
}

type StrictHdr struct {
	H string   `header:"X-Sh2"`
	Q string   `query:"sq2"`
	_ struct{} `header:"_" additionalProperties:"false"`
}

type BodyGet struct {
	A int    `json:"a"`
	F string `json:"f" description:"forced"`
}

func (BodyGet) ForceRequestBody() {}

type FormJSON struct {
	F string `formData:"f"`
	J string `json:"j"`
}

func (FormJSON) ForceJSONRequestBody() {}

type FormData struct {
	Name string   `formData:"name" minLength:"2" required:"true"`
	Age  int      `formData:"age"`
	Tags []string `formData:"tags"`
	Own  FormOwn  `formData:"own"`
}

type FormOwn struct {
	Nick string `formData:"nick"`
}

type FormTree struct {
	Name string     `formData:"name" required:"true"`
	Size int        `formData:"size" minimum:"1"`
	Kids []FormTree `formData:"kids"`
}

type Unit string

func (Unit) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithExtraPropertiesItem("x-unit", "kg")

	return hook("Preparer", "Unit")
}

type FormExt struct {
	Weight Unit     `formData:"weight"`
	Own    *FormOwn `formData:"own"`
	Tree   FormTree `formData:"tree"`
}

type FormReq struct {
	Name string `form:"fname" required:"true"`
	Size int32  `form:"fsize"`
}

type Upload struct {
	File  multipart.File          `formData:"file"`
	Head  *multipart.FileHeader   `formData:"head" description:"A file."`
	Files []multipart.File        `formData:"files"`
	Heads []*multipart.FileHeader `formData:"heads"`
	Note  string                  `formData:"note"`
}

type RawBody struct {
	Body string `contentType:"text/csv"`
}

type RawBody2 struct {
	Q    string `query:"rq"`
	CSV  string `contentType:"text/csv"`
	Text string `contentType:"text/plain"`
}

// Response structures.

type Hdrs struct {
	ETag string    `header:"ETag" description:"Entity tag." required:"true"`
	Next *int      `header:"X-Next" minimum:"5"`
	Old  bool      `header:"X-Old" deprecated:"true"`
	When time.Time `header:"X-When"`
}

// HdrsTitled has everything that does not make a body.
type HdrsTitled struct {
	ETag string `header:"ETag"`
}

func (HdrsTitled) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithTitle("Titled")
	s.WithDescription("Only headers.")
	s.WithComment("A comment.")
	s.WithID("https://example.com/hdrs")
	s.WithExamples("none")
	s.WithExtraPropertiesItem("x-only", "headers")

	return hook("Preparer", "HdrsTitled")
}

type PetResp struct {
	Hdrs
	Pet
}

type PagedResp struct {
	Total int `header:"X-Total" example:"10"`
	Page[Pet]
}

type OwnerResp struct {
	Loc   string `header:"Location" format:"uri"`
	Name  string `json:"name"`
	Owner Owner  `json:"owner"`
}

type RawResp struct {
	H    string `header:"X-Raw"`
	Body string `contentType:"text/csv"`
}

type Empty struct{}

type ErrResp struct {
	Code int    `json:"code" enum:"1,2,3"`
	Msg  string `json:"msg"`
	Err  *Inner `json:"err,omitempty"`
}

type Inner struct {
	Cause *Inner `json:"cause,omitempty"`
	Text  Text   `json:"text"`
}

// Fixed exposes a schema that all its users share.
type Fixed struct{}

var fixed = newFixed()

func newFixed() jsonschema.Schema {
	s := jsonschema.Schema{}

	if err := json.Unmarshal([]byte(`{
		"title": "Fixed", "description": "Always the same.", "type": "object", "required": ["z", "a", "m"],
		"properties": {
			"z": {"type": "string", "minLength": 2, "x-z": 1}, "a": {"type": "array", "items": {"type": ["integer", "null"], "exclusiveMinimum": 1}},
			"m": {"type": "object", "additionalProperties": {"enum": ["c", "b", "a"]}}
		},
		"examples": [{"z": "zz"}], "x-fixed": {"b": [3, 1, 2]}
	}`), &s); err != nil {
		panic(err)
	}

	s.Required = append(make([]string, 0, 8), s.Required...)

	return s
}

// ResetFixed makes it anew.
func ResetFixed() { fixed = newFixed() }

// SameFixed tells if nobody changed it.
func SameFixed() bool {
	n := newFixed()

	for _, s := range fixed.Required[len(fixed.Required):cap(fixed.Required)] {
		if s != "" {
			return false
		}
	}

	return reflect.DeepEqual(fixed, n)
}

func (Fixed) JSONSchema() (jsonschema.Schema, error) {
	return fixed, hook("Exposer", "Fixed")
}

// Inlined is described in place.
type Inlined struct {
	A     int    `json:"a" minimum:"3"`
	Inner *Inner `json:"inner,omitempty"`
}

func (Inlined) InlineJSONSchema() {}

// NoName has no component of its own.
type NoName struct {
	B string  `json:"b" maxLength:"7"`
	O []Owner `json:"o,omitempty"`
}

func (NoName) IgnoreTypeName() {}

// InPlace uses both.
type InPlace struct {
	In   Inlined           `json:"in"`
	List []Inlined         `json:"list"`
	No   *NoName           `json:"no,omitempty"`
	Map  map[string]NoName `json:"map,omitempty"`
}

// Prep is a self-contained content unit.
type Prep struct {
	Status int
	Type   string
}

func (p Prep) SetupContentUnit(cu *openapi.ContentUnit) {
	if err := hook("ContentUnitPreparer", "Prep"); err != nil {
		panic(err)
	}

	cu.Structure = new(OwnerResp)
	cu.HTTPStatus = p.Status
	cu.ContentType = p.Type
	cu.Description = "Prepared content."
}

// ErrHook is the kind of error injected hooks return.
var ErrHook = errors.New("injected")

// Types by name. Values are constructors, so that no value is shared unless the scenario wants it to be.
var Types = map[string]func() interface{}{
	"Owner": func() interface{} { return new(Owner) }, "Pet": func() interface{} { return new(Pet) },
	"Node": func() interface{} { return new(Node) }, "PagePet": func() interface{} { return new(Page[Pet]) },
	"PageOwner": func() interface{} { return new(Page[Owner]) }, "PageNode": func() interface{} { return new(Page[*Node]) },
	"Color": func() interface{} { return new(Color) }, "Level": func() interface{} { return new(Level) },
	"Circle": func() interface{} { return new(Circle) }, "Square": func() interface{} { return new(Square) },
	"Shape": func() interface{} { return new(Shape) }, "AnyShape": func() interface{} { return new(AnyShape) },
	"Doc": func() interface{} { return new(Doc) }, "Text": func() interface{} { return new(Text) },
	"Exposed": func() interface{} { return new(Exposed) }, "Raw": func() interface{} { return new(Raw) },
	"Prepared": func() interface{} { return new(Prepared) }, "Holder": func() interface{} { return new(Holder) },
	"Base": func() interface{} { return new(Base) }, "Derived": func() interface{} { return new(Derived) },
	"RefEmbed": func() interface{} { return new(RefEmbed) }, "IntMap": func() interface{} { return new(IntMap) },
	"PetList": func() interface{} { return new(PetList) }, "EmbMap": func() interface{} { return new(EmbMap) },
	"StrictBody": func() interface{} { return new(StrictBody) },
	"Paging":     func() interface{} { return new(Paging) }, "Auth": func() interface{} { return new(Auth) },
	"ListReq": func() interface{} { return new(ListReq) }, "Filter": func() interface{} { return new(Filter) },
	"JFilter": func() interface{} { return new(JFilter) }, "SearchReq": func() interface{} { return new(SearchReq) },
	"StrictReq": func() interface{} { return new(StrictReq) }, "StrictHdr": func() interface{} { return new(StrictHdr) },
	"BodyGet": func() interface{} { return new(BodyGet) }, "FormJSON": func() interface{} { return new(FormJSON) },
	"FormTree": func() interface{} { return new(FormTree) }, "FormExt": func() interface{} { return new(FormExt) },
	"Unit":    func() interface{} { return new(Unit) },
	"FormOwn": func() interface{} { return new(FormOwn) }, "FormData": func() interface{} { return new(FormData) }, "FormReq": func() interface{} { return new(FormReq) },
	"Upload": func() interface{} { return new(Upload) }, "RawBody": func() interface{} { return new(RawBody) },
	"RawBody2": func() interface{} { return new(RawBody2) }, "Hdrs": func() interface{} { return new(Hdrs) },
	"PetResp": func() interface{} { return new(PetResp) }, "PagedResp": func() interface{} { return new(PagedResp) },
	"OwnerResp": func() interface{} { return new(OwnerResp) }, "RawResp": func() interface{} { return new(RawResp) },
	"Empty": func() interface{} { return new(Empty) }, "ErrResp": func() interface{} { return new(ErrResp) },
	"Inner": func() interface{} { return new(Inner) }, "Loose": func() interface{} { return new(Loose) },
	"Combo": func() interface{} { return new(Combo) }, "Rich": func() interface{} { return new(Rich) },
	"Bools": func() interface{} { return new(Bools) }, "HdrsTitled": func() interface{} { return new(HdrsTitled) },
	"Inlined": func() interface{} { return new(Inlined) }, "NoName": func() interface{} { return new(NoName) },
	"Fixed":   func() interface{} { return new(Fixed) },
	"InPlace": func() interface{} { return new(InPlace) },
	"TreeR":   func() interface{} { return new(TreeR) },
	"TreeQ":   func() interface{} { return new(TreeQ) }, "TreeReq": func() interface{} { return new(TreeReq) },
	"FickleDef": func() interface{} { return new(FickleDef) }, "FickleBody": func() interface{} { return new(FickleBody) },
	"Mixed": func() interface{} { return new(Mixed) }, "Cond": func() interface{} { return new(Cond) },
	"Company": func() interface{} { return new(Company) }, "ChainA": func() interface{} { return new(ChainA) },
	"ChainB": func() interface{} { return new(ChainB) }, "ChainC": func() interface{} { return new(ChainC) },
	"Pair":    func() interface{} { return new(Pair[string, Page[Pair[int, *Pet]]]) },
	"Virtual": func() interface{} { return newVirtual() }, "VirtualResp": func() interface{} { return newVirtualResp() },
	"URLInfo": func() interface{} { return new(URLInfo) }, "UrlInfo": func() interface{} { return new(UrlInfo) },
}
