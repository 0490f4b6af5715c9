exec(open("/verif/tools/bugs/heads.py").read())
BUGS = [
 {"id": "c02-store-first", "prop": "C02", "pkg": "openapi31",
  "needs": "a set-up of an operation in OpenAPI 3.1 whose parameters do not match the path, the previous entry or its absence then has to be intact",
  "breaks": "the operation is stored before its path parameters are validated, so a refused set-up stays in the document",
  "edits": [("openapi31/helper.go", '''	if err := operation.validatePathParams(pathParamsMap); err != nil {
		return err
	}

	if err := pathItem.SetOperation(method, operation); err != nil {
		return err
	}

	s.PathsEns().WithMapOfPathItemValuesItem(path, pathItem)

	return nil
''', '''	if err := pathItem.SetOperation(method, operation); err != nil {
		return err
	}

	s.PathsEns().WithMapOfPathItemValuesItem(path, pathItem)

	return operation.validatePathParams(pathParamsMap)
''')],
  "demo": HEAD + '''
func TestZZDemo(t *testing.T) {
	s := openapi31.Spec{Openapi: "3.1.0"}

	if err := s.SetupOperation("get", "/a/{id}"); err == nil {
		t.Fatal("must fail")
	}

	if len(s.Paths.MapOfPathItemValues) != 0 {
		t.Fatal("failed set up left an operation")
	}
}
'''},
 {"id": "c06-ext-case", "prop": "C06", "pkg": "openapi31",
  "needs": "an OpenAPI 3.1 document with an extension whose name continues with a digit or an upper case letter, saved and loaded",
  "breaks": "loading drops such extensions",
  "edits": [("openapi31/entities.go", '''regexX       = regexp.MustCompile("^x-")''', '''regexX       = regexp.MustCompile("^x-[a-z]")''')],
  "demo": HEAD + '''
func TestZZDemo(t *testing.T) {
	s := openapi31.Spec{Openapi: "3.1.0"}
	s.WithMapOfAnythingItem("x-Feature", 1)

	j, err := json.Marshal(s)
	if err != nil {
		t.Fatal(err)
	}

	l := openapi31.Spec{}
	if err := json.Unmarshal(j, &l); err != nil {
		t.Fatal(err)
	}

	k, err := json.Marshal(l)
	if err != nil || string(j) != string(k) {
		t.Fatal(err, string(j), string(k))
	}
}
'''},
 {"id": "c07-in-place", "prop": "C07", "pkg": "openapi31",
  "needs": "loading a damaged OpenAPI 3.1 document, the damage has to be behind the first members",
  "breaks": "a load that is refused leaves what was read before the damage in the document",
  "edits": [("openapi31/entities.go", '''	ms := marshalSpec(*s)

	err = json.Unmarshal(data, &ms)
	if err != nil {
		return err
	}
''', '''	err = json.Unmarshal(data, (*marshalSpec)(s))
	if err != nil {
		return err
	}

	ms := marshalSpec(*s)
''')],
  "demo": HEAD + '''
func TestZZDemo(t *testing.T) {
	s := openapi31.Spec{}
	if err := s.UnmarshalJSON([]byte(`{"openapi":"3.1.0","info":{"title":"A","version":"1"},"paths":{"/a":{"get":5}}}`)); err == nil {
		t.Fatal("must be refused")
	}

	if s.Info.Title != "" || s.Openapi != "" {
		t.Fatal("refused load left traces")
	}
}
'''},
 {"id": "c11-5xx", "prop": "C11", "pkg": "openapi31",
  "needs": "an OpenAPI 3.1 operation with a response for the family of statuses 5XX",
  "breaks": "the response is documented with status 5 instead of 5XX, which is not a valid status and is lost on load",
  "edits": [("openapi31/reflect.go", "case cu.HTTPStatus > 0 && cu.HTTPStatus < 6:", "case cu.HTTPStatus > 0 && cu.HTTPStatus < 5:")],
  "demo": HEAD + '''
func TestZZDemo(t *testing.T) {
	r := openapi31.NewReflector()
	oc, _ := r.NewOperationContext("get", "/a")
	oc.AddRespStructure(nil, openapi.WithHTTPStatus(5))

	if err := r.AddOperation(oc); err != nil {
		t.Fatal(err)
	}

	if _, ok := r.Spec.Paths.MapOfPathItemValues["/a"].Get.Responses.MapOfResponseOrReferenceValues["5XX"]; !ok {
		t.Fatal("no 5XX")
	}
}
'''},
]
