From d01b46f4c9df0939962ae6cbe1cf4fd5385db498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 01/23] fix: detect existing operation by sanitized path in
 Spec.AddOperation

Existence was checked with the raw path while the operation was stored under
the sanitized one, so a second registration of /x/{id:[0-9]+} silently replaced
the first one.
---
 openapi3/helper.go  | 12 ++++++++----
 openapi31/helper.go | 11 +++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/openapi3/helper.go b/openapi3/helper.go
index b215205..b0fc0db 100644
--- a/openapi3/helper.go
+++ b/openapi3/helper.go
@@ -98,11 +98,15 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
-	pathItem := s.Paths.MapOfPathItemValues[path]
+	cleanMethod, cleanPath, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
+
+	pathItem := s.Paths.MapOfPathItemValues[cleanPath]
 
-	if _, found := pathItem.MapOfOperationValues[method]; found {
-		return fmt.Errorf("operation already exists: %s %s", method, path)
+	if _, found := pathItem.MapOfOperationValues[cleanMethod]; found {
+		return fmt.Errorf("operation already exists: %s %s", cleanMethod, path)
 	}
 
 	// Add "No Content" response if there are no responses configured.
diff --git a/openapi31/helper.go b/openapi31/helper.go
index 533a613..d0f2b98 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -153,17 +153,20 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
+	cleanMethod, cleanPath, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
 
-	pathItem := s.PathsEns().MapOfPathItemValues[path]
+	pathItem := s.PathsEns().MapOfPathItemValues[cleanPath]
 
-	op, err := pathItem.Operation(method)
+	op, err := pathItem.Operation(cleanMethod)
 	if err != nil {
 		return err
 	}
 
 	if op != nil {
-		return fmt.Errorf("operation already exists: %s %s", method, path)
+		return fmt.Errorf("operation already exists: %s %s", cleanMethod, path)
 	}
 
 	// Add "No Content" response if there are no responses configured.
-- 
2.43.0


From be1f2f9820cb5258dd797395183533a379784bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 02/23] fix: do not panic walking schemas of default or
 referenced response

WalkResponseJSONSchemas looked only at responses with a status, and
dereferenced nil if there was none.
---
 openapi3/walk_schema.go  | 9 +++++++++
 openapi31/walk_schema.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 877a252..e6e092c 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if cu.IsDefault && op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// There are no schemas to provide if response was customized to be a reference.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 55aa781..e8121ef 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if cu.IsDefault && op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// There are no schemas to provide if response was customized to be a reference.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
-- 
2.43.0


From 6925f591b8d6b482d0db47710097f3c7a9f3a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 03/23] fix: keep response headers of all content units with
 the same status

Headers of a content unit replaced headers of a previous one that shares HTTP
status, while media types of both are kept.
---
 openapi3/reflect.go  | 8 +++++++-
 openapi31/reflect.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 8f9d147..bc95a4e 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -638,7 +638,13 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	if resp.Headers == nil {
+		resp.Headers = res
+	} else { // Keep headers of other content units with the same status.
+		for name, header := range res {
+			resp.Headers[name] = header
+		}
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 4be25f9..6bd371b 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -608,7 +608,13 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	if resp.Headers == nil {
+		resp.Headers = res
+	} else { // Keep headers of other content units with the same status.
+		for name, header := range res {
+			resp.Headers[name] = header
+		}
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
-- 
2.43.0


From ac9870bf18e70af4d814eec92d3da56f4d21abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:43 +0000
Subject: [PATCH 04/23] fix: keep value of exclusive bound converting JSON
 Schema to OpenAPI 3.0

exclusiveMaximum and exclusiveMinimum are numbers in JSON Schema, their values
were lost, leaving a flag without a bound.
---
 openapi3/jsonschema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 1cf4b82..cff6d12 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -262,14 +262,14 @@ func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 
 	if js.ExclusiveMaximum != nil {
 		os.WithExclusiveMaximum(true)
-		os.Maximum = js.Maximum
+		os.Maximum = js.ExclusiveMaximum
 	} else if js.Maximum != nil {
 		os.Maximum = js.Maximum
 	}
 
 	if js.ExclusiveMinimum != nil {
 		os.WithExclusiveMinimum(true)
-		os.Minimum = js.Minimum
+		os.Minimum = js.ExclusiveMinimum
 	} else if js.Minimum != nil {
 		os.Minimum = js.Minimum
 	}
-- 
2.43.0


From 331d08f58d724844bc40658514280eea26294e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:14 +0000
Subject: [PATCH 05/23] fix: do not alter accepted operation when its context
 is added again

Operation context shares data with the operation that was already added, setting
it up again changed the accepted operation before the conflict was reported.
---
 openapi3/helper.go   | 25 ++++++++++++++++--------
 openapi3/reflect.go  |  5 +++++
 openapi31/helper.go  | 46 ++++++++++++++++++++++++++++++--------------
 openapi31/reflect.go | 10 ++++++++++
 4 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/openapi3/helper.go b/openapi3/helper.go
index b0fc0db..4a98723 100644
--- a/openapi3/helper.go
+++ b/openapi3/helper.go
@@ -98,17 +98,10 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	cleanMethod, cleanPath, _, err := openapi.SanitizeMethodPath(method, path)
-	if err != nil {
+	if err := s.checkOperationIsNew(method, path); err != nil {
 		return err
 	}
 
-	pathItem := s.Paths.MapOfPathItemValues[cleanPath]
-
-	if _, found := pathItem.MapOfOperationValues[cleanMethod]; found {
-		return fmt.Errorf("operation already exists: %s %s", cleanMethod, path)
-	}
-
 	// Add "No Content" response if there are no responses configured.
 	if len(operation.Responses.MapOfResponseOrRefValues) == 0 && operation.Responses.Default == nil {
 		operation.Responses.WithMapOfResponseOrRefValuesItem(strconv.Itoa(http.StatusNoContent), ResponseOrRef{
@@ -125,6 +118,22 @@ func (s *Spec) AddOperation(method, path string, operation Operation) error {
 	})
 }
 
+// checkOperationIsNew fails if operation with method and path already exists.
+func (s *Spec) checkOperationIsNew(method, path string) error {
+	cleanMethod, cleanPath, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
+
+	pathItem := s.Paths.MapOfPathItemValues[cleanPath]
+
+	if _, found := pathItem.MapOfOperationValues[cleanMethod]; found {
+		return fmt.Errorf("operation already exists: %s %s", cleanMethod, path)
+	}
+
+	return nil
+}
+
 // UnknownParamIsForbidden indicates forbidden unknown parameters.
 func (o Operation) UnknownParamIsForbidden(in ParameterIn) bool {
 	f, ok := o.MapOfAnything[xForbidUnknown+string(in)].(bool)
diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index bc95a4e..ad16bd6 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -270,6 +270,11 @@ func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
 		return fmt.Errorf("wrong operation context %T received, %T expected", oc, operationContext{})
 	}
 
+	// Operation that was already added must not be altered by a rejected attempt.
+	if err := r.SpecEns().checkOperationIsNew(oc.Method(), oc.PathPattern()); err != nil {
+		return err
+	}
+
 	if err := r.setupRequest(c.op, oc); err != nil {
 		return fmt.Errorf("setup request %s %s: %w", oc.Method(), oc.PathPattern(), err)
 	}
diff --git a/openapi31/helper.go b/openapi31/helper.go
index d0f2b98..28e2383 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -153,6 +153,28 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
+	if err := s.checkOperationIsNew(method, path); err != nil {
+		return err
+	}
+
+	// Add "No Content" response if there are no responses configured.
+	if len(operation.ResponsesEns().MapOfResponseOrReferenceValues) == 0 && operation.Responses.Default == nil {
+		operation.Responses.WithMapOfResponseOrReferenceValuesItem(strconv.Itoa(http.StatusNoContent), ResponseOrReference{
+			Response: &Response{
+				Description: http.StatusText(http.StatusNoContent),
+			},
+		})
+	}
+
+	return s.SetupOperation(method, path, func(op *Operation) error {
+		*op = operation
+
+		return nil
+	})
+}
+
+// checkOperationIsNew fails if operation with method and path already exists.
+func (s *Spec) checkOperationIsNew(method, path string) error {
 	cleanMethod, cleanPath, _, err := openapi.SanitizeMethodPath(method, path)
 	if err != nil {
 		return err
@@ -169,28 +191,24 @@ func (s *Spec) AddOperation(method, path string, operation Operation) error {
 		return fmt.Errorf("operation already exists: %s %s", cleanMethod, path)
 	}
 
-	// Add "No Content" response if there are no responses configured.
-	if len(operation.ResponsesEns().MapOfResponseOrReferenceValues) == 0 && operation.Responses.Default == nil {
-		operation.Responses.WithMapOfResponseOrReferenceValuesItem(strconv.Itoa(http.StatusNoContent), ResponseOrReference{
-			Response: &Response{
-				Description: http.StatusText(http.StatusNoContent),
-			},
-		})
-	}
+	return nil
+}
 
-	return s.SetupOperation(method, path, func(op *Operation) error {
-		*op = operation
+// checkWebhookIsNew fails if webhook with same name already exists.
+func (s *Spec) checkWebhookIsNew(name string) error {
+	if _, found := s.Webhooks[name]; found {
+		return fmt.Errorf("duplicate webhook name: %s", name)
+	}
 
-		return nil
-	})
+	return nil
 }
 
 // AddWebhook validates and sets webhook by name and method.
 //
 // It will fail if webhook with same name already exists.
 func (s *Spec) AddWebhook(method, name string, operation Operation) error {
-	if _, found := s.Webhooks[name]; found {
-		return fmt.Errorf("duplicate webhook name: %s", name)
+	if err := s.checkWebhookIsNew(name); err != nil {
+		return err
 	}
 
 	method = strings.ToLower(method)
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 6bd371b..17b20ec 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -212,6 +212,11 @@ func (o operationContext) Operation() *Operation {
 
 // AddOperation configures operation request and response schema.
 func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
+	// Operation that was already added must not be altered by a rejected attempt.
+	if err := r.SpecEns().checkOperationIsNew(oc.Method(), oc.PathPattern()); err != nil {
+		return err
+	}
+
 	c, err := r.setupOC(oc)
 	if err != nil {
 		return err
@@ -222,6 +227,11 @@ func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
 
 // AddWebhook configures webhook request and response schema.
 func (r *Reflector) AddWebhook(oc openapi.OperationContext) error {
+	// Webhook that was already added must not be altered by a rejected attempt.
+	if err := r.SpecEns().checkWebhookIsNew(oc.PathPattern()); err != nil {
+		return err
+	}
+
 	c, err := r.setupOC(oc)
 	if err != nil {
 		return err
-- 
2.43.0


From efc663363d7dcab605cca7e771455a2e052b5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 06/23] fix: keep operation unchanged when its setup fails in
 OpenAPI 3.1

Setup functions were applied to the stored operation directly, so a failed
Spec.SetupOperation left it partially changed.
---
 openapi31/helper.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openapi31/helper.go b/openapi31/helper.go
index 28e2383..28c5e37 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -83,10 +83,13 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 		return err
 	}
 
-	if operation == nil {
-		operation = &Operation{}
+	op := Operation{}
+	if operation != nil {
+		op = *operation // Existing operation should stay as is if setup fails.
 	}
 
+	operation = &op
+
 	for _, f := range setup {
 		if err := f(operation); err != nil {
 			return err
-- 
2.43.0


From dd5ab5622cab891867181619822836f9bbdf2f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 07/23] fix: encode content and location of a loaded OpenAPI
 3.0 parameter once

Decoding keeps schema, content and location of a parameter twice, encoding put
both copies out. A loaded document was saved with duplicate keys, which is not
valid YAML, and with changed style.
---
 openapi3/entities.go |  9 ++++++++-
 openapi3/helper.go   | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 356433a..9ce53e6 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -1659,7 +1659,14 @@ func (p *Parameter) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (p Parameter) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalParameter(p), p.MapOfAnything, p.SchemaXORContent, p.Location)
+	// Schema, content and location are duplicated in the fields of a decoded parameter, they must be encoded once.
+	if p.Schema != nil || p.Content != nil {
+		p.SchemaXORContent = nil
+	}
+
+	p.applyLocation()
+
+	return marshalUnion(marshalParameter(p), p.MapOfAnything, p.SchemaXORContent)
 }
 
 // Schema structure is generated from "#/definitions/Schema".
diff --git a/openapi3/helper.go b/openapi3/helper.go
index 4a98723..338ed3a 100644
--- a/openapi3/helper.go
+++ b/openapi3/helper.go
@@ -62,6 +62,41 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 	return nil
 }
 
+// applyLocation fills missing fields from location.
+func (p *Parameter) applyLocation() {
+	l := p.Location
+	if l == nil {
+		return
+	}
+
+	in := p.In
+
+	switch {
+	case l.PathParameter != nil:
+		in = ParameterInPath
+
+		if p.Style == nil && l.PathParameter.Style != nil {
+			p.WithStyle(string(*l.PathParameter.Style))
+		}
+
+		p.WithRequired(true)
+	case l.QueryParameter != nil:
+		in = ParameterInQuery
+
+		if p.Style == nil && l.QueryParameter.Style != nil {
+			p.WithStyle(string(*l.QueryParameter.Style))
+		}
+	case l.HeaderParameter != nil:
+		in = ParameterInHeader
+	case l.CookieParameter != nil:
+		in = ParameterInCookie
+	}
+
+	if p.In == "" {
+		p.In = in
+	}
+}
+
 // SetupOperation creates operation if it is not present and applies setup functions.
 func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) error) error {
 	method, path, pathParams, err := openapi.SanitizeMethodPath(method, path)
-- 
2.43.0


From f45566af5ce4ad19e45e8c0c70a36ffd603afb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 08/23] fix: report failure of reflecting response body instead
 of documenting another body

---
 internal/json_schema.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index f19d55f..34b2c0f 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -201,7 +201,12 @@ func ReflectJSONResponse(
 	}
 
 	// Check if output structure exposes meaningful schema.
-	if hasJSONBody, err := hasJSONBody(r, output); err == nil && !hasJSONBody {
+	hasJSONBody, err := hasJSONBody(r, output)
+	if err != nil {
+		return nil, err
+	}
+
+	if !hasJSONBody {
 		return nil, nil
 	}
 
-- 
2.43.0


From 7bc30aa1f177e55dbeaf16326c2be34caa4702da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:28 +0000
Subject: [PATCH 09/23] fix: keep order of map keys in YAML regardless of map
 iteration order

---
 openapi3/yaml.go  | 89 ++++++++++++++++++++++++++++++++++++++++++++++-
 openapi31/yaml.go | 89 ++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 176 insertions(+), 2 deletions(-)

diff --git a/openapi3/yaml.go b/openapi3/yaml.go
index 458e378..dee3c0c 100644
--- a/openapi3/yaml.go
+++ b/openapi3/yaml.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"sort"
+	"unicode"
 
 	"gopkg.in/yaml.v2"
 )
@@ -63,13 +65,98 @@ func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	for _, key := range keys {
 		*om = append(*om, yaml.MapItem{
 			Key:   key,
-			Value: mapData[key],
+			Value: orderMaps(mapData[key]),
 		})
 	}
 
 	return nil
 }
 
+// orderMaps replaces maps with ordered ones recursively.
+//
+// YAML encoder sorts map keys with a comparison that is not transitive (for example with keys 200, 404 and 4XX), so that
+// order of keys depends on iteration order of the map. Sorting here starts with a definite order.
+func orderMaps(v interface{}) interface{} {
+	switch x := v.(type) {
+	case []interface{}:
+		for i, v2 := range x {
+			x[i] = orderMaps(v2)
+		}
+	case map[string]interface{}:
+		keys := make([]string, 0, len(x))
+		for k := range x {
+			keys = append(keys, k)
+		}
+
+		sort.Strings(keys)
+		sort.SliceStable(keys, func(i, j int) bool { return lessKey(keys[i], keys[j]) })
+
+		m := make(yaml.MapSlice, 0, len(keys))
+		for _, k := range keys {
+			m = append(m, yaml.MapItem{Key: k, Value: orderMaps(x[k])})
+		}
+
+		return m
+	}
+
+	return v
+}
+
+// lessKey compares map keys in the way YAML encoder does: numbers by value, letters after everything else.
+func lessKey(a, b string) bool {
+	ar, br := []rune(a), []rune(b)
+
+	for i := 0; i < len(ar) && i < len(br); i++ {
+		if ar[i] == br[i] {
+			continue
+		}
+
+		al, bl := unicode.IsLetter(ar[i]), unicode.IsLetter(br[i])
+		if al && bl {
+			return ar[i] < br[i]
+		}
+
+		if al || bl {
+			return bl
+		}
+
+		var an, bn int64
+
+		// Zero is significant if it continues a number.
+		if ar[i] == '0' || br[i] == '0' {
+			for j := i - 1; j >= 0 && unicode.IsDigit(ar[j]); j-- {
+				if ar[j] != '0' {
+					an, bn = 1, 1
+
+					break
+				}
+			}
+		}
+
+		ai, bi := i, i
+
+		for ; ai < len(ar) && unicode.IsDigit(ar[ai]); ai++ {
+			an = an*10 + int64(ar[ai]-'0')
+		}
+
+		for ; bi < len(br) && unicode.IsDigit(br[bi]); bi++ {
+			bn = bn*10 + int64(br[bi]-'0')
+		}
+
+		if an != bn {
+			return an < bn
+		}
+
+		if ai != bi {
+			return ai < bi
+		}
+
+		return ar[i] < br[i]
+	}
+
+	return len(ar) < len(br)
+}
+
 func objectKeys(b []byte) ([]string, error) {
 	d := json.NewDecoder(bytes.NewReader(b))
 
diff --git a/openapi31/yaml.go b/openapi31/yaml.go
index 4e9bb9e..3d280c6 100644
--- a/openapi31/yaml.go
+++ b/openapi31/yaml.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"sort"
+	"unicode"
 
 	"gopkg.in/yaml.v2"
 )
@@ -63,13 +65,98 @@ func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	for _, key := range keys {
 		*om = append(*om, yaml.MapItem{
 			Key:   key,
-			Value: mapData[key],
+			Value: orderMaps(mapData[key]),
 		})
 	}
 
 	return nil
 }
 
+// orderMaps replaces maps with ordered ones recursively.
+//
+// YAML encoder sorts map keys with a comparison that is not transitive (for example with keys 200, 404 and 4XX), so that
+// order of keys depends on iteration order of the map. Sorting here starts with a definite order.
+func orderMaps(v interface{}) interface{} {
+	switch x := v.(type) {
+	case []interface{}:
+		for i, v2 := range x {
+			x[i] = orderMaps(v2)
+		}
+	case map[string]interface{}:
+		keys := make([]string, 0, len(x))
+		for k := range x {
+			keys = append(keys, k)
+		}
+
+		sort.Strings(keys)
+		sort.SliceStable(keys, func(i, j int) bool { return lessKey(keys[i], keys[j]) })
+
+		m := make(yaml.MapSlice, 0, len(keys))
+		for _, k := range keys {
+			m = append(m, yaml.MapItem{Key: k, Value: orderMaps(x[k])})
+		}
+
+		return m
+	}
+
+	return v
+}
+
+// lessKey compares map keys in the way YAML encoder does: numbers by value, letters after everything else.
+func lessKey(a, b string) bool {
+	ar, br := []rune(a), []rune(b)
+
+	for i := 0; i < len(ar) && i < len(br); i++ {
+		if ar[i] == br[i] {
+			continue
+		}
+
+		al, bl := unicode.IsLetter(ar[i]), unicode.IsLetter(br[i])
+		if al && bl {
+			return ar[i] < br[i]
+		}
+
+		if al || bl {
+			return bl
+		}
+
+		var an, bn int64
+
+		// Zero is significant if it continues a number.
+		if ar[i] == '0' || br[i] == '0' {
+			for j := i - 1; j >= 0 && unicode.IsDigit(ar[j]); j-- {
+				if ar[j] != '0' {
+					an, bn = 1, 1
+
+					break
+				}
+			}
+		}
+
+		ai, bi := i, i
+
+		for ; ai < len(ar) && unicode.IsDigit(ar[ai]); ai++ {
+			an = an*10 + int64(ar[ai]-'0')
+		}
+
+		for ; bi < len(br) && unicode.IsDigit(br[bi]); bi++ {
+			bn = bn*10 + int64(br[bi]-'0')
+		}
+
+		if an != bn {
+			return an < bn
+		}
+
+		if ai != bi {
+			return ai < bi
+		}
+
+		return ar[i] < br[i]
+	}
+
+	return len(ar) < len(br)
+}
+
 func objectKeys(b []byte) ([]string, error) {
 	d := json.NewDecoder(bytes.NewReader(b))
 
-- 
2.43.0


From c76fa77a87ff83d9e934e3939a2cf3648edc2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 10/23] fix: load examples in OpenAPI 3.1, refuse only those
 with both value and externalValue

---
 openapi31/entities.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index e84efa5..ede3df2 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1884,12 +1884,6 @@ var knownKeysExample = []string{
 func (e *Example) UnmarshalJSON(data []byte) error {
 	var err error
 
-	var not interface{}
-
-	if json.Unmarshal(data, &not) == nil {
-		return errors.New("not constraint failed for Example")
-	}
-
 	me := marshalExample(*e)
 
 	err = json.Unmarshal(data, &me)
@@ -1904,8 +1898,12 @@ func (e *Example) UnmarshalJSON(data []byte) error {
 		rawMap = nil
 	}
 
-	if me.Value == nil {
-		if _, ok := rawMap["value"]; ok {
+	if _, ok := rawMap["value"]; ok {
+		if _, ok := rawMap["externalValue"]; ok {
+			return errors.New("not constraint failed for Example")
+		}
+
+		if me.Value == nil {
 			var v interface{}
 			me.Value = &v
 		}
-- 
2.43.0


From 31ab00b7ae2ed349f93a1cd7fc833dd28ce5fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 11/23] fix: load references in OpenAPI 3.1 whenever $ref is
 present

---
 openapi31/entities.go | 45 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index ede3df2..4f4d99a 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1995,6 +1995,11 @@ func (e *ExampleOrReference) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		oneOfErrors["Reference"] = err
 		e.Reference = nil
+	} else if e.Reference != nil {
+		// Presence of $ref makes it a reference, other properties are not considered.
+		e.Example = nil
+
+		return nil
 	} else {
 		oneOfValid++
 	}
@@ -2066,6 +2071,11 @@ func (h *HeaderOrReference) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		oneOfErrors["Reference"] = err
 		h.Reference = nil
+	} else if h.Reference != nil {
+		// Presence of $ref makes it a reference, other properties are not considered.
+		h.Header = nil
+
+		return nil
 	} else {
 		oneOfValid++
 	}
@@ -2232,6 +2242,11 @@ func (p *ParameterOrReference) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		oneOfErrors["Reference"] = err
 		p.Reference = nil
+	} else if p.Reference != nil {
+		// Presence of $ref makes it a reference, other properties are not considered.
+		p.Parameter = nil
+
+		return nil
 	} else {
 		oneOfValid++
 	}
@@ -2762,6 +2777,11 @@ func (r *RequestBodyOrReference) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		oneOfErrors["Reference"] = err
 		r.Reference = nil
+	} else if r.Reference != nil {
+		// Presence of $ref makes it a reference, other properties are not considered.
+		r.RequestBody = nil
+
+		return nil
 	} else {
 		oneOfValid++
 	}
@@ -3287,6 +3307,11 @@ func (l *LinkOrReference) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		oneOfErrors["Reference"] = err
 		l.Reference = nil
+	} else if l.Reference != nil {
+		// Presence of $ref makes it a reference, other properties are not considered.
+		l.Link = nil
+
+		return nil
 	} else {
 		oneOfValid++
 	}
@@ -3358,6 +3383,11 @@ func (r *ResponseOrReference) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		oneOfErrors["Reference"] = err
 		r.Reference = nil
+	} else if r.Reference != nil {
+		// Presence of $ref makes it a reference, other properties are not considered.
+		r.Response = nil
+
+		return nil
 	} else {
 		oneOfValid++
 	}
@@ -3528,6 +3558,11 @@ func (p *PathItemOrReference) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		oneOfErrors["Reference"] = err
 		p.Reference = nil
+	} else if p.Reference != nil {
+		// Presence of $ref makes it a reference, other properties are not considered.
+		p.PathItem = nil
+
+		return nil
 	} else {
 		oneOfValid++
 	}
@@ -3599,6 +3634,11 @@ func (c *CallbacksOrReference) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		oneOfErrors["Reference"] = err
 		c.Reference = nil
+	} else if c.Reference != nil {
+		// Presence of $ref makes it a reference, other properties are not considered.
+		c.Callbacks = nil
+
+		return nil
 	} else {
 		oneOfValid++
 	}
@@ -5264,6 +5304,11 @@ func (s *SecuritySchemeOrReference) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		oneOfErrors["Reference"] = err
 		s.Reference = nil
+	} else if s.Reference != nil {
+		// Presence of $ref makes it a reference, other properties are not considered.
+		s.SecurityScheme = nil
+
+		return nil
 	} else {
 		oneOfValid++
 	}
-- 
2.43.0


From 14c9a8a1d61d12b6c9fecfa5bf9d6b3043caef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 12/23] fix: encode scheme of a loaded OpenAPI 3.0 bearer
 security once

---
 openapi3/entities.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 9ce53e6..fcf1286 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -6751,6 +6751,12 @@ var constHTTPSecurityScheme = json.RawMessage(`{"type":"http"}`)
 
 // MarshalJSON encodes JSON.
 func (h HTTPSecurityScheme) MarshalJSON() ([]byte, error) {
+	// Bearer is a scheme too, it must be encoded once.
+	if h.Bearer != nil {
+		h.Scheme = "bearer"
+		h.Bearer = nil
+	}
+
 	return marshalUnion(constHTTPSecurityScheme, marshalHTTPSecurityScheme(h), h.MapOfAnything, h.Bearer, h.NonBearer)
 }
 
-- 
2.43.0


From b7ab0cad4af9ce5856a43a0b3bc5bef756f4269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 13/23] fix: document only parameter styles that the location
 allows

---
 openapi3/reflect.go  | 15 +++++++++------
 openapi31/reflect.go | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index ad16bd6..8893e9c 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -489,14 +489,17 @@ func (r *Reflector) parseParametersIn(
 			collectionFormat := ""
 			refl.ReadStringTag(field.Tag, "collectionFormat", &collectionFormat)
 
-			switch collectionFormat {
-			case "csv":
+			// Styles other than the default one are only allowed in query, and form in cookie.
+			allowForm := in == openapi.InQuery || in == openapi.InCookie
+
+			switch {
+			case collectionFormat == "csv" && allowForm:
 				p.WithStyle(string(QueryParameterStyleForm)).WithExplode(false)
-			case "ssv":
+			case collectionFormat == "ssv" && in == openapi.InQuery:
 				p.WithStyle(string(QueryParameterStyleSpaceDelimited)).WithExplode(false)
-			case "pipes":
+			case collectionFormat == "pipes" && in == openapi.InQuery:
 				p.WithStyle(string(QueryParameterStylePipeDelimited)).WithExplode(false)
-			case "multi":
+			case collectionFormat == "multi" && allowForm:
 				p.WithStyle(string(QueryParameterStyleForm)).WithExplode(true)
 			}
 
@@ -531,7 +534,7 @@ func (r *Reflector) parseParametersIn(
 					return err
 				}
 
-				if ps.HasType(jsonschema.Object) {
+				if in == openapi.InQuery && ps.HasType(jsonschema.Object) {
 					p.WithStyle(string(QueryParameterStyleDeepObject)).WithExplode(true)
 				}
 			}
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 17b20ec..9411d36 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -458,14 +458,17 @@ func (r *Reflector) parseParametersIn(
 			collectionFormat := ""
 			refl.ReadStringTag(field.Tag, "collectionFormat", &collectionFormat)
 
-			switch collectionFormat {
-			case "csv":
+			// Styles other than the default one are only allowed in query, and form in cookie.
+			allowForm := in == openapi.InQuery || in == openapi.InCookie
+
+			switch {
+			case collectionFormat == "csv" && allowForm:
 				p.WithStyle(ParameterStyleForm).WithExplode(false)
-			case "ssv":
+			case collectionFormat == "ssv" && in == openapi.InQuery:
 				p.WithStyle(ParameterStyleSpaceDelimited).WithExplode(false)
-			case "pipes":
+			case collectionFormat == "pipes" && in == openapi.InQuery:
 				p.WithStyle(ParameterStylePipeDelimited).WithExplode(false)
-			case "multi":
+			case collectionFormat == "multi" && allowForm:
 				p.WithStyle(ParameterStyleForm).WithExplode(true)
 			}
 
@@ -501,7 +504,7 @@ func (r *Reflector) parseParametersIn(
 					return err
 				}
 
-				if ps.HasType(jsonschema.Object) {
+				if in == openapi.InQuery && ps.HasType(jsonschema.Object) {
 					p.WithStyle(ParameterStyleDeepObject).WithExplode(true)
 				}
 			}
-- 
2.43.0


From 2519a6f50b9068732e908a9944e66aa761be7e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:08 +0000
Subject: [PATCH 14/23] fix: keep schema that allows anything in OpenAPI 3.1
 parameter, header and media type

---
 openapi31/entities.go | 6 +++---
 openapi31/helper.go   | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 4f4d99a..6c352bd 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1406,7 +1406,7 @@ func (p *Parameter) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (p Parameter) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalParameter(p), p.MapOfAnything)
+	return marshalUnion(marshalParameter(p), emptySchema(p.Schema), p.MapOfAnything)
 }
 
 // MediaType structure is generated from "#/$defs/media-type".
@@ -1562,7 +1562,7 @@ func (m *MediaType) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (m MediaType) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalMediaType(m), m.MapOfAnything)
+	return marshalUnion(marshalMediaType(m), emptySchema(m.Schema), m.MapOfAnything)
 }
 
 // Encoding structure is generated from "#/$defs/encoding".
@@ -1818,7 +1818,7 @@ var constHeader = json.RawMessage(`{"style":"simple"}`)
 
 // MarshalJSON encodes JSON.
 func (h Header) MarshalJSON() ([]byte, error) {
-	return marshalUnion(constHeader, marshalHeader(h), h.MapOfAnything)
+	return marshalUnion(constHeader, marshalHeader(h), emptySchema(h.Schema), h.MapOfAnything)
 }
 
 // Example structure is generated from "#/$defs/example".
diff --git a/openapi31/helper.go b/openapi31/helper.go
index 28c5e37..1b51b37 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -347,3 +347,12 @@ func (p *PathItem) PathItemOrReference() PathItemOrReference {
 		PathItem: p,
 	}
 }
+
+// emptySchema keeps a schema that allows anything, such a schema would be omitted as an empty value otherwise.
+func emptySchema(schema map[string]interface{}) map[string]interface{} {
+	if schema == nil || len(schema) > 0 {
+		return nil
+	}
+
+	return map[string]interface{}{"schema": schema}
+}
-- 
2.43.0


From 40e027c2c8cd5ecb7ff860f81004ee3643671ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 15/23] fix: refuse parameter or header whose content or schema
 is empty

---
 openapi3/entities.go  | 4 ++++
 openapi31/entities.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index fcf1286..8985183 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -3366,6 +3366,10 @@ func (h *HasContent) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if content, ok := mh.Content.(map[string]interface{}); !ok || len(content) == 0 {
+		return errors.New("content is empty")
+	}
+
 	*h = HasContent(mh)
 
 	return nil
diff --git a/openapi31/entities.go b/openapi31/entities.go
index 6c352bd..5769a1e 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1762,7 +1762,7 @@ func (h *Header) UnmarshalJSON(data []byte) error {
 	_, contentExists := rawMap["content"]
 	if schemaExists && contentExists {
 		return fmt.Errorf("both schema and content are set, only one of them is allowed")
-	} else if !schemaExists && !contentExists {
+	} else if mh.Schema == nil && len(mh.Content) == 0 {
 		return fmt.Errorf("schema or content are expected")
 	}
 
-- 
2.43.0


From b434131ca8322bee836e70242a618b7286e407d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 16/23] fix: report form fields of recursive structure in
 WalkRequestJSONSchemas

---
 openapi3/walk_schema.go  | 20 +++++++++++++++++---
 openapi31/walk_schema.go | 20 +++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index e6e092c..11ca6ad 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -3,6 +3,7 @@ package openapi3
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/swaggest/jsonschema-go"
 	"github.com/swaggest/openapi-go"
@@ -148,10 +149,23 @@ func (r *Reflector) WalkRequestJSONSchemas(
 }
 
 func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
-	for name, propertySchema := range schema.TypeObject.Properties {
+	form := schema.TypeObject
+	components, hasComponents := form.ExtraProperties["components"]
+
+	// Recursive schema is a reference to a component that comes with it.
+	if form.Ref != nil && hasComponents {
+		if c, ok := components.(map[string]interface{}); ok {
+			if schemas, ok := c["schemas"].(map[string]jsonschema.SchemaOrBool); ok {
+				dst := schemas[strings.TrimPrefix(*form.Ref, componentsSchemas)]
+				form = dst.TypeObjectEns()
+			}
+		}
+	}
+
+	for name, propertySchema := range form.Properties {
 		propertySchema := propertySchema
 
-		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
+		if propertySchema.TypeObject != nil && hasComponents {
 			cp := *propertySchema.TypeObject
 			propertySchema.TypeObject = &cp
 			propertySchema.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
@@ -159,7 +173,7 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 
 		isRequired := false
 
-		for _, req := range schema.TypeObject.Required {
+		for _, req := range form.Required {
 			if req == name {
 				isRequired = true
 
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index e8121ef..dad6885 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -3,6 +3,7 @@ package openapi31
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/swaggest/jsonschema-go"
 	"github.com/swaggest/openapi-go"
@@ -148,10 +149,23 @@ func (r *Reflector) WalkRequestJSONSchemas(
 }
 
 func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
-	for name, propertySchema := range schema.TypeObject.Properties {
+	form := schema.TypeObject
+	components, hasComponents := form.ExtraProperties["components"]
+
+	// Recursive schema is a reference to a component that comes with it.
+	if form.Ref != nil && hasComponents {
+		if c, ok := components.(map[string]interface{}); ok {
+			if schemas, ok := c["schemas"].(map[string]jsonschema.SchemaOrBool); ok {
+				dst := schemas[strings.TrimPrefix(*form.Ref, componentsSchemas)]
+				form = dst.TypeObjectEns()
+			}
+		}
+	}
+
+	for name, propertySchema := range form.Properties {
 		propertySchema := propertySchema
 
-		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
+		if propertySchema.TypeObject != nil && hasComponents {
 			cp := *propertySchema.TypeObject
 			propertySchema.TypeObject = &cp
 			propertySchema.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
@@ -159,7 +173,7 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 
 		isRequired := false
 
-		for _, req := range schema.TypeObject.Required {
+		for _, req := range form.Required {
 			if req == name {
 				isRequired = true
 
-- 
2.43.0


From 339d9706c21a88a374dde3668b523afe41c378b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 17/23] fix: keep extensions of form fields in
 WalkRequestJSONSchemas

---
 openapi3/walk_schema.go  | 7 ++++++-
 openapi31/walk_schema.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 11ca6ad..4d7ae91 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -167,8 +167,13 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 
 		if propertySchema.TypeObject != nil && hasComponents {
 			cp := *propertySchema.TypeObject
+			cp.ExtraProperties = map[string]interface{}{"components": components}
+
+			for k, v := range propertySchema.TypeObject.ExtraProperties { // Extensions of the property itself.
+				cp.ExtraProperties[k] = v
+			}
+
 			propertySchema.TypeObject = &cp
-			propertySchema.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
 		}
 
 		isRequired := false
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index dad6885..997ab81 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -167,8 +167,13 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 
 		if propertySchema.TypeObject != nil && hasComponents {
 			cp := *propertySchema.TypeObject
+			cp.ExtraProperties = map[string]interface{}{"components": components}
+
+			for k, v := range propertySchema.TypeObject.ExtraProperties { // Extensions of the property itself.
+				cp.ExtraProperties[k] = v
+			}
+
 			propertySchema.TypeObject = &cp
-			propertySchema.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
 		}
 
 		isRequired := false
-- 
2.43.0


From 7fe920ca161e854de253ca3417d5448f2a7fb044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:39 +0000
Subject: [PATCH 18/23] fix: find schema references in all sub-schemas of
 OpenAPI 3.1

Conditions (if, then, else), pattern properties and other applicators were
skipped, so that walks and ResolveJSONSchemaRef gave schemas with references
to components that were not provided.
---
 openapi31/jsonschema.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 62429f7..34871e0 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -88,8 +88,12 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 		return
 	}
 
-	if jso.Not != nil {
-		findReferences(*jso.Not, ctx)
+	for _, sub := range []*jsonschema.SchemaOrBool{
+		jso.Not, jso.If, jso.Then, jso.Else, jso.AdditionalProperties, jso.AdditionalItems, jso.Contains, jso.PropertyNames,
+	} {
+		if sub != nil {
+			findReferences(*sub, ctx)
+		}
 	}
 
 	for _, allOf := range jso.AllOf {
@@ -118,7 +122,13 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 		findReferences(propSchema, ctx)
 	}
 
-	if jso.AdditionalProperties != nil {
-		findReferences(*jso.AdditionalProperties, ctx)
+	for _, propSchema := range jso.PatternProperties {
+		findReferences(propSchema, ctx)
+	}
+
+	for _, dep := range jso.Dependencies {
+		if dep.SchemaOrBool != nil {
+			findReferences(*dep.SchemaOrBool, ctx)
+		}
 	}
 }
-- 
2.43.0


From 0835f778990d51a95dedbc26a652d4393076f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:29 +0000
Subject: [PATCH 19/23] fix: do not inline recursive types of parameters

A query parameter of a recursive structure that has both query and json tags
exhausted the stack, while its type was determined.
---
 openapi3/reflect.go  | 1 -
 openapi31/reflect.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 8893e9c..2e5c891 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -527,7 +527,6 @@ func (r *Reflector) parseParametersIn(
 			} else {
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
 				)
 				if err != nil {
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 9411d36..72ba46e 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -497,7 +497,6 @@ func (r *Reflector) parseParametersIn(
 			} else {
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
 				)
 				if err != nil {
-- 
2.43.0


From 5827069b4b2fcc62c24f58f428e1003723756e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:43 +0000
Subject: [PATCH 20/23] fix: allow repetition braces in patterns of path
 placeholders

The pattern of {id:[0-9]{2}} ended at the first closing brace, so that the
rest of it stayed in the path and {2} was taken for a path parameter.
---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 74b6d4c..d92da29 100644
--- a/operation.go
+++ b/operation.go
@@ -176,7 +176,7 @@ func OperationCtx(rc *jsonschema.ReflectContext) (OperationContext, bool) {
 	return nil, false
 }
 
-var regexFindPathParameter = regexp.MustCompile(`{([^}:]+)(:[^}]+)?(?:})`)
+var regexFindPathParameter = regexp.MustCompile(`{([^}:]+)(:(?:[^{}]|{[^{}]*})+)?(?:})`)
 
 // SanitizeMethodPath validates method and parses path element names.
 func SanitizeMethodPath(method, pathPattern string) (cleanMethod string, cleanPath string, pathParams []string, err error) {
-- 
2.43.0


From cd8c9c824205c48c4874e0d20b2e0e4fce0de5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:38 +0000
Subject: [PATCH 21/23] fix: detect run-time structures in request bodies
 passed by pointer

Fields of a structure that is passed by pointer are walked as pointers, so that
jsonschema.Struct was not found and the request body was not documented.
---
 internal/json_schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index 34b2c0f..d7f4e98 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -68,8 +68,8 @@ func ReflectRequestBody(
 
 	hasJSONSchemaStruct := false
 
-	refl.WalkFieldsRecursively(reflect.ValueOf(input), func(v reflect.Value, _ reflect.StructField, _ []reflect.StructField) {
-		if v.Type() == reflect.TypeOf(jsonschema.Struct{}) {
+	refl.WalkFieldsRecursively(reflect.ValueOf(input), func(_ reflect.Value, sf reflect.StructField, _ []reflect.StructField) {
+		if sf.Type == reflect.TypeOf(jsonschema.Struct{}) {
 			hasJSONSchemaStruct = true
 		}
 	})
-- 
2.43.0


From 1a69486871d14f187da9226fee02b2515aefeee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:18 +0000
Subject: [PATCH 22/23] fix: walking a request body that has content without
 schema

A content unit can be customised to have a media type without schema, walking such a request dereferenced a nil
schema. Responses of that kind are walked without the media type already.
---
 openapi3/walk_schema.go  | 4 ++++
 openapi31/walk_schema.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 4d7ae91..4236472 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -129,6 +129,10 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	}
 
 	for ct, content := range op.RequestBody.RequestBody.Content {
+		if content.Schema == nil {
+			continue
+		}
+
 		schema := content.Schema.ToJSONSchema(r.Spec)
 
 		if ct == mimeJSON {
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 997ab81..7f9ff13 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -129,6 +129,10 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	}
 
 	for ct, content := range op.RequestBody.RequestBody.Content {
+		if content.Schema == nil {
+			continue
+		}
+
 		schema := ToJSONSchema(content.Schema, r.Spec)
 
 		if ct == mimeJSON {
-- 
2.43.0


From fad148a3e8bd9ab9eb719793ecfd4eeaaa7f3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:34 +0000
Subject: [PATCH 23/23] fix: dangling references after a schema failed to
 encode in OpenAPI 3.1

---
 openapi31/reflect.go | 59 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 72ba46e..21fe260 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -389,12 +389,19 @@ func (r *Reflector) parseRequestBody(
 		Schema: sm,
 	}
 
+	// Components are only added when all of them are ready, because they may refer to each other.
+	components := make(map[string]map[string]interface{}, len(definitions))
+
 	for name, def := range definitions {
 		sm, err := def.ToSimpleMap()
 		if err != nil {
 			return err
 		}
 
+		components[name] = sm
+	}
+
+	for name, sm := range components {
 		r.SpecEns().ComponentsEns().WithSchemasItem(name, sm)
 	}
 
@@ -432,8 +439,10 @@ func (r *Reflector) parseParametersIn(
 		return nil
 	}
 
+	defs := collectedDefinitions{}
+
 	s, err := internal.ReflectParametersIn(
-		r.JSONSchemaReflector(), oc, c, in, r.collectDefinition(), func(params jsonschema.InterceptPropParams) error {
+		r.JSONSchemaReflector(), oc, c, in, defs.collect, func(params jsonschema.InterceptPropParams) error {
 			if !params.Processed || len(params.Path) > 1 {
 				return nil
 			}
@@ -476,10 +485,12 @@ func (r *Reflector) parseParametersIn(
 			property := reflect.New(field.Type).Interface()
 			if collectionFormat == "json" || //nolint:nestif
 				(refl.HasTaggedFields(property, tagJSON) && !refl.HasTaggedFields(property, string(in))) {
+				defs := collectedDefinitions{}
+
 				propertySchema, err := r.Reflect(property,
 					openapi.WithOperationCtx(oc, false, in),
 					jsonschema.DefinitionsPrefix(componentsSchemas),
-					jsonschema.CollectDefinitions(r.collectDefinition()),
+					jsonschema.CollectDefinitions(defs.collect),
 					jsonschema.RootRef,
 					sanitizeDefName,
 				)
@@ -487,6 +498,10 @@ func (r *Reflector) parseParametersIn(
 					return err
 				}
 
+				if err := r.addDefinitions(defs); err != nil {
+					return err
+				}
+
 				sm, err := propertySchema.ToSchemaOrBool().ToSimpleMap()
 				if err != nil {
 					return err
@@ -540,6 +555,10 @@ func (r *Reflector) parseParametersIn(
 		return err
 	}
 
+	if err := r.addDefinitions(defs); err != nil {
+		return err
+	}
+
 	if s.AdditionalProperties != nil &&
 		s.AdditionalProperties.TypeBoolean != nil &&
 		!*s.AdditionalProperties.TypeBoolean {
@@ -557,19 +576,39 @@ func sanitizeDefName(rc *jsonschema.ReflectContext) {
 	})(rc)
 }
 
-func (r *Reflector) collectDefinition() func(name string, schema jsonschema.Schema) {
-	return func(name string, schema jsonschema.Schema) {
+// collectedDefinitions are schemas of named types that were found by a reflection.
+type collectedDefinitions map[string]jsonschema.Schema
+
+func (d collectedDefinitions) collect(name string, schema jsonschema.Schema) {
+	if _, exists := d[name]; !exists {
+		d[name] = schema
+	}
+}
+
+// addDefinitions adds components that are missing.
+//
+// Components are only added when all of them are ready, because they may refer to each other.
+func (r *Reflector) addDefinitions(d collectedDefinitions) error {
+	components := make(map[string]map[string]interface{}, len(d))
+
+	for name, schema := range d {
 		if _, exists := r.SpecEns().ComponentsEns().Schemas[name]; exists {
-			return
+			continue
 		}
 
 		sm, err := schema.ToSchemaOrBool().ToSimpleMap()
 		if err != nil {
-			panic("BUG:" + err.Error())
+			return err
 		}
 
+		components[name] = sm
+	}
+
+	for name, sm := range components {
 		r.SpecEns().ComponentsEns().WithSchemasItem(name, sm)
 	}
+
+	return nil
 }
 
 func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationContext, cu openapi.ContentUnit) error {
@@ -729,18 +768,24 @@ func (r *Reflector) ensureResponseContentType(resp *Response, contentType string
 }
 
 func (r *Reflector) parseJSONResponse(resp *Response, oc openapi.OperationContext, cu openapi.ContentUnit) error {
+	defs := collectedDefinitions{}
+
 	sch, err := internal.ReflectJSONResponse(
 		r.JSONSchemaReflector(),
 		cu.Structure,
 		openapi.WithOperationCtx(oc, true, openapi.InBody),
 		jsonschema.DefinitionsPrefix(componentsSchemas),
-		jsonschema.CollectDefinitions(r.collectDefinition()),
+		jsonschema.CollectDefinitions(defs.collect),
 	)
 
 	if err != nil || sch == nil {
 		return err
 	}
 
+	if err := r.addDefinitions(defs); err != nil {
+		return err
+	}
+
 	sm, err := sch.ToSchemaOrBool().ToSimpleMap()
 	if err != nil {
 		return err
-- 
2.43.0

