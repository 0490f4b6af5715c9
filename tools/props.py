#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept in the repository so that the text is easy to edit).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

R3, R31 = "openapi3/reflect.go", "openapi31/reflect.go"
H3, H31 = "openapi3/helper.go", "openapi31/helper.go"
W3, W31 = "openapi3/walk_schema.go", "openapi31/walk_schema.go"
E3, E31 = "openapi3/entities.go", "openapi31/entities.go"
Y3, Y31 = "openapi3/yaml.go", "openapi31/yaml.go"
J3, J31 = "openapi3/jsonschema.go", "openapi31/jsonschema.go"
IJ, IO, OP = "internal/json_schema.go", "internal/operation_context.go", "operation.go"

prop("C01", "The first registration of a method and path wins, exactly once",
 "For every history of registrations, however their preparation and completion interleave, at most one registration per HTTP method (in any letter case) and path (after placeholder patterns such as {id:[0-9]+} are reduced to {id}), and at most one webhook per name, is accepted, and every later attempt is rejected with an error. A rejected attempt never replaces, extends or removes the accepted entry or any other entry. A method and path (or webhook name) that is still free is never rejected as already existing.",
 ["histories","schedules"],
 "all sequences and interleavings of NewOperationContext, AddOperation, AddWebhook, Spec.AddOperation, Spec.AddWebhook and re-submission of a used context, by any number of clients over the same document, 3.0 and 3.1",
 "The tests register each method and path once, plus one duplicate in its simplest spelling right after the first; contexts that race between preparation and completion, other spellings of the same target, and what a rejected attempt does to the stored entry are never sampled.",
 [R3,R31,H3,H31,OP],
 [("existence check at context creation","Reflector.NewOperationContext"),("existence check at completion","Spec.AddOperation / Spec.AddWebhook"),("method and path normalisation","openapi.SanitizeMethodPath")],
 [("Paths.MapOfPathItemValues","registered operations","Spec"),("Webhooks","registered webhooks","openapi31.Spec")],
 ["error results","serialised document after every step"])

prop("C02", "A failed registration leaves no trace and can be retried",
 "When a registration or a set-up of an operation fails for any reason (a user hook returning an error or panicking at any of its calls, invalid or missing parameters, a conflict), the paths, the webhooks and every component that existed before are exactly what they were before the attempt, and the document still serialises. Once the cause is gone, registering the same operation through a fresh context succeeds. The document then equals the one of a history in which the failure never happened.",
 ["fault_sequences","histories"],
 "every position (hook call, content unit, set-up function) at which a registration can fail, every failure kind, and every history of earlier and later registrations around it",
 "The tests inject no failures: a handful of invalid-parameter errors are asserted on an otherwise empty document, and nothing looks at the document afterwards or retries.",
 [R3,R31,H3,H31,IJ],
 [("the operation is stored only after request, parameters and responses were set up","Reflector.AddOperation, Reflector.setupOC"),("setup functions run before the path item is stored","Spec.SetupOperation")],
 [("Spec","document under construction","Reflector.Spec")],
 ["error results","serialised document before and after the attempt"])

prop("C03", "Reflectors used concurrently for separate documents never influence each other",
 "When several reflectors build separate documents at the same time, under any interleaving of their steps, every registration has the outcome and every document the bytes that the same client would have got alone, and no memory is accessed in a racy way. Values that the caller shares between them (sample structures, field mappings, tag lists, options, content units) are never modified.",
 ["schedules"],
 "all interleavings, at the granularity of single statements, of clients that each own a reflector and a document but share types, sample values, mappings and options",
 "All tests run on one goroutine and one reflector at a time.",
 [R3,R31,IJ,IO,OP,J3,J31],
 [("no mutable package-level state; all state hangs off the reflector, the document and the operation context","all packages"),("content units are copied into the context","internal.OperationContext.AddReqStructure")],
 [("package-level variables","compiled regular expressions, constants","operation.go, entities.go")],
 ["per-client outcomes and serialised documents","race detector","deep copies of caller-owned values"])

prop("C04", "A finished document can be read concurrently, and reading never changes it",
 "When several tasks at the same time serialise a finished document to JSON or YAML, resolve its schema references, convert its schemas to JSON Schema or look up its operations, each gets, under every interleaving, the result it would have got alone. No memory is accessed in a racy way and the document is unchanged afterwards.",
 ["schedules"],
 "all interleavings, at the granularity of single statements, of readers over documents produced by any history of registrations, including recursive component schemas",
 "No test reads a document from two goroutines, and no test compares the document before and after a read.",
 [E3,E31,Y3,Y31,J3,J31,R3,R31,H31],
 [("marshalers work on copies and write to local buffers","entities.go marshalUnion, MarshalJSON methods"),("schema conversion builds new schemas in a per-call context","openapi3.SchemaOrRef.ToJSONSchema, openapi31.ToJSONSchema")],
 [("Spec","finished document","Reflector.Spec")],
 ["results of every read","race detector","serialised document before and after"])

prop("C05", "The document depends on what was registered, not on order or hash-map randomness",
 "The serialised JSON and YAML of a document is the same for every order and interleaving in which a given set of non-conflicting operations (over distinctly named types) is registered, and for every iteration order of Go's hash maps. Serialising repeatedly, or serialising in between registrations, gives the same bytes.",
 ["schedules","histories"],
 "all orders and interleavings of a set of registrations, all hash seeds and map iteration orders, any number of intermediate serialisations",
 "A test run sees one registration order and a handful of random map orders it neither controls nor can repeat.",
 [R3,R31,IJ,E3,E31,Y3,Y31,H3,H31],
 [("maps are serialised in key order","encoding/json, entities.go marshalUnion"),("ordered keys in YAML","yaml.go orderedMap"),("component definitions do not depend on who defined them first","collectDefinition, parseRequestBody")],
 [("Components.Schemas","shared definitions","Spec")],
 ["MarshalJSON and MarshalYAML bytes"])

prop("C06", "Resuming from a persisted document is equivalent to never having stopped",
 "A document persisted as JSON or YAML and loaded into a fresh document has the same content, whatever it contains, and serialises to the same bytes again. For every crash point in a history of registrations and saves, restarting from the last persisted document and registering everything again rejects exactly what was persisted as already existing, accepts the rest, and ends with the document of an uninterrupted run.",
 ["crash_points","histories"],
 "every crash point of histories of registrations and saves (JSON and YAML), any number of restarts, documents populated with every kind of entity, extension and union member the specification model has",
 "The tests load a few fixed documents and never continue registering into a loaded document.",
 [E3,E31,Y3,Y31,R3,R31,H3,H31],
 [("generated MarshalJSON/UnmarshalJSON of every entity","entities.go"),("YAML goes through the JSON form","yaml.go"),("registrations look at the document, not at reflector memory","Reflector.NewOperationContext, Spec.AddOperation, collectDefinition")],
 [("persisted bytes","durable state","simulated disk")],
 ["serialised documents","accept/reject outcomes after restart"])

prop("C07", "Damaged documents are refused or loaded consistently, and never crash",
 "Loading a persisted JSON or YAML document that was truncated, torn, bit-flipped or structurally altered never panics and always terminates. A JSON document that is cut short is always rejected, and a rejected load leaves an empty document empty. When a load is accepted, the loaded document serialises, and what it serialises to loads again to the same content.",
 ["fault_sequences","inputs"],
 "every truncation, torn or lost write, bit flip and structural edit (member removed, duplicated, retyped, nulled) of documents produced by registration histories or populated with arbitrary entities",
 "The tests load only well-formed documents.",
 [E3,E31,Y3,Y31],
 [("unmarshal into a fresh value, assign on success","entities.go UnmarshalJSON"),("union decoding requires a matching member","entities.go unmarshal of unions"),("key scanner bounded by the token stream","yaml.go objectKeys, skipValue")],
 [("persisted bytes","durable state, damaged by faults","simulated disk")],
 ["errors and panics of UnmarshalJSON and UnmarshalYAML","serialised document after load"])

prop("C08", "Schema walks report every schema exactly once, stop on error, and always finish",
 "Walking the schemas of a request or response calls the callback exactly once for every parameter, header, URL-encoded form field, JSON request body and response body that registering the same content would document, with the right location, name, required flag and schema, and with every component that the schema refers to. The entries of the document stay as they are. When the callback fails at any call, no further callback happens and the walk returns an error that wraps the callback's error. The done function runs exactly once, after the last callback, whether the walk succeeds, fails or panics.",
 ["fault_sequences","inputs"],
 "every content unit, and every callback position at which the callback can return an error or panic, or a reflection hook can fail, in documents with any history",
 "The tests walk a few structures with a callback that never fails.",
 [W3,W31,R3,R31],
 [("walks reuse request and response set-up on a scratch operation","WalkRequestJSONSchemas, WalkResponseJSONSchemas"),("deferred done","walk_schema.go"),("error wrapping","provideParametersJSONSchemas, provideHeaderSchemas, provideFormDataSchemas")],
 [],
 ["sequence of callback and done calls","error result"])

prop("C09", "Reflection hooks always see the operation and location being processed",
 "Whenever a user hook that runs during a registration or walk obtains an operation context, it is the context of the operation being registered (its method, path pattern and content), and it reports whether a request or a response is being processed and the location (path, query, header, cookie, body) that matches the property the hook is called for. This holds at every hook call, also after earlier hooks failed or panicked and when registrations of several contexts interleave. Every declared property is offered to the hooks under its own location.",
 ["histories","fault_sequences","schedules"],
 "every hook call of every history of registrations and walks, with failing hooks and interleaved contexts",
 "One test reads the context in a hook, for one operation.",
 [OP,IO,IJ,R3,R31,W3,W31],
 [("context attached per reflection","openapi.WithOperationCtx"),("processing state set before each reflection","WithOperationCtx callers in reflect.go and internal/json_schema.go")],
 [("processingIn, isProcessingResponse","location being processed","internal.OperationContext")],
 ["openapi.OperationCtx inside InterceptProp and InterceptSchema hooks"])

prop("C10", "The document is well-formed after every step",
 "After every accepted or rejected registration, webhook, walk, injected failure and restart, every local schema reference in the document resolves to a component of the document, and component names use only characters the specification allows. In every registered path operation, the placeholders of the path and the path parameters correspond one to one and path parameters are required, no two parameters share name and location, and there is at least one response. The whole document conforms to the published schema of its OpenAPI version.",
 ["histories","fault_sequences"],
 "every state reachable by registrations, webhooks, walks and restarts with failures injected at any hook call, over all supported request and response structures",
 "The tests compare a few final documents with stored files; they evaluate no invariant on intermediate documents or after failures.",
 [R3,R31,H3,H31,IJ,W3,W31],
 [("parameter validation before storing","Operation.validatePathParams"),("definitions collected with every reflection","collectDefinition, parseRequestBody"),("default 204 response","Spec.AddOperation, Spec.AddWebhook"),("name sanitising","sanitizeDefName")],
 [("Spec","document under construction","Reflector.Spec")],
 ["serialised document after every step"])

prop("C11", "Accepted registrations are recorded completely and stay as recorded",
 "An accepted registration is documented with everything the client declared: method and path, metadata (id, summary, description, tags, deprecation, security), every path, query, header and cookie parameter, every request body media type, and every response with its status, description, headers and media types, each with the schema of the declared type; what was declared can be read back from the operation context. Nothing that happens later, such as other registrations over the same types, rejected attempts, walks, changes of document metadata or security schemes, or serialisation, alters or drops any part of it.",
 ["histories","inputs"],
 "all histories of registrations with any mix of request and response structures, content units, statuses, media types and options, followed by any later activity",
 "The tests compare single final documents for a fixed set of structures; they cannot cover combinations of content units, statuses and media types, nor later activity on shared types.",
 [R3,R31,H3,H31,IJ,IO,J3,"openapi3/reflect_deprecated.go"],
 [("content units merged into one operation","setupRequest, setupResponse"),("parameters from tagged fields","parseParametersIn"),("definitions shared by name","collectDefinition, parseRequestBody")],
 [("Paths, Webhooks, Components","recorded entries","Spec")],
 ["serialised document, compared with an executable reference model after every step"])

prop("C12", "OpenAPI 3.0 and 3.1 documents built from the same history agree",
 "Driven through the common interface with the same history of registrations, failures and restarts, the 3.0 and the 3.1 reflector accept and reject the same operations. Their documents then list the same operations with the same metadata, parameters (name, location, required, style), request and response media types, response statuses, headers and descriptions, and refer to the same component names.",
 ["histories","inputs"],
 "all histories expressible through openapi.Reflector and openapi.OperationContext, with the same failures injected into both",
 "Each version has its own tests over its own fixed structures; nothing drives both with the same history.",
 [R3,R31,H3,H31,IJ,W3,W31],
 [("shared reflection of parameters, bodies and headers","internal/json_schema.go"),("parallel set-up code","openapi3/reflect.go and openapi31/reflect.go")],
 [],
 ["accept/reject outcomes and normalised documents of both versions"])

prop("C13", "Failures of user-supplied encoders surface; output is never partial",
 "When a value supplied by the user (an example, default, enum item or extension) fails to encode, with an error or a panic at any point while the document is serialised to JSON or YAML, the failure reaches the caller and no bytes are returned as if they were the document. Output that is returned without an error is always one complete, valid document. After the encoder recovers, the document serialises to exactly the bytes it would have had without the failure.",
 ["fault_sequences"],
 "every position at which an embedded encoder can fail, every failure kind (error, panic, invalid output), and every sequence of failures and recoveries, for documents with user values at any depth",
 "No test makes serialisation fail.",
 [E3,E31,Y3,Y31],
 [("errors of nested marshalers are propagated","entities.go marshalUnion and MarshalJSON methods"),("YAML is produced from complete JSON only","yaml.go MarshalYAML")],
 [],
 ["results of MarshalJSON and MarshalYAML"])

prop("C14", "Conversion between JSON Schema and OpenAPI schema keeps the constraints",
 "Converting a JSON Schema to an OpenAPI 3.0 schema and back keeps every constraint that OpenAPI 3.0 can express.",
 ["inputs"], "all JSON schemas",
 "The tests convert a few schemas.",
 [J3,J31],
 [("field by field copy","SchemaOrRef.FromJSONSchema, SchemaOrRef.ToJSONSchema")])

prop("C15", "Method and path patterns are sanitised correctly",
 "For every method and path pattern, sanitising yields the lower-case method, the path with placeholder patterns removed, and exactly the placeholder names in order.",
 ["inputs"], "all strings",
 "The tests sanitise a few patterns.",
 [OP],
 [("regular expression","openapi.SanitizeMethodPath")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
