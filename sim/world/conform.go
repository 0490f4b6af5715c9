package world

import (
	_ "embed" // Schemas of the specifications.
	"fmt"
	"math"
	"regexp"
	"strings"
	"unicode/utf8"
)

// The published schemas of OpenAPI documents, and a small validator of the keywords they use.

//go:embed schema/openapi3.json
var schema30 []byte

//go:embed schema/openapi31.json
var schema31 []byte

type conform struct {
	root obj
	res  map[string]*regexp.Regexp
}

var conforms = map[string]*conform{
	"3.0": {root: parse(schema30).(obj), res: map[string]*regexp.Regexp{}},
	"3.1": {root: parse(schema31).(obj), res: map[string]*regexp.Regexp{}},
}

// conforms tells why a document does not conform to the schema of its version.
func conformance(ver string, doc interface{}) string {
	c := conforms[ver]
	_, err := c.check(c.root, doc, "")

	return err
}

func (c *conform) match(p, s string) bool {
	re := c.res[p]
	if re == nil {
		re = regexp.MustCompile(p)
		c.res[p] = re
	}

	return re.MatchString(s)
}

func (c *conform) ref(r string) interface{} {
	var v interface{} = c.root

	for _, p := range strings.Split(strings.TrimPrefix(r, "#"), "/") {
		if p == "" {
			continue
		}

		p = strings.ReplaceAll(strings.ReplaceAll(p, "~1", "/"), "~0", "~")
		v = v.(obj)[p]
	}

	if v == nil {
		panic("harness: no schema " + r)
	}

	return v
}

func typeName(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "null"
	case bool:
		return "boolean"
	case string:
		return "string"
	case obj:
		return "object"
	case []interface{}:
		return "array"
	case float64:
		if v == math.Trunc(v) {
			return "integer"
		}
	default:
		s := canon(v)
		if !strings.ContainsAny(s, ".eE") {
			return "integer"
		}
	}

	return "number"
}

// check validates a value and tells which members of an object were evaluated.
func (c *conform) check(schema, v interface{}, at string) (seen map[string]bool, err string) {
	if b, ok := schema.(bool); ok {
		if !b {
			return nil, at + ": not allowed"
		}

		return nil, ""
	}

	s := schema.(obj)
	seen = map[string]bool{}

	sub := func(x interface{}, v interface{}, at string) string {
		_, err := c.check(x, v, at)

		return err
	}

	join := func(x interface{}) string {
		m, err := c.check(x, v, at)
		if err == "" {
			for k := range m {
				seen[k] = true
			}
		}

		return err
	}

	if r, ok := s["$ref"].(string); ok {
		if err := join(c.ref(r)); err != "" {
			return nil, err
		}
	}

	if _, ok := s["$dynamicRef"]; ok { // A schema in a schema document.
		switch v.(type) {
		case bool, obj:
		default:
			return nil, at + ": a schema is neither object nor boolean"
		}
	}

	if t, ok := s["type"]; ok {
		l, ok := t.([]interface{})
		if !ok {
			l = []interface{}{t}
		}

		fine := false

		for _, t := range l {
			n := typeName(v)
			fine = fine || t == n || t == "number" && n == "integer"
		}

		if !fine {
			return nil, fmt.Sprintf("%s: %s where %v is due", at, typeName(v), t)
		}
	}

	if l, ok := s["enum"].([]interface{}); ok {
		fine := false
		for _, e := range l {
			fine = fine || equalJSON(e, v)
		}

		if !fine {
			return nil, fmt.Sprintf("%s: %s is not one of %s", at, clip(canon(v)), canon(l))
		}
	}

	if e, ok := s["const"]; ok && !equalJSON(e, v) {
		return nil, fmt.Sprintf("%s: %s is not %s", at, clip(canon(v)), canon(e))
	}

	num := func(k string) (float64, bool) {
		n, ok := s[k]
		if !ok {
			return 0, false
		}

		var f float64

		_, err := fmt.Sscan(canon(n), &f)

		return f, err == nil
	}

	switch x := v.(type) {
	case string:
		if p, ok := s["pattern"].(string); ok && !c.match(p, x) {
			return nil, fmt.Sprintf("%s: %q does not match %q", at, x, p)
		}

		if n, ok := num("minLength"); ok && utf8.RuneCountInString(x) < int(n) {
			return nil, at + ": too short"
		}
	case []interface{}:
		if n, ok := num("minItems"); ok && len(x) < int(n) {
			return nil, fmt.Sprintf("%s: less than %v items", at, n)
		}

		if s["uniqueItems"] == true {
			m := map[string]bool{}

			for _, e := range x {
				if k := canon(e); m[k] {
					return nil, fmt.Sprintf("%s: item %s is repeated", at, clip(k))
				} else {
					m[k] = true
				}
			}
		}

		if it, ok := s["items"]; ok {
			for i, e := range x {
				if err := sub(it, e, fmt.Sprintf("%s/%d", at, i)); err != "" {
					return nil, err
				}
			}
		}
	case obj:
		if err := c.object(s, x, at, seen); err != "" {
			return nil, err
		}
	case nil, bool:
	default:
		var f float64

		_, _ = fmt.Sscan(canon(x), &f)

		if n, ok := num("minimum"); ok && (f < n || s["exclusiveMinimum"] == true && f == n) {
			return nil, fmt.Sprintf("%s: %v is too small", at, f)
		}
	}

	if l, ok := s["allOf"].([]interface{}); ok {
		for _, x := range l {
			if err := join(x); err != "" {
				return nil, err
			}
		}
	}

	for _, k := range []string{"anyOf", "oneOf"} {
		l, ok := s[k].([]interface{})
		if !ok {
			continue
		}

		n, first := 0, ""

		for _, x := range l {
			err := join(x)
			if err == "" {
				n++
			}

			// The reason that goes deepest says most.
			if strings.Count(err, "/") > strings.Count(first, "/") || first == "" {
				first = err
			}
		}

		if n == 0 {
			return nil, fmt.Sprintf("%s (none of the alternatives of %s)", first, at)
		}

		if n > 1 && k == "oneOf" {
			return nil, fmt.Sprintf("%s: %d alternatives match", at, n)
		}
	}

	if x, ok := s["not"]; ok && sub(x, v, at) == "" {
		return nil, fmt.Sprintf("%s: matches what it must not: %s", at, clip(canon(x)))
	}

	if x, ok := s["if"]; ok {
		next := "then"
		if join(x) != "" {
			next = "else"
		}

		if x, ok := s[next]; ok {
			if err := join(x); err != "" {
				return nil, err
			}
		}
	}

	o, ok := v.(obj)
	if !ok {
		return seen, ""
	}

	if d, ok := s["dependentSchemas"].(obj); ok {
		for _, k := range sortedKeys(d) {
			if _, ok := o[k]; ok {
				if err := join(d[k]); err != "" {
					return nil, err
				}
			}
		}
	}

	if u, ok := s["unevaluatedProperties"]; ok {
		for _, k := range sortedKeys(o) {
			if !seen[k] {
				if err := sub(u, o[k], at+"/"+k); err != "" {
					return nil, err
				}
			}

			seen[k] = true
		}
	}

	return seen, ""
}

func (c *conform) object(s, o obj, at string, seen map[string]bool) string {
	if l, ok := s["required"].([]interface{}); ok {
		for _, k := range l {
			if _, ok := o[k.(string)]; !ok {
				return fmt.Sprintf("%s: %s is missing", at, k)
			}
		}
	}

	for k, cmp := range map[string]int{"minProperties": -1, "maxProperties": 1} {
		if n, ok := s[k]; ok {
			var i int

			_, _ = fmt.Sscan(canon(n), &i)

			if (len(o)-i)*cmp > 0 {
				return fmt.Sprintf("%s: has %d members, %s is %d", at, len(o), k, i)
			}
		}
	}

	props, _ := s["properties"].(obj)
	pats, _ := s["patternProperties"].(obj)
	add, hasAdd := s["additionalProperties"]

	for _, k := range sortedKeys(o) {
		known := false
		p := at + "/" + k

		if n, ok := s["propertyNames"]; ok {
			if _, err := c.check(n, k, p); err != "" {
				return err
			}
		}

		if x, ok := props[k]; ok {
			known = true

			if _, err := c.check(x, o[k], p); err != "" {
				return err
			}
		}

		for _, pat := range sortedKeys(pats) {
			if !c.match(pat, k) {
				continue
			}

			known = true

			if _, err := c.check(pats[pat], o[k], p); err != "" {
				return err
			}
		}

		if !known && hasAdd {
			known = true

			if _, err := c.check(add, o[k], p); err != "" {
				return err
			}
		}

		if known {
			seen[k] = true
		}
	}

	return ""
}
