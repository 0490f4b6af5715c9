HEAD = '''
package openapi31_test

import (
	"encoding/json"
	"errors"
	"regexp"
	"testing"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi31"
)

var (
	_ = json.Marshal
	_ = regexp.MustCompile
	_ jsonschema.Schema
	_ = errors.New
	_ = openapi.InPath
	_ = openapi31.NewReflector
)
'''
HEAD3 = HEAD.replace("openapi31", "openapi3")
