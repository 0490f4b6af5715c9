package world

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/swaggest/openapi-go"
	"verifsim/simrt"
)

// Prep describes a self-contained content unit.
type Prep struct {
	Status int    `json:"status"`
	Type   string `json:"type,omitempty"`
}

// CU describes a content unit of an operation.
type CU struct {
	T      *T                           `json:"t,omitempty"`
	Ptr    bool                         `json:"ptr,omitempty"`
	Prep   *Prep                        `json:"prep,omitempty"`
	CT     string                       `json:"ct,omitempty"`
	Format string                       `json:"format,omitempty"`
	Desc   string                       `json:"desc,omitempty"`
	Status int                          `json:"status,omitempty"`
	Def    bool                         `json:"def,omitempty"`
	Map    map[string]map[string]string `json:"map,omitempty"`
	Ref    string                       `json:"ref,omitempty"`   // customized to be a reference
	CDesc  string                       `json:"cdesc,omitempty"` // customized description
	Mark   string                       `json:"mark,omitempty"`  // customized schemas get an extension
	Blank  string                       `json:"blank,omitempty"` // customized to have content without schema, and a header in case of "all"
	Nil    bool                         `json:"nil,omitempty"`   // the sample is a nil pointer of its type

	keep *kept // values that are made once and shared
}

// kept are the values of a content unit that clients share.
type kept struct {
	sample interface{}
	opts   []openapi.ContentOption
	unit   openapi.ContentUnit
}

// Sec is a security requirement.
type Sec struct {
	Name   string   `json:"name"`
	Scopes []string `json:"scopes,omitempty"`
}

// OpSpec describes what a client declares for an operation.
type OpSpec struct {
	Method string   `json:"method"`
	Path   string   `json:"path"`
	ID     string   `json:"id,omitempty"`
	Sum    string   `json:"sum,omitempty"`
	Desc   string   `json:"desc,omitempty"`
	Tags   []string `json:"tags,omitempty"`
	Depr   bool     `json:"depr,omitempty"`
	Sec    []Sec    `json:"sec,omitempty"`
	Req    []CU     `json:"req,omitempty"`
	Resp   []CU     `json:"resp,omitempty"`
	Bad    string   `json:"bad,omitempty"` // why it must be rejected

	Draft bool `json:"draft,omitempty"` // metadata is set twice, the last one counts

	Own json.RawMessage `json:"own,omitempty"` // what is set directly in the operation that the context exposes
}

// Fault makes the n-th hook call of a step misbehave.
type Fault struct {
	At   int    `json:"at,omitempty"` // number of the call
	Pm   int    `json:"pm,omitempty"` // instead of At: position among all calls of the step, per mille
	By   bool   `json:"by,omitempty"` // the position is one among the kinds of hooks, then one among the calls of that kind
	Kind string `json:"kind"`         // err, panic, read, nest
	Stay bool   `json:"stay,omitempty"`
	Step *Step  `json:"step,omitempty"` // what the hook does, in case of nest
}

// Step is one action of a simulated client.
type Step struct {
	Op     string          `json:"op"`
	Slot   int             `json:"slot,omitempty"`
	Spec   *OpSpec         `json:"spec,omitempty"`
	CU     *CU             `json:"cu,omitempty"`
	Name   string          `json:"name,omitempty"`
	Arg    string          `json:"arg,omitempty"`
	N      int             `json:"n,omitempty"`
	Raw    json.RawMessage `json:"raw,omitempty"`
	Faults []Fault         `json:"faults,omitempty"`
}

// Cfg configures reflectors of a run.
type Cfg struct {
	NoTags  bool     `json:"notags,omitempty"`  // ProcessWithoutTags
	Inline  []string `json:"inline,omitempty"`  // inlined definitions
	Strip   string   `json:"strip,omitempty"`   // StripDefinitionNamePrefix
	Rename  string   `json:"rename,omitempty"`  // InterceptDefName suffix
	Map     bool     `json:"map,omitempty"`     // type mapping Text -> string pattern
	EnvNull bool     `json:"envnull,omitempty"` // EnvelopNullability
	Hooks   bool     `json:"hooks,omitempty"`   // install observing hooks
	Bare    bool     `json:"bare,omitempty"`    // the reflector is a zero value
}

// Plan is one run, completely.
type Plan struct {
	Prop    string          `json:"prop"`
	Kind    string          `json:"kind,omitempty"` // scenario of the property
	Ver     string          `json:"ver"`
	MapSeed uint64          `json:"mapseed"`
	Cfg     Cfg             `json:"cfg"`
	Clients [][]Step        `json:"clients"`
	Sched   []simrt.Switch  `json:"sched,omitempty"`
	Base    json.RawMessage `json:"base,omitempty"` // document that is there from the start
	Extra   json.RawMessage `json:"extra,omitempty"`
}

// Result of a run.
type Result struct {
	Violation string            `json:"violation,omitempty"` // what is broken
	Class     string            `json:"class,omitempty"`     // kind of violation, stable under minimisation
	Known     []string          `json:"known,omitempty"`
	Faults    map[string]int    `json:"faults,omitempty"` // injected faults, as fired
	Probes    map[string]int    `json:"probes,omitempty"` // rare conditions hit
	Steps     uint64            `json:"steps"`
	Points    uint64            `json:"points"`
	Switches  uint64            `json:"switches"`
	Trace     uint64            `json:"trace"` // interleaving hash
	State     []uint64          `json:"state,omitempty"`
	Hash      uint64            `json:"hash"`              // hash of everything observed
	Harness   string            `json:"harness,omitempty"` // the harness itself failed
	Nontriv   bool              `json:"nontriv"`
	Log       []string          `json:"log,omitempty"`
	Extra     map[string]string `json:"extra,omitempty"`
}

func (r *Result) fault(kind string) {
	if r.Faults == nil {
		r.Faults = map[string]int{}
	}

	r.Faults[kind]++
}

func (r *Result) probe(kind string) {
	if r.Probes == nil {
		r.Probes = map[string]int{}
	}

	r.Probes[kind]++
}

func (r *Result) observe(s string) {
	h := r.Hash
	if h == 0 {
		h = 14695981039346656037
	}

	h = fnv(h, s)
	r.Hash = h
}

func (r *Result) state(s []byte) {
	r.State = append(r.State, fnv(14695981039346656037, string(s)))
}

func fnv(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}

	return (h ^ 0xff) * 1099511628211
}

func (r *Result) violate(class, format string, a ...interface{}) {
	if r.Violation != "" {
		return
	}

	r.Class = class
	r.Violation = fmt.Sprintf(format, a...)
}

// Verbose makes runs keep a readable log.
var Verbose = os.Getenv("SIM_VERBOSE") != ""

func (r *Result) logf(format string, a ...interface{}) {
	if Verbose {
		r.Log = append(r.Log, fmt.Sprintf(format, a...))
	}
}
