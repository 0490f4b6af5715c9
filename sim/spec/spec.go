// Package spec describes the decided properties and what drivers and workers tell each other.
package spec

import "encoding/json"

// Result of a run, as the driver needs it.
type Result struct {
	Violation string         `json:"violation,omitempty"`
	Class     string         `json:"class,omitempty"`
	Faults    map[string]int `json:"faults,omitempty"`
	Probes    map[string]int `json:"probes,omitempty"`
	Steps     uint64         `json:"steps"`
	Points    uint64         `json:"points"`
	Switches  uint64         `json:"switches"`
	Trace     uint64         `json:"trace"`
	State     []uint64       `json:"state,omitempty"`
	Hash      uint64         `json:"hash"`
	Harness   string         `json:"harness,omitempty"`
	Nontriv   bool           `json:"nontriv"`
}

// Request to a worker.
type Request struct {
	Prop     string          `json:"prop,omitempty"`
	Seed     uint64          `json:"seed,omitempty"`
	Idx      int             `json:"idx,omitempty"`
	Sample   bool            `json:"sample,omitempty"` // return the plan in any case
	Plan     json.RawMessage `json:"plan,omitempty"`   // instead of a generated one
	Known    string          `json:"known,omitempty"`  // scenario of a known finding
	Coverage bool            `json:"coverage,omitempty"`
}

// Answer of a worker.
type Answer struct {
	Plan   json.RawMessage `json:"plan,omitempty"`
	Kind   string          `json:"kind,omitempty"`
	Ver    string          `json:"ver,omitempty"`
	Result Result          `json:"result"`
	Sites  []uint32        `json:"sites,omitempty"`
}

// Prop describes how a property is decided.
type Prop struct {
	Quick int  // number of runs of a quick check
	Race  bool // build with the race detector
	Chunk int  // number of runs of a worker process, 120 by default
	Rule  string
}

const regRule = "Each run is one seeded plan: the declarations of every simulated client, the schedule of their steps, " +
	"the injected faults and the seed of hash-map randomness. "

// Props are the decided properties.
var Props = map[string]Prop{
	"C01": {Quick: 16000, Rule: regRule + "Non-trivial: at least one accepted registration and at least one rejected rival."},
	"C02": {Quick: 9000, Rule: regRule + "Non-trivial: at least one registration failed and was retried."},
	"C03": {Quick: 3600, Race: true, Chunk: 20, Rule: "Each run is one seeded plan: what the clients share, the configuration and version of each client's document, its steps, " +
		"the schedule of preemptions at statements of the library and the seed of hash-map randomness. " +
		"Non-trivial: at least two clients built their documents concurrently and each was compared with the one built alone and with the model."},
	"C04": {Quick: 5000, Race: true, Chunk: 30, Rule: "Each run is one seeded plan: a document (loaded or made by registrations), the tasks that read it, what each reads, " +
		"the schedule of preemptions at statements of the library and the seed of hash-map randomness. " +
		"Non-trivial: at least two tasks read the document and every result was compared with the one obtained alone."},
	"C05": {Quick: 9000, Rule: regRule + "Non-trivial: at least two differing orders of the same registrations were compared."},
	"C06": {Quick: 9000, Rule: regRule + "Non-trivial: a document was restored and compared."},
	"C07": {Quick: 14000, Rule: regRule + "Non-trivial: at least one damaged document was loaded or refused."},
	"C08": {Quick: 12000, Rule: regRule + "Non-trivial: at least one content unit was walked with all failures of the callback."},
	"C09": {Quick: 18000, Rule: regRule + "Non-trivial: at least one registration or walk was observed by hooks."},
	"C10": {Quick: 14000, Rule: regRule + "Non-trivial: at least one accepted and one failed registration or walk."},
	"C11": {Quick: 14000, Rule: regRule + "Non-trivial: at least one accepted registration with parameters, bodies or responses was compared with the model."},
	"C12": {Quick: 9000, Rule: regRule + "Non-trivial: at least one operation was accepted in both versions."},
	"C13": {Quick: 14000, Rule: "Each run is one seeded plan: a document (loaded or made by registrations), which of its values are encoders of the user, " +
		"the clients that serialise it, the schedule of their steps and of the encoder calls, the failures of encoders and the seed of hash-map randomness. " +
		"Non-trivial: at least one encoder was called."},
}

// Real and Stub components.
const (
	Real = "openapi-go (all packages, from the working tree), jsonschema-go, refl, yaml.v2, encoding/json, reflect: real code; " +
		"library statements carry yield points inserted by a build overlay"
	Stub = "hash-map randomness of the Go runtime (seeded), task scheduling (seeded, one task at a time), disk (in memory), " +
		"user hooks, samples and encoders (simulated)"
)
