package main

import (
	"bufio"
	"encoding/json"
	"os"

	"verifsim/simrt"
	"verifsim/spec"
	"verifsim/world"
)

// serve answers requests, one line each.
func serve() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)

	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}

		var q spec.Request
		if err := json.Unmarshal(l, &q); err != nil {
			panic(err)
		}

		var a struct {
			Plan   json.RawMessage `json:"plan,omitempty"`
			Kind   string          `json:"kind,omitempty"`
			Ver    string          `json:"ver,omitempty"`
			Result world.Result    `json:"result"`
			Sites  []uint32        `json:"sites,omitempty"`
		}

		switch {
		case q.Coverage:
			_, a.Sites = simrt.Coverage()
		case q.Known != "":
			a.Result = world.Known(q.Known)
		case q.Plan != nil:
			var p world.Plan
			if err := json.Unmarshal(q.Plan, &p); err != nil {
				a.Result.Harness = err.Error()

				break
			}

			a.Result = world.Exec(p)
		default:
			p := world.Gen(q.Prop, q.Seed, q.Idx)
			a.Kind, a.Ver = p.Kind, p.Ver
			b, err := json.Marshal(p)
			if err != nil {
				panic(err)
			}

			// What is executed is what a replay file holds.
			var p2 world.Plan
			if err := json.Unmarshal(b, &p2); err != nil {
				panic(err)
			}

			a.Result = world.Exec(p2)

			if q.Sample || a.Result.Violation != "" || a.Result.Harness != "" {
				a.Plan = b
			}
		}

		b, err := json.Marshal(a)
		if err != nil {
			panic(err)
		}

		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
