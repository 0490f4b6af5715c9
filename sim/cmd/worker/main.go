package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"

	"verifsim/simrt"
	"verifsim/world"
)

func main() {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMaxStack(128 << 20)
	simrt.Idle()

	a := os.Args[1:]

	switch a[0] {
	case "serve":
		serve()
	case "try": // prop seed from to
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		from, _ := strconv.Atoi(a[3])
		to, _ := strconv.Atoi(a[4])
		bad := 0
		nt := 0

		var steps uint64
		for i := from; i < to; i++ {
			p := world.Gen(a[1], seed, i)
			r := world.Exec(p)
			steps += r.Steps
			if os.Getenv("SIM_HASH") != "" {
				fmt.Println("hash", i, r.Hash, r.Trace, r.Steps)
			}
			if r.Nontriv {
				nt++
			}
			if r.Violation != "" || r.Harness != "" {
				bad++
				fmt.Printf("%d %s: [%s] %s %s\n", i, p.Ver, r.Class, r.Violation, r.Harness)
				if bad > 10 {
					break
				}
			}
			for _, l := range r.Log {
				fmt.Println("   ", l)
			}
		}
		fmt.Println("bad", bad, "nontrivial", nt, "steps", steps)
	case "run":
		b, _ := os.ReadFile(a[1])
		var p world.Plan
		if err := json.Unmarshal(b, &p); err != nil {
			panic(err)
		}
		r := world.Exec(p)
		b, _ = json.MarshalIndent(r, "", " ")
		fmt.Println(string(b))
	case "known":
		b, _ := json.MarshalIndent(world.Known(a[1]), "", " ")
		fmt.Println(string(b))
	case "show":
		seed, _ := strconv.ParseUint(a[2], 10, 64)
		from, _ := strconv.Atoi(a[3])
		b, _ := json.MarshalIndent(world.Gen(a[1], seed, from), "", " ")
		fmt.Println(string(b))
	}
}
