// Command driver decides one property: it builds the simulation from the working tree of the repository,
// explores seeded runs in worker processes, minimises what fails and writes evidence.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/spec"
)

var (
	root  string // of /verif
	repo  = "/repo"
	build string
)

func note(format string, a ...interface{}) { fmt.Printf(format+"\n", a...) }

func fatal(format string, a ...interface{}) {
	fmt.Printf("ERROR: "+format+"\n", a...)
	os.RemoveAll(build)
	os.Exit(3)
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: driver check PROPERTY | driver replay FILE")
	}

	if d := os.Getenv("VERIF_REPO"); d != "" {
		repo = d
	}

	wd, _ := os.Getwd()
	root = filepath.Dir(wd)

	var err error

	if err := os.MkdirAll(filepath.Join(root, ".build"), 0o755); err != nil {
		fatal("%v", err)
	}

	build, err = os.MkdirTemp(filepath.Join(root, ".build"), "run-")
	if err != nil {
		fatal("%v", err)
	}

	code := 0

	switch os.Args[1] {
	case "check":
		code = check(os.Args[2])
	case "replay":
		code = replay(os.Args[2])
	default:
		fatal("unknown command %s", os.Args[1])
	}

	os.RemoveAll(build)
	os.Exit(code)
}

func run(env []string, name string, args ...string) {
	c := exec.Command(name, args...)
	c.Env = append(os.Environ(), env...)

	if out, err := c.CombinedOutput(); err != nil {
		fatal("%s %s: %v\n%s", name, strings.Join(args, " "), err, out)
	}
}

// makeWorker builds the worker from the current working tree of the repository.
func makeWorker(p spec.Prop) string {
	run(nil, "go", "run", "./cmd/instr", repo, filepath.Join(build, "o"))

	w := filepath.Join(build, "worker")
	args := []string{"build", "-overlay", filepath.Join(build, "o", "overlay.json"), "-o", w}

	if p.Race {
		args = append(args, "-race")
	}

	if repo != "/repo" {
		// Another tree, in development only.
		b, _ := os.ReadFile("go.mod")
		s, _ := os.ReadFile("go.sum")
		m := filepath.Join(build, "go.mod")
		os.WriteFile(m, []byte(strings.ReplaceAll(string(b), "=> /repo", "=> "+repo)), 0o644)
		os.WriteFile(filepath.Join(build, "go.sum"), s, 0o644)
		args = append(args, "-modfile", m)
	}

	run(nil, "go", append(args, "./cmd/worker")...)

	return w
}

type found struct {
	idx  int
	from int // first run of the process
	plan json.RawMessage
	res  Result
}

type stats struct {
	mu       sync.Mutex
	runs     int
	nontriv  map[uint64]bool
	traces   map[uint64]bool
	states   map[uint64]bool
	faults   map[string]int
	probes   map[string]int
	kinds    map[string]int
	vers     map[string]int
	steps    uint64
	points   uint64
	switches uint64
	sites    map[uint32]bool
	found    []found
	harness  []found
	rechecks int
	differ   []int
	restarts int
	samples  []json.RawMessage
}

func (s *stats) add(from, idx int, a answer) {
	s.mu.Lock()
	defer s.mu.Unlock()

	r := a.Result
	s.runs++
	s.steps += r.Steps
	s.points += r.Points
	s.switches += r.Switches
	s.kinds[a.Kind]++
	s.vers[a.Ver]++

	if r.Nontriv {
		s.nontriv[r.Hash] = true
	}

	s.traces[r.Trace] = true

	for _, h := range r.State {
		s.states[h] = true
	}

	for k, n := range r.Faults {
		s.faults[k] += n
	}

	for k, n := range r.Probes {
		s.probes[k] += n
	}

	if r.Violation != "" {
		s.found = append(s.found, found{idx: idx, from: from, plan: a.Plan, res: r})
	}

	if r.Harness != "" {
		s.harness = append(s.harness, found{idx: idx, from: from, plan: a.Plan, res: r})
	}
}

func check(id string) int {
	t0 := time.Now()

	p, ok := spec.Props[id]
	if !ok {
		fatal("unknown property %s", id)
	}

	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}

	seed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}

	runs, limit := p.Quick, 400*time.Second
	if tier == "thorough" {
		runs, limit = 1<<30, 1500*time.Second

		if v, err := time.ParseDuration(os.Getenv("VERIF_TIME")); err == nil {
			limit = v
		}
	}

	bin := makeWorker(p)
	buildTime := time.Since(t0)
	t1 := time.Now()

	s := &stats{
		nontriv: map[uint64]bool{}, traces: map[uint64]bool{}, states: map[uint64]bool{}, faults: map[string]int{},
		probes: map[string]int{}, kinds: map[string]int{}, vers: map[string]int{}, sites: map[uint32]bool{},
	}

	var (
		mu   sync.Mutex
		next int
		wg   sync.WaitGroup
	)

	chunk := p.Chunk
	if chunk == 0 {
		chunk = 120
	}

	take := func() (int, int, bool) {
		mu.Lock()
		defer mu.Unlock()

		s.mu.Lock()
		stop := len(s.found) > 0 || len(s.harness) > 0
		s.mu.Unlock()

		if stop || next >= runs || time.Since(t1) > limit {
			return 0, 0, false
		}

		from := next
		next += chunk

		if next > runs {
			next = runs
		}

		return from, next, true
	}

	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}

	for i := 0; i < par; i++ {
		wg.Add(1)

		go func() {
			defer wg.Done()

			for {
				from, to, ok := take()
				if !ok {
					return
				}

				w := newWorker(bin, p)
				start := from

				for idx := from; idx < to; idx++ {
					a := w.ask(request{Prop: id, Seed: seed, Idx: idx, Sample: idx < 2})
					if a.fatal != "" {
						// The process died: see whether this run alone is the reason.
						w.close()

						w2 := newWorker(bin, p)
						a = w2.ask(request{Prop: id, Seed: seed, Idx: idx})
						w2.close()

						start = idx + 1

						if a.fatal != "" {
							a = w.fatalAnswer(id, seed, idx, a.fatal)
						}

						w = newWorker(bin, p)
					}

					s.add(start, idx, a)

					if idx < 2 {
						s.mu.Lock()
						s.samples = append(s.samples, a.Plan)
						s.mu.Unlock()
					}

					if a.Result.Violation != "" {
						break
					}

					if idx == from+7 {
						// The same seed in another process must do exactly the same.
						w2 := newWorker(bin, p)
						b := w2.ask(request{Prop: id, Seed: seed, Idx: idx})
						w2.close()

						s.mu.Lock()
						s.rechecks++

						if b.Result.Hash != a.Result.Hash || b.Result.Trace != a.Result.Trace || b.Result.Violation != a.Result.Violation {
							s.differ = append(s.differ, idx)
						}
						s.mu.Unlock()
					}
				}

				for _, id := range w.coverage() {
					s.mu.Lock()
					s.sites[id] = true
					s.mu.Unlock()
				}

				w.close()
			}
		}()
	}

	wg.Wait()

	runTime := time.Since(t1)

	if len(s.harness) > 0 && len(s.found) == 0 {
		h := s.harness[0]
		fatal("the harness failed in run %d of seed %d: %s", h.idx, seed, h.res.Harness)
	}

	code := 0
	path := ""

	var min *minimised

	if len(s.found) > 0 {
		sort.Slice(s.found, func(i, j int) bool { return s.found[i].idx < s.found[j].idx })

		f := s.found[0]
		m := minimise(bin, p, f, seed, 60*time.Second)
		min = &m
		path = m.write(id, seed, f.idx)
		code = 1

		note("run %d of seed %d: [%s] %s", f.idx, seed, m.res.Class, m.res.Violation)
	}

	known(bin, p, id)

	writeEvidence(evidenceIn{
		id: id, p: p, tier: tier, seed: seed, s: s, wall: time.Since(t0), build: buildTime, run: runTime, code: code, min: min, path: path,
	})

	note("%s %s: %d runs of seed %d in %.1fs (%d distinct non-trivial, %d interleavings, %d states), build %.1fs",
		id, tier, s.runs, seed, runTime.Seconds(), len(s.nontriv), len(s.traces), len(s.states), buildTime.Seconds())

	if len(s.differ) > 0 {
		note("NOTE: %d of %d repeated runs differed: %v", len(s.differ), s.rechecks, s.differ)
	}

	if code == 1 {
		note("VIOLATION property=%s replay=%s", id, path)
	}

	return code
}

// known prints the known findings that are listed and still fail.
func known(bin string, p spec.Prop, id string) {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return
	}

	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}

		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		name := strings.Fields(rest)[0]

		w := newWorker(bin, p)
		a := w.ask(request{Known: name})
		w.close()

		if a.Result.Violation != "" || a.fatal != "" {
			note("KNOWN-FINDING: property=%s %s", id, rest)
		} else {
			note("note: the known finding %s does not fail any more", name)
		}
	}
}
