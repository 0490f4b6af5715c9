package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verifsim/spec"
)

type evidenceIn struct {
	id               string
	p                spec.Prop
	tier             string
	seed             uint64
	s                *stats
	wall, build, run time.Duration
	code             int
	min              *minimised
	path             string
}

func writeEvidence(e evidenceIn) {
	s := e.s

	names := siteNames()
	files := map[string]map[string]bool{}
	all := map[string]map[string]bool{}

	add := func(m map[string]map[string]bool, site string) {
		f, l, _ := strings.Cut(site, ":")
		if m[f] == nil {
			m[f] = map[string]bool{}
		}

		m[f][l] = true
	}

	for _, n := range names {
		add(all, n)
	}

	reached := 0

	for id := range s.sites {
		if id > 0 && int(id) <= len(names) {
			reached++

			add(files, names[id-1])
		}
	}

	reach := map[string]string{}
	for f := range all {
		if len(files[f]) > 0 {
			reach[f] = itoa(len(files[f])) + " of " + itoa(len(all[f])) + " lines with statements"
		}
	}

	perHour := 0.0
	if e.run > 0 {
		perHour = float64(s.runs) * float64(time.Hour) / float64(e.run)
	}

	samples := []interface{}{}
	for _, p := range s.samples {
		samples = append(samples, p)
	}

	if e.min != nil {
		samples = append(samples, e.min.plan)
	}

	ver := map[string]int{}
	for k, n := range s.vers {
		ver["openapi "+k] = n
	}

	cov := map[string]interface{}{
		"evaluations":                      s.runs,
		"distinct_nontrivial":              len(s.nontriv),
		"rule":                             e.p.Rule + " Distinct: by the hash of everything observed in the run.",
		"samples":                          samples,
		"simulated_runs_per_hour":          int(perHour),
		"simulated_time":                   map[string]uint64{"library_statements": s.steps, "client_steps": s.points},
		"faults_injected":                  s.faults,
		"preemptions":                      s.switches,
		"distinct_interleavings":           len(s.traces),
		"interleaving_measure":             "hash of the sequence of task switches and the statement or step at which each happened",
		"distinct_states":                  len(s.states),
		"state_measure":                    "hash of the serialised document, after each observed step",
		"statements_reached":               reached,
		"statements_instrumented":          len(names),
		"reached_by_file":                  reach,
		"runs_by_scenario":                 s.kinds,
		"runs_by_version":                  ver,
		"rare_conditions_reached":          s.probes,
		"runs_repeated_in_another_process": s.rechecks,
		"repeated_runs_that_differed":      len(s.differ),
		"components_real":                  spec.Real,
		"components_simulated":             spec.Stub,
		"build_s":                          e.build.Seconds(),
		"exploration_s":                    e.run.Seconds(),
	}

	if e.min != nil {
		cov["violation"] = map[string]interface{}{
			"what": e.min.res.Violation, "replay": e.path, "minimisation_attempts": e.min.tried, "reproduced_identically": e.min.stable,
		}
	}

	v := map[string]interface{}{
		"property": e.id,
		"tier":     e.tier,
		"seed":     e.seed,
		"level":    "exploration",
		"coverage": cov,
		"assumptions": []string{
			"the seeded search samples plans; it does not enumerate them",
			"samples and tags come from the catalogue and generator in sim/cat and sim/world, which avoid what DESIGN.md lists as out of scope",
		},
		"wall_s":     e.wall.Seconds(),
		"violations": e.code,
	}

	b, _ := json.MarshalIndent(v, "", " ")

	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)

	if err := os.WriteFile(filepath.Join(root, "evidence", e.id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}

func itoa(n int) string {
	b, _ := json.Marshal(n)

	return string(b)
}

var _ = sort.Strings
