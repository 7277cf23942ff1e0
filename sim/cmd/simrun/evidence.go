package main

import (
	"encoding/json"
	"os"
	"sort"
	"strings"
	"time"
)

type budget struct {
	runs     uint64
	secs     int
	raceRuns uint64
	raceSecs int
}

// quickRuns is the number of simulated runs of the quick tier.
var quickRuns = map[string]budget{
	"C01": {38000, 90, 0, 0},
	"C02": {38000, 90, 0, 0},
	"C03": {32000, 90, 0, 0},
	"C04": {32000, 90, 0, 0},
	"C05": {51000, 90, 0, 0},
	"C06": {48000, 90, 0, 0},
	"C07": {8000, 90, 1200, 60},
	"C08": {64000, 90, 6000, 60},
	"C09": {128000, 90, 0, 0},
	"C10": {38000, 90, 0, 0},
	"C11": {38000, 90, 0, 0},
	"C12": {32000, 90, 0, 0},
	"C13": {128000, 90, 0, 0},
	"C14": {8000, 90, 1200, 60},
	"C15": {76000, 90, 0, 0},
	"C16": {38000, 90, 0, 0},
	"C17": {38000, 90, 0, 0},
	"C18": {38000, 90, 0, 0},
	"C19": {38000, 90, 0, 0},
	"C21": {38000, 90, 0, 0},
	"C22": {38000, 90, 0, 0},
	"C23": {38000, 90, 0, 0},
	"C24": {38000, 90, 0, 0},
	"C25": {64000, 90, 6000, 40},
	"C26": {38000, 90, 0, 0},
	"C27": {38000, 90, 0, 0},
	"C28": {16000, 90, 0, 0},
	"C29": {96000, 90, 0, 0},
}

func budgetOf(prop string, thorough bool) budget {
	b := quickRuns[prop]
	if b.runs == 0 {
		b = budget{20000, 100, 4000, 80}
	}
	if thorough {
		b.runs *= 25
		b.secs = 560
		if b.raceRuns > 0 {
			b.secs = 330
		}
		b.raceRuns *= 40
		b.raceSecs = 230
	}
	return b
}

var rules = map[string]string{
	"C01": "a run is a generated, corpus or damaged file with 2 to 4 deliveries; non-trivial if a delivery took more than one Read",
	"C02": "a run is a file with 5 read errors at chosen offsets; non-trivial if an error reached the library",
	"C03": "a run is a file with 5 ends (EOF or error) after which the reader goes on; non-trivial if an end was reached",
	"C04": "a run is a file with 8 cuts; non-trivial if the whole file is accepted",
	"C05": "a run is a file, intact and with up to 11 storage faults; non-trivial if one was accepted and matched against its tokens",
	"C06": "a run is 4 to 10 streams with storage and read faults, or one flood; every run is non-trivial",
	"C07": "a run is 2 to 6 concurrent Parse calls under one schedule; non-trivial if the tasks were really interleaved",
	"C08": "a run is 1 to 5 tasks on one tree under one schedule; non-trivial if they were interleaved, or a single task that left the tree unchanged was checked",
	"C09": "a run is a tree with one full and 6 pruned traversals; non-trivial if the tree has at least 2 visitable nodes",
	"C10": "a run is a history of 3 to 10 calls; non-trivial if a call behind another one was compared with a fresh process",
	"C11": "a run is 2 streams, each parsed with debug off, with debug on, and with debug off under a faulty log; non-trivial if the log was written to",
	"C12": "a run is 4 calls with readers of different types and faults; every run is non-trivial",
	"C13": "a run is a sequence of lexer operations with inserted lookahead; non-trivial if lookahead was inserted",
	"C14": "a run is 2 to 4 results, overwritten one by one or concurrently; non-trivial if there was a result",
	"C15": "a run is 2 files read declaration by declaration; non-trivial if a file was accepted",
	"C16": "a run is 4 damaged copies of a file that is accepted intact; non-trivial if one was rejected",
	"C17": "a run is 2 to 5 files made of the same 2 to 5 whole declarations; non-trivial if all are accepted alone",
	"C18": "a run is 8 damaged copies of a file; non-trivial if the file and a damaged copy are accepted",
	"C21": "a run is 8 damaged copies of a file; non-trivial if one is accepted",
	"C22": "a run is 8 damaged copies of a file with more comments; non-trivial if one is accepted and has comments",
	"C23": "a run is 8 damaged copies of a file, parsed without and with permissive mode; non-trivial if one is accepted without it",
	"C24": "a run is 8 damaged copies of a file, parsed and regrouped as a whole and block by block; non-trivial if one is accepted",
	"C25": "a run is a damaged file whose result 1 to 4 tasks ask for what it derives, under one schedule; non-trivial if there is a comment, a syntax or an error to ask",
	"C26": "a run is 8 damaged copies of a file, parsed with and without the options; non-trivial if an option was set",
	"C27": "a run is 4 damaged copies of a file, each with 5 other continuations behind the place of the error; non-trivial if one is rejected at a token",
	"C28": "a run is a content with a part repeated n, 2n and 4n times; every run in which these are all accepted or all rejected is non-trivial",
	"C29": "a run is a content read token by token in a sequence of recognition modes, with lookahead; non-trivial if it has a character",
	"C19": "a run is 6 copies of a file in which only comments, names, strings or white space are changed; non-trivial if the file is accepted and a copy differs",
}

func evidence(p *property, all []*workerResult, raceRuns int64, seed uint64, tier, sitesFile string, start time.Time) map[string]interface{} {
	sum := newStats()
	distinct := map[uint64]bool{}
	scheds := map[uint64]bool{}
	cover := map[int]bool{}
	deadline := false
	for _, w := range all {
		s := w.Stats
		if s == nil {
			continue
		}
		sum.Runs += s.Runs
		sum.SimNanos += s.SimNanos
		sum.Steps += s.Steps
		sum.Reads += s.Reads
		sum.Calls += s.Calls
		sum.Trees += s.Trees
		sum.Errors += s.Errors
		sum.Switches += s.Switches
		sum.Trivial += s.Trivial
		for k, v := range s.Faults {
			sum.Faults[k] += v
		}
		for k, v := range s.Probes {
			sum.Probes[k] += v
		}
		if s.MaxPerByte > sum.MaxPerByte {
			sum.MaxPerByte = s.MaxPerByte
		}
		for _, h := range w.Distinct {
			distinct[h] = true
		}
		for _, h := range w.Schedules {
			scheds[h] = true
		}
		for _, c := range w.Cover {
			cover[c] = true
		}
		deadline = deadline || w.DeadlineAt
	}
	wall := time.Since(start).Seconds()
	// one sample run, regenerated
	var samples []interface{}
	for i := uint64(0); i < 400 && i < uint64(sum.Runs) && len(samples) < 2; i++ {
		c := genCase(p, seed, i, false, tier == "thorough")
		if b, err := json.Marshal(c); err == nil && len(b) < 6000 {
			samples = append(samples, map[string]interface{}{"run": i, "case": c})
		}
	}
	hours := wall / 3600
	cov := map[string]interface{}{
		"evaluations":         int(sum.Runs),
		"distinct_nontrivial": len(distinct),
		"rule":                rules[p.id] + ". Distinct by the 64-bit hash of the complete case (texts, faults, deliveries, answers, schedule seed).",
		"samples":             samples,
		"race_build_runs":     raceRuns,
		"trivial_runs":        sum.Trivial,
		"runs_per_hour":       int(float64(sum.Runs) / hours),
		"seeds":               "every run has a seed of its own, derived from VERIF_SEED, the property, the phase and the run number: one run is one seed",
		"simulated_seconds":   float64(sum.SimNanos) / 1e9,
		"calls_of_the_library": map[string]interface{}{
			"total": sum.Calls, "trees": sum.Trees, "errors": sum.Errors, "steps": sum.Steps, "reads": sum.Reads,
			"max_steps_per_byte": sum.MaxPerByte,
		},
		"faults_injected":             sum.Faults,
		"observed":                    sum.Probes,
		"context_switches":            sum.Switches,
		"distinct_interleavings":      len(scheds),
		"distinct_interleavings_note": "hash of the sequence (task, statements executed, state) of runs with several tasks",
		"stopped_at_time_limit":       deadline,
		"real_code":                   "all non-test code of /repo (root package, lexer, scanner, parser, meta, interpret/unordered) and the standard library",
		"stubs":                       "reader, visitor, log destination, scheduler and clock are simulated; package sync inside /repo would be replaced by a simulated one",
	}
	if sitesFile != "" {
		if b, err := os.ReadFile(sitesFile); err == nil {
			var sites []site
			if json.Unmarshal(b, &sites) == nil {
				total, hit := 0, 0
				missed := map[string]int{}
				for _, s := range sites {
					if strings.HasPrefix(s.File, "_") || strings.HasPrefix(s.File, "internal") {
						continue
					}
					total++
					if cover[s.ID] {
						hit++
					} else {
						missed[s.File+" "+s.Func]++
					}
				}
				var miss []string
				for k := range missed {
					miss = append(miss, k)
				}
				sort.Strings(miss)
				if len(miss) > 60 {
					miss = miss[:60]
				}
				cov["yield_points"] = map[string]interface{}{"total": total, "reached": hit, "functions_with_unreached_points": miss}
			}
		}
	}
	return map[string]interface{}{
		"property": p.id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov,
		"assumptions": []string{
			"seeded search: what no run reached is not covered",
			"the instrumented copy (a yield point before every statement) behaves like the source",
		},
		"wall_s": wall,
	}
}
