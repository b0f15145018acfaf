package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"time"
)

// output runs a subcommand of this program and returns what it prints.
func (d *driver) output(limit time.Duration, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := d.cmd(ctx, false, args...)
	b, err := c.CombinedOutput()
	return string(b), err
}

type evid struct {
	total                   Stats
	distinct, nontrivial    int
	viols, again, raceRuns  int
	other                   map[string]int
	searched                float64
	planned, skipped, batch int
	base                    uint64
	known                   []string
}

var realParts = []string{"json-dom (all packages, rebuilt from /repo's working tree)", "gotils", "hjson-go", "otto", "Go runtime (scheduler, channels, select, timers, maps) and standard library"}

var stubParts = map[string][]string{
	"":    {"clock (virtual)", "scheduling decisions and map/hash randomness (seeded)", "console writers (recording, fault injecting)"},
	"C12": {"clock (virtual)", "scheduling decisions and map/hash randomness (seeded)", "results of system calls on the tool's files and standard streams (scripted faults; the calls that succeed are real, on a scratch directory)"},
}

func (d *driver) evidence(e evid) {
	st := &e.total
	stubs := stubParts[""]
	rule := "one run = one seed: a generated workload (documents, scripts, callbacks, filters, histories, caller threads), one scheduling policy with its seed, one map/hash order seed, one set of injected faults. Counted as distinct and non-trivial: runs in which at least one scheduling decision departed from first-in-first-out or at least one fault fired, with different hashes over all dispatched goroutines, decisions, faults, virtual times, results and console messages."
	if d.prop == "C12" || d.prop == "C15" {
		stubs = stubParts["C12"]
		rule = "one run = one seed: a generated command line with its files, executed by the real tool in simulated processes (C12: one without faults and several with scripted system call faults; C15: several with different schedule and map order seeds). Counted as distinct and non-trivial: runs in which a fault fired or a decision departed from the default, with different hashes over decisions, system calls, faults, output bytes and exit codes."
	}
	hours := e.searched / 3600
	faults := map[string]int{}
	put := func(k string, n int) {
		if n > 0 {
			faults[k] += n
		}
	}
	put("goroutine stalled", int(st.Stalls))
	put("timer fired late", int(st.LateTimers))
	put("wall clock set", int(st.ClockJumps))
	for k, v := range st.WFaults {
		put("console writer: "+k, v)
	}
	for k, v := range st.Fired {
		put(k, v)
	}
	put("code halted at its limit", st.Halts)
	put("operation failed with an error", st.Errors)
	put("operation panicked as documented", st.Panics)
	var samples []interface{}
	for i := uint64(0); i < 2; i++ {
		b, err := json.Marshal(genCase(d.prop, e.base+i*7))
		if err != nil {
			continue
		}
		if len(b) > 6000 {
			samples = append(samples, fmt.Sprintf("seed %d: %s ...", e.base+i*7, b[:6000]))
		} else {
			samples = append(samples, json.RawMessage(b))
		}
	}
	cov := map[string]interface{}{
		"evaluations":                       st.Runs,
		"distinct_nontrivial":               e.distinct,
		"rule":                              rule,
		"samples":                           samples,
		"nontrivial_runs":                   e.nontrivial,
		"planned_runs":                      e.planned,
		"runs_skipped_for_time":             e.skipped,
		"simulated_executions":              st.Execs,
		"runs_per_hour":                     int(float64(st.Runs) / hours),
		"seeds_per_hour":                    int(float64(st.Runs) / hours),
		"simulated_seconds":                 float64(st.VirtualNS) / 1e9,
		"simulated_seconds_per_wall_second": float64(st.VirtualNS) / 1e9 / e.searched,
		"first_seed":                        e.base,
		"scheduling": map[string]interface{}{
			"decisions": st.Decisions, "non_default_decisions": st.NonDefault, "goroutine_switches": st.Switches, "yields": st.Yields,
			"interpreter_and_statement_steps": st.Steps, "goroutines": st.Goroutines, "max_runnable": st.MaxRunnable, "policies": st.Policies},
		"distinct_interleavings": e.distinct,
		"interleaving_measure":   "hash over the sequence of dispatched goroutines, scheduling and yield decisions, injected faults, virtual completion times, results and messages",
		"operations":             st.Ops,
		"faults_fired":           faults,
		"console_messages":       st.Msg,
		"runs_repeated_in_another_process_with_equal_hash": e.again,
		"runs_under_race_detector":                         e.raceRuns,
		"departures_belonging_to_other_properties":         e.other,
		"known_findings_observed":                          e.known,
		"real_components":                                  realParts,
		"stubbed_components":                               stubs,
	}
	ev := map[string]interface{}{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"scheduling is explored at synchronisation operations, at statements of json-dom's packages and at JavaScript nodes, not between machine instructions (unsynchronised accesses are found by the race detector's build instead)",
			"virtual CPU time is a model: each statement and JavaScript node costs the same; goroutines do not compete for processors",
			"sampling: no violation in the explored runs is evidence, not proof",
		},
		"wall_s": time.Since(d.t0).Seconds(), "violations": e.viols,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(d.verif, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(d.verif, "evidence", d.prop+".json"), b, 0o644)
	}
	if err != nil {
		d.fail("evidence: %v", err)
	}
}
