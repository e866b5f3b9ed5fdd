package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Replay is what a replay file holds: a complete job and the violation that
// running it reproduces.
type Replay struct {
	Property   string   `json:"property"`
	Violation  Viol     `json:"violation"`
	Seed       uint64   `json:"seed"`
	Job        *Job     `json:"job"`
	LogHash    uint64   `json:"loghash"`
	Frozen     bool     `json:"frozen"` // every fault and scheduling decision is listed; otherwise they follow from the plan's seed
	Reproduced string   `json:"reproduced"`
	Ops        int      `json:"operations"`
	Faults     int      `json:"faults"`
	Decisions  int      `json:"decisions"`
	From       string   `json:"minimised_from"`
	Trace      []string `json:"trace,omitempty"`
}

// effort is how much a check does.
type effort struct {
	runs   int
	wall   time.Duration // safety: the sweep stops early after this long
	shrink time.Duration
}

func effortOf(prop, tier string) effort {
	e := effort{runs: 10000, wall: 150 * time.Second, shrink: 25 * time.Second}
	switch prop {
	case "C15", "C16":
		e.runs = 30000
	case "C04":
		e.runs = 5000
	case "C13":
		e.runs = 1500
	case "C25":
		e.runs = 3000
	}
	if tier == "thorough" {
		e.runs *= 25
		e.wall, e.shrink = 780*time.Second, 60*time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil && v > 0 {
		e.runs = v
	}
	return e
}

// batch is how many runs are made before violations are looked at. It is
// fixed, so that what a check reports does not depend on the machine's speed.
const batch = 500

func check(prop, tier string) int {
	if tier != "quick" && tier != "thorough" {
		usage()
	}
	t0 := time.Now()
	vseed := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 40); err == nil {
		vseed = v
	}
	fmt.Printf("property %s, tier %s, VERIF_SEED=%d\n", prop, tier, vseed)
	e := effortOf(prop, tier)
	b := buildSim(scratch(), prop == "C13")
	known := knownFindings()
	s := newSweep()
	from := vseed * 10_000_000
	t1 := time.Now()
	var bad []*seen
	listed := map[string]bool{}
	for done := 0; done < e.runs && time.Since(t1) < e.wall; done += batch {
		n := min(batch, e.runs-done)
		parallel(n, workers, func(i int) {
			seed := from + uint64(done+i)
			s.add(seed, b.run(&Job{Prop: prop, Seed: seed, Tier: tier}))
		})
		if s.harness != "" {
			break
		}
		bad = bad[:0]
		for _, x := range s.sorted() {
			if !relevant(prop, x.v) {
				continue
			}
			if f := isKnown(known, prop, x.v.Sig); f != nil {
				if !listed[f.sig] {
					listed[f.sig] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.text)
				}
				continue
			}
			bad = append(bad, x)
		}
		if len(bad) > 0 {
			break
		}
	}
	sweepS := time.Since(t1).Seconds()
	trouble := s.harness
	for _, f := range known {
		if f.prop == prop && !listed[f.sig] && trouble == "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this run)\n", prop, f.text)
		}
	}
	// spot check that runs repeat exactly
	same, differ := 0, 0
	if trouble == "" && len(bad) == 0 {
		var seeds []uint64
		for k := range s.hashes {
			seeds = append(seeds, k)
		}
		sort.Slice(seeds, func(i, j int) bool { return mixed(seeds[i]) < mixed(seeds[j]) })
		seeds = seeds[:min(len(seeds), 40)]
		two := newSweep()
		parallel(len(seeds), workers, func(i int) { two.add(seeds[i], b.run(&Job{Prop: prop, Seed: seeds[i], Tier: tier})) })
		for _, k := range seeds {
			if two.hashes[k] == s.hashes[k] {
				same++
			} else {
				differ++
				fmt.Fprintf(os.Stderr, "note: seed %d did not repeat exactly\n", k)
			}
		}
	}
	reported := 0
	var notes []string
	if len(bad) > 0 {
		sort.SliceStable(bad, func(i, j int) bool { return bad[i].seed < bad[j].seed })
		for _, x := range bad {
			if reported == 3 {
				break
			}
			r, err := minimise(b, prop, tier, x, e.shrink)
			if err != nil {
				notes = append(notes, err.Error())
				fmt.Fprintln(os.Stderr, "note:", err)
				continue
			}
			path := saveReplay(r)
			reported++
			fmt.Printf("%s violated (%d of %d runs, first with seed %d): [%s] %s\n", prop, x.n, s.runs, x.seed, x.v.Sig, firstN(r.Violation.Msg, 12))
			fmt.Printf("  minimised: %s\n", r.From)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		}
		if reported == 0 && trouble == "" {
			trouble = "violations were seen but none could be reproduced: " + strings.Join(notes, "; ")
		}
	}
	writeEvidence(prop, tier, vseed, e, b, s, sweepS, time.Since(t0).Seconds(), len(bad), same, differ, trouble)
	fmt.Printf("%s: %d runs in %.1f s (%.0f seeds/h), %.0f s of simulated time, %d distinct schedules, %d distinct histories\n", prop, s.runs, sweepS, float64(s.runs)/sweepS*3600, s.simS, len(s.sched), len(s.hist))
	switch {
	case reported > 0:
		return 1
	case trouble != "":
		fmt.Fprintln(os.Stderr, "simctl: no verdict:", trouble)
		return 3
	}
	return 0
}

func mixed(x uint64) uint64 {
	x ^= x >> 31
	x *= 0x9e3779b97f4a7c15
	return x ^ x>>29
}

func isKnown(l []fileFinding, prop, sig string) *fileFinding {
	for i := range l {
		if l[i].prop == prop && l[i].sig == sig {
			return &l[i]
		}
	}
	return nil
}

func saveReplay(r *Replay) string {
	dir := filepath.Join(verifDir, "replays")
	must(os.MkdirAll(dir, 0o755))
	j, err := json.MarshalIndent(r, "", " ")
	must(err)
	p := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", r.Property, uint32(hashOf(r.Violation.Sig)^hashOf(string(j)))))
	writeFile(p, append(j, '\n'))
	return p
}

// ---- minimisation

type shrinker struct {
	b      *program
	prop   string
	sig    string
	tag    string
	until  time.Time
	tries  int
	strict bool
}

func (s *shrinker) over() bool { return time.Now().After(s.until) }

// fails runs a job and returns its result if it shows the violation.
func (s *shrinker) fails(j *Job) (*Result, Viol, bool) {
	k := *j
	k.Strict = s.strict && !j.Trace
	r := s.b.run(&k)
	if r.Harness != "" {
		return nil, Viol{}, false
	}
	for _, v := range r.Viols {
		if v.Sig == s.sig && v.Prop == s.tag {
			return r, v, true
		}
	}
	return nil, Viol{}, false
}

// first tries candidates on all cores and returns the index of the first (not
// the fastest) that fails, or -1.
func (s *shrinker) first(n int, mk func(i int) *Job) int {
	for at := 0; at < n && !s.over(); at += workers {
		m := min(workers, n-at)
		ok := make([]bool, m)
		parallel(m, workers, func(i int) {
			if j := mk(at + i); j != nil {
				_, _, ok[i] = s.fails(j)
			}
		})
		s.tries += m
		for i := range ok {
			if ok[i] {
				return at + i
			}
		}
	}
	return -1
}

// reduce removes as many of n elements as it can; try(keep) builds the job
// that keeps the listed elements.
func (s *shrinker) reduce(n int, try func(keep []int) *Job) []int {
	keep := make([]int, n)
	for i := range keep {
		keep[i] = i
	}
	if n == 0 {
		return keep
	}
	if s.first(1, func(int) *Job { return try(nil) }) == 0 {
		return nil
	}
	for size := (n + 1) / 2; size >= 1 && !s.over(); {
		parts := (len(keep) + size - 1) / size
		without := func(i int) []int {
			var k []int
			k = append(k, keep[:i*size]...)
			return append(k, keep[min(len(keep), (i+1)*size):]...)
		}
		i := s.first(parts, func(i int) *Job { return try(without(i)) })
		if i >= 0 {
			keep = without(i)
			continue
		}
		if size == 1 {
			break
		}
		size /= 2
	}
	return keep
}

func pickRaw(l []json.RawMessage, keep []int) (out []json.RawMessage) {
	for _, i := range keep {
		out = append(out, l[i])
	}
	return
}

func minimise(b *program, prop, tier string, x *seen, budget time.Duration) (*Replay, error) {
	s := &shrinker{b: b, prop: prop, sig: x.v.Sig, tag: x.v.Prop, until: time.Now().Add(budget)}
	base := &Job{Prop: prop, Seed: x.seed, Tier: tier}
	r0, _, ok := s.fails(base)
	if !ok {
		return nil, fmt.Errorf("seed %d: [%s] did not show up again", x.seed, x.v.Sig)
	}
	plan := r0.Plan
	if plan == nil { // the process died: ask for the plan alone
		q := b.run(&Job{Prop: prop, Seed: x.seed, Tier: tier, PlanOnly: true})
		if q.Plan == nil {
			return nil, fmt.Errorf("seed %d: no plan: %s", x.seed, q.Harness)
		}
		plan = q.Plan
	}
	from := fmt.Sprintf("%d operations, %d injected datagrams, %d outages, %d faults, %d scheduling decisions", len(plan.Ops), len(plan.Inj), len(plan.Win), len(r0.Faults), len(r0.Decisions))
	job := func(p *Plan) *Job { return &Job{Prop: prop, Seed: x.seed, Tier: tier, Plan: p} }
	s.strict = true
	_, _, ok = s.fails(job(plan))
	if !ok {
		s.strict = false
		_, _, ok = s.fails(job(plan))
	}
	if ok {
		for _, part := range []func(p *Plan) *[]json.RawMessage{
			func(p *Plan) *[]json.RawMessage { return &p.Ops },
			func(p *Plan) *[]json.RawMessage { return &p.Inj },
			func(p *Plan) *[]json.RawMessage { return &p.Win },
			func(p *Plan) *[]json.RawMessage { return &p.Clock },
		} {
			all := *part(plan)
			with := func(keep []int) *Plan {
				q := plan.clone()
				*part(q) = pickRaw(all, keep)
				return q
			}
			keep := s.reduce(len(all), func(k []int) *Job { return job(with(k)) })
			plan = with(keep)
		}
		// faults that are not needed
		var ks []string
		for k := range plan.Net {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			q := plan.clone()
			delete(q.Net, k)
			if s.over() {
				break
			}
			s.tries++
			if _, _, ok := s.fails(job(q)); ok {
				plan = q
			}
		}
		for _, f := range []func(p *Plan){
			func(p *Plan) { p.Sched = Sched{} },
			func(p *Plan) { p.Sched.StallDen, p.Sched.MaxStalls = 0, 0 },
			func(p *Plan) { p.Sched.PreemptDen = 0 },
			func(p *Plan) { p.Sched.Policy = 0 },
		} {
			q := plan.clone()
			f(q)
			if s.over() {
				break
			}
			s.tries++
			if _, _, ok := s.fails(job(q)); ok {
				plan = q
			}
		}
		// fewer objects and properties per operation, no pauses
		for i := 0; i < len(plan.Ops) && !s.over(); i++ {
			plan = s.simplerOp(plan, i, job)
		}
	} else {
		return nil, fmt.Errorf("seed %d: [%s] does not follow from the recorded plan", x.seed, x.v.Sig)
	}
	fin := job(plan)
	// freeze: list every fault and every scheduling decision, then drop those
	// that are not needed
	rec := *fin
	rec.Trace, rec.Stream = true, true
	frozen := false
	if r, _, ok := s.fails(&rec); ok && !r.Overflow {
		fz := *fin
		fz.Replay, fz.Faults, fz.Decisions = true, r.Faults, r.Decisions
		if _, _, ok := s.fails(&fz); ok {
			frozen = true
			s.until = time.Now().Add(budget)
			fk := s.reduce(len(fz.Faults), func(k []int) *Job {
				q := fz
				q.Faults = nil
				for _, i := range k {
					q.Faults = append(q.Faults, fz.Faults[i])
				}
				return &q
			})
			var fs []Fault
			for _, i := range fk {
				fs = append(fs, fz.Faults[i])
			}
			fz.Faults = fs
			dk := s.reduce(len(fz.Decisions), func(k []int) *Job {
				q := fz
				q.Decisions = nil
				for _, i := range k {
					q.Decisions = append(q.Decisions, fz.Decisions[i])
				}
				return &q
			})
			var ds [][2]uint64
			for _, i := range dk {
				ds = append(ds, fz.Decisions[i])
			}
			fz.Decisions = ds
			fin = &fz
		}
	}
	// two fresh processes must agree
	fin.Trace = true
	r1, v1, ok1 := s.fails(fin)
	r2, _, ok2 := s.fails(fin)
	if !ok1 || !ok2 || fingerprint(r1) != fingerprint(r2) {
		return nil, fmt.Errorf("seed %d: [%s] the minimised run does not repeat exactly", x.seed, x.v.Sig)
	}
	tr := r1.Trace
	if len(tr) > 400 {
		tr = append(tr[:400:400], "...")
	}
	return &Replay{Property: prop, Violation: v1, Seed: x.seed, Job: fin, LogHash: r1.LogHash, Frozen: frozen,
		Reproduced: "identically in two fresh processes", Ops: len(fin.Plan.Ops), Faults: len(fin.Faults), Decisions: len(fin.Decisions),
		From:  fmt.Sprintf("%s -> %d operations, %d injected datagrams, %d outages, %d faults, %d scheduling decisions (%d candidate runs)", from, len(fin.Plan.Ops), len(fin.Plan.Inj), len(fin.Plan.Win), len(fin.Faults), len(fin.Decisions), s.tries),
		Trace: tr}, nil
}

// simplerOp tries to simplify one operation.
func (s *shrinker) simplerOp(plan *Plan, i int, job func(*Plan) *Job) *Plan {
	alter := func(f func(m map[string]interface{}) bool) {
		if s.over() {
			return
		}
		var m map[string]interface{}
		d := json.NewDecoder(strings.NewReader(string(plan.Ops[i])))
		d.UseNumber()
		if d.Decode(&m) != nil || !f(m) {
			return
		}
		b, err := json.Marshal(m)
		if err != nil {
			return
		}
		q := plan.clone()
		q.Ops[i] = b
		s.tries++
		if _, _, ok := s.fails(job(q)); ok {
			plan = q
		}
	}
	alter(func(m map[string]interface{}) bool {
		if fmt.Sprint(m["at"]) == "0" {
			return false
		}
		m["at"] = 0
		return true
	})
	for k := 0; k < 12; k++ {
		stop := true
		alter(func(m map[string]interface{}) bool {
			l, _ := m["s"].([]interface{})
			if len(l) < 2 || k >= len(l) {
				return false
			}
			stop = false
			j := len(l) - 1 - k
			m["s"] = append(append([]interface{}{}, l[:j]...), l[j+1:]...)
			return true
		})
		if stop {
			break
		}
	}
	return plan
}

// ---- replay

func replay(file string) int {
	raw, err := os.ReadFile(file)
	must(err)
	var r Replay
	must(json.Unmarshal(raw, &r))
	b := buildSim(scratch(), r.Property == "C13")
	one, two := b.run(r.Job), b.run(r.Job)
	if one.Harness != "" {
		fmt.Fprintln(os.Stderr, "simctl:", one.Harness)
		return 3
	}
	for _, l := range one.Trace {
		fmt.Println(l)
	}
	hit := false
	for _, v := range one.Viols {
		if v.Sig == r.Violation.Sig && v.Prop == r.Violation.Prop {
			hit = true
			fmt.Printf("[%s] %s\n", v.Sig, v.Msg)
		}
	}
	fmt.Printf("two runs agree: %v; same execution as recorded: %v\n", fingerprint(one) == fingerprint(two), one.LogHash == r.LogHash)
	if !hit {
		fmt.Println("the violation does not occur on this tree")
		return 0
	}
	abs, _ := filepath.Abs(file)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, abs)
	return 1
}

// ---- evidence

func writeEvidence(prop, tier string, vseed uint64, e effort, b *program, s *sweep, sweepS, wall float64, viols, same, differ int, trouble string) {
	if len(s.samples) == 0 {
		s.samples = []string{}
	}
	cov := map[string]interface{}{
		"evaluations":         s.runs,
		"distinct_nontrivial": len(s.hist),
		"rule":                "one evaluation is one simulated run: seed -> plan (world, calls per caller thread, fault mix, scheduler policy) -> one exactly repeatable execution. Counted as distinct and non-trivial: runs with at least one client call and traffic (or mailbox/subscription activity) whose history of calls, datagrams and results differs from every other run's (64-bit hash).",
		"samples":             s.samples,
		"seeds":               fmt.Sprintf("%d..%d", vseed*10_000_000, vseed*10_000_000+uint64(max(s.runs, 1))-1),
		"runs_planned":        e.runs,
		"seeds_per_hour":      int(float64(s.runs) / sweepS * 3600),
		"simulated_seconds":   s.simS,
		"faults_fired":        s.kinds,
		"runs_with_fault":     s.runsWith,
		"probes":              s.probes,
		"distinct_schedules":  len(s.sched),
		"scheduling_choices":  s.choices,
		"preemptions":         s.preempts,
		"goroutine_stalls":    s.stalls,
		"statements_executed": s.steps,
		"statements_reached":  fmt.Sprintf("%d of %d instrumented statements of the repository", s.points(), len(b.locs)),
		"crashed_runs":        s.crashes,
		"repeatability":       fmt.Sprintf("%d of %d re-run seeds repeated with identical event log, schedule and history", same, same+differ),
		"race_detector":       b.race,
		"build_seconds":       b.wallS,
		"real_components":     realParts(prop),
		"simulated_components": []string{"goroutine scheduler and select order (runtime overlay)", "clock, timers, contexts (simulated time)", "randomness seen by the code", "network interfaces and their addresses",
			"UDP sockets: the network between client, devices, routers and BBMDs", "BACnet devices, routers and BBMDs (independent implementation in the harness)"},
	}
	if trouble != "" {
		cov["trouble"] = trouble
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": vseed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viols,
		"assumptions": []string{
			"sampling, not enumeration: a clean batch is evidence for the seeds run",
			"preemption happens between statements of the repository's own code and at blocking operations; library code runs without preemption in between",
			"the simulated devices follow ASHRAE 135 as written down in harness/wire.go and harness/device.go, which share no code with the repository",
			"GOMAXPROCS=1: parallel execution is represented by interleaving; memory-model effects only by the race detector of C13",
		},
	}
	j, err := json.MarshalIndent(ev, "", " ")
	must(err)
	dir := filepath.Join(verifDir, "evidence")
	must(os.MkdirAll(dir, 0o755))
	writeFile(filepath.Join(dir, prop+".json"), append(j, '\n'))
}

func realParts(prop string) []string {
	switch prop {
	case "C15":
		return []string{"tsm (real code, every goroutine)", "Go runtime primitives (channels, mutexes) of " + runtime.Version()}
	case "C16":
		return []string{"utsm (real code, every goroutine)", "Go runtime primitives (channels, mutexes) of " + runtime.Version()}
	}
	out := []string{"bacnet client", "datalink (UDP)", "encoding", "btypes", "tsm", "utsm", "Go runtime primitives (channels, mutexes) of " + runtime.Version()}
	if prop == "C14" || prop == "C19" || prop == "C20" || prop == "C25" {
		out = append(out, "network", "helpers/store")
	}
	return out
}
