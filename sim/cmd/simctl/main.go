package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func usage() {
	fmt.Fprintln(os.Stderr, `usage: simctl check PROPERTY quick|thorough
       simctl replay FILE
       simctl explore PROPERTY RUNS [FROM]      list what a sweep of seeds finds
       simctl run PROPERTY SEED                 one run with its trace
       simctl determinism PROPERTY RUNS         run seeds twice and compare`)
	os.Exit(3)
}

func arg(i int) string {
	if i >= len(os.Args) {
		usage()
	}
	return os.Args[i]
}

func num(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		usage()
	}
	return n
}

const workers = 8

func scratch() string {
	d, err := os.MkdirTemp("", "verifsim")
	must(err)
	cleanup = d
	return d
}

func main() {
	switch arg(1) {
	case "check":
		os.Exit(finish(check(arg(2), arg(3))))
	case "replay":
		os.Exit(finish(replay(arg(2))))
	case "explore":
		from := uint64(1)
		if len(os.Args) > 4 {
			from = num(os.Args[4])
		}
		explore(arg(2), num(arg(3)), from)
		finish(0)
	case "run":
		b := buildSim(scratch(), false || os.Getenv("RACE") != "")
		r := b.run(&Job{Prop: arg(2), Seed: num(arg(3)), Trace: true})
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		if os.Getenv("PLAN") != "" {
			p, _ := json.Marshal(r.Plan)
			fmt.Println(string(p))
		}
		fmt.Println(r.Harness, r.Sample, r.Probes)
		for _, v := range r.Viols {
			fmt.Println(v.Prop, v.Sig, v.Msg)
		}
		finish(0)
	case "determinism":
		os.Exit(finish(determinism(arg(2), int(num(arg(3))))))
	case "build": // keep the built simulation
		b := buildSim(arg(2), len(os.Args) > 3)
		fmt.Println(b.bin, len(b.locs))
	case "warm": // fill the build cache
		for _, race := range []bool{false, true} {
			b := buildSim(scratch(), race)
			fmt.Printf("built in %.1f s (race=%v)\n", b.wallS, race)
			finish(0)
		}
	case "plan":
		b := buildSim(scratch(), false)
		r := b.run(&Job{Prop: arg(2), Seed: num(arg(3)), PlanOnly: true})
		p, _ := json.Marshal(r.Plan)
		fmt.Println(string(p))
		finish(0)
	default:
		usage()
	}
}

func finish(code int) int {
	if cleanup != "" {
		os.RemoveAll(cleanup)
	}
	return code
}

// relevant says whether a violation counts for a property's check.
func relevant(prop string, v Viol) bool {
	if v.Prop == prop || v.Prop == "*" {
		return true
	}
	for _, x := range also[prop] {
		if x == v.Prop {
			return true
		}
	}
	return false
}

// also lists the oracles a property's check applies besides its own.
var also = map[string][]string{
	"C18": {"C01", "C05", "C06", "C10", "C12", "C04", "C03", "C07"},
}

type fileFinding struct{ prop, sig, text string }

// knownFindings reads the committed list of recorded defects.
func knownFindings() (out []fileFinding) {
	f, err := os.Open(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 3)
		if len(p) == 3 {
			out = append(out, fileFinding{strings.TrimPrefix(p[0], "property="), p[1], p[2]})
		}
	}
	return
}

type seen struct {
	v    Viol
	seed uint64
	n    int
}

// sweep accumulates what a set of runs covered.
type sweep struct {
	mu       sync.Mutex
	runs     int
	simS     float64
	kinds    map[string]int
	runsWith map[string]int
	probes   map[string]int
	sched    map[uint64]bool
	hist     map[uint64]bool
	steps    uint64
	choices  uint64
	preempts uint64
	stalls   uint64
	cov      []byte
	viols    map[string]*seen
	harness  string
	crashes  int
	samples  []string
	hashes   map[uint64][4]uint64
}

func newSweep() *sweep {
	return &sweep{kinds: map[string]int{}, runsWith: map[string]int{}, probes: map[string]int{}, sched: map[uint64]bool{}, hist: map[uint64]bool{}, viols: map[string]*seen{}, hashes: map[uint64][4]uint64{}}
}

func fingerprint(r *Result) [4]uint64 {
	return [4]uint64{r.LogHash, r.SchedHash, r.HistHash, r.Steps}
}

func (s *sweep) add(seed uint64, r *Result) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.runs++
	if r.Harness != "" {
		if s.harness == "" {
			s.harness = fmt.Sprintf("seed %d: %s", seed, r.Harness)
		}
		return
	}
	s.simS += float64(r.SimNs) / 1e9
	for k, n := range r.Kinds {
		s.kinds[k] += n
		s.runsWith[k]++
	}
	for k, n := range r.Probes {
		s.probes[k] += n
	}
	s.steps += r.Steps
	s.choices += r.Choices
	s.preempts += r.Preempts
	s.stalls += r.Stalls
	s.hashes[seed] = fingerprint(r)
	if !r.crashed {
		s.sched[r.SchedHash] = true
		if r.Nontrivial {
			s.hist[r.HistHash] = true
		}
		if len(s.samples) < 6 && r.Nontrivial {
			s.samples = append(s.samples, fmt.Sprintf("seed %d: %s; %.1f s simulated, %d scheduling choices, %d preemptions", seed, r.Sample, float64(r.SimNs)/1e9, r.Choices, r.Preempts))
		}
	} else {
		s.crashes++
	}
	if len(s.cov) < len(r.Cov) {
		s.cov = append(s.cov, make([]byte, len(r.Cov)-len(s.cov))...)
	}
	for i, b := range r.Cov {
		s.cov[i] |= b
	}
	for _, v := range r.Viols {
		k := v.Prop + " " + v.Sig
		if x := s.viols[k]; x == nil {
			s.viols[k] = &seen{v, seed, 1}
		} else {
			x.n++
			if seed < x.seed {
				x.v, x.seed = v, seed
			}
		}
	}
}

func (s *sweep) sorted() (out []*seen) {
	for _, x := range s.viols {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].n != out[j].n {
			return out[i].n > out[j].n
		}
		return out[i].v.Sig < out[j].v.Sig
	})
	return
}

func (s *sweep) points() (n int) {
	for _, b := range s.cov {
		for ; b != 0; b &= b - 1 {
			n++
		}
	}
	return
}

func explore(prop string, n, from uint64) {
	race := prop == "C13" || os.Getenv("RACE") != ""
	b := buildSim(scratch(), race)
	t := time.Now()
	s := newSweep()
	parallel(int(n), workers, func(i int) {
		seed := from + uint64(i)
		s.add(seed, b.run(&Job{Prop: prop, Seed: seed, Tier: os.Getenv("TIER")}))
	})
	w := time.Since(t).Seconds()
	fmt.Printf("%s: build %.1f s, %d runs in %.1f s (%.0f/s), %d crashed, %.0f simulated s, %d schedules, %d histories, %d/%d points\n", prop, b.wallS, s.runs, w, float64(s.runs)/w, s.crashes, s.simS, len(s.sched), len(s.hist), s.points(), len(b.locs))
	fmt.Println("faults", s.kinds)
	fmt.Println("probes", s.probes)
	if s.harness != "" {
		fmt.Println("HARNESS", s.harness)
	}
	for _, x := range s.sorted() {
		fmt.Printf("%5d x seed %-6d %s [%s] %s\n", x.n, x.seed, x.v.Prop, x.v.Sig, firstN(x.v.Msg, 9))
	}
	if os.Getenv("COV") != "" {
		by := map[string]bool{}
		for i, l := range b.locs {
			if i/8 >= len(s.cov) || s.cov[i/8]&(1<<(i%8)) == 0 {
				by[l] = true
			}
		}
		var ls []string
		for l := range by {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		os.WriteFile(os.Getenv("COV"), []byte(strings.Join(ls, "\n")+"\n"), 0o644)
	}
}

func determinism(prop string, n int) int {
	b := buildSim(scratch(), prop == "C13")
	one, two := newSweep(), newSweep()
	parallel(n, workers, func(i int) { one.add(uint64(i+1), b.run(&Job{Prop: prop, Seed: uint64(i + 1)})) })
	parallel(n, 3, func(i int) {
		seed := uint64(n - i)
		two.add(seed, b.run(&Job{Prop: prop, Seed: seed, Trace: true}))
	})
	bad := 0
	for k, h := range one.hashes {
		if two.hashes[k] != h {
			bad++
			if bad < 10 {
				fmt.Println("differs: seed", k, h, two.hashes[k])
			}
		}
	}
	fmt.Printf("determinism %s: %d seeds run twice (8 and 3 workers, opposite orders), %d differ %s%s\n", prop, n, bad, one.harness, two.harness)
	if bad > 0 || one.harness != "" {
		return 3
	}
	return 0
}
