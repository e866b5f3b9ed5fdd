package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The types below mirror the harness's; parts the driver does not look into
// stay raw.
type Sched struct {
	Policy     uint32 `json:"policy"`
	PreemptDen uint32 `json:"preempt,omitempty"`
	StallDen   uint32 `json:"stall,omitempty"`
	StallMaxNs int64  `json:"stallmax,omitempty"`
	MaxStalls  uint32 `json:"stalls,omitempty"`
}

type Plan struct {
	Prop  string            `json:"prop"`
	Seed  uint64            `json:"seed"`
	Tier  string            `json:"tier,omitempty"`
	Sched Sched             `json:"sched"`
	Net   map[string]int64  `json:"net"`
	Hosts []json.RawMessage `json:"hosts,omitempty"`
	Ops   []json.RawMessage `json:"ops,omitempty"`
	Inj   []json.RawMessage `json:"inj,omitempty"`
	Win   []json.RawMessage `json:"win,omitempty"`
	Clock []json.RawMessage `json:"clock,omitempty"`
	Cfg   map[string]int64  `json:"cfg,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	must(json.Unmarshal(b, &q))
	return &q
}

type Fault struct {
	F string `json:"f"`
	N int    `json:"n"`
	K string `json:"k"`
	V int64  `json:"v,omitempty"`
}

type Job struct {
	Prop      string      `json:"prop"`
	Seed      uint64      `json:"seed"`
	Tier      string      `json:"tier,omitempty"`
	Plan      *Plan       `json:"plan,omitempty"`
	Replay    bool        `json:"replay,omitempty"`
	Faults    []Fault     `json:"faults,omitempty"`
	Decisions [][2]uint64 `json:"decisions,omitempty"`
	Trace     bool        `json:"trace,omitempty"`
	PlanOnly  bool        `json:"plan_only,omitempty"`
	Stream    bool        `json:"stream,omitempty"`
	Strict    bool        `json:"strict,omitempty"` // judge with a margin what cannot be measured exactly
}

type Viol struct {
	Prop string `json:"prop"`
	Sig  string `json:"sig"`
	Msg  string `json:"msg"`
}

type Result struct {
	OK         bool           `json:"ok"`
	Harness    string         `json:"harness,omitempty"`
	Viols      []Viol         `json:"viols,omitempty"`
	Plan       *Plan          `json:"plan,omitempty"`
	Faults     []Fault        `json:"faults,omitempty"`
	Decisions  [][2]uint64    `json:"decisions,omitempty"`
	Overflow   bool           `json:"overflow,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	LogHash    uint64         `json:"loghash"`
	SchedHash  uint64         `json:"schedhash"`
	HistHash   uint64         `json:"histhash"`
	SimNs      int64          `json:"simns"`
	Steps      uint64         `json:"steps"`
	Choices    uint64         `json:"choices"`
	Preempts   uint64         `json:"preempts"`
	Stalls     uint64         `json:"stalls"`
	Switches   uint64         `json:"switches"`
	Kinds      map[string]int `json:"kinds,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	Cov        []byte         `json:"cov,omitempty"`
	Sample     string         `json:"sample,omitempty"`
	Nontrivial bool           `json:"nontrivial"`

	crashed bool
}

const watchdog = 90 * time.Second

// run executes one simulated run in a process of its own. Every way the
// process can end that is the simulated program's doing becomes a violation;
// everything else is reported in Result.Harness.
func (p *program) run(j *Job) *Result {
	in, err := json.Marshal(j)
	must(err)
	ctx, cancel := context.WithTimeout(context.Background(), watchdog)
	defer cancel()
	c := exec.CommandContext(ctx, p.bin)
	c.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=all", "HOME=/nonexistent", "TZ=UTC", "GORACE=atexit_sleep_ms=0 history_size=2"}
	c.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &limited{b: &errb, n: 8 << 20}
	c.WaitDelay = 5 * time.Second
	err = c.Run()
	if ctx.Err() != nil {
		return &Result{Harness: fmt.Sprintf("run of %s seed %d exceeded the real-time watchdog", j.Prop, j.Seed)}
	}
	code := c.ProcessState.ExitCode()
	r := &Result{}
	got := false
	for _, l := range bytes.Split(out.Bytes(), []byte("\n")) {
		switch {
		case bytes.HasPrefix(l, []byte("fault ")):
			var f Fault
			if json.Unmarshal(l[6:], &f) == nil && !got {
				r.Faults = append(r.Faults, f)
			}
		case len(l) > 0:
			q := &Result{}
			if err := json.Unmarshal(l, q); err != nil {
				return &Result{Harness: fmt.Sprintf("bad result (%v): %.200s", err, l)}
			}
			r, got = q, true
		}
	}
	stderr := errb.String()
	switch {
	case code == 0 && got:
		return r
	case code == 66 && got:
		vs := races(stderr)
		r.Viols = append(r.Viols, vs...)
		r.OK = len(r.Viols) == 0 && r.Harness == ""
		return r
	case code == 2:
		v, dec, ok := crash(stderr)
		if !ok {
			return &Result{Harness: "the simulation crashed:\n" + firstN(stderr, 60)}
		}
		return &Result{Viols: append(races(stderr), v), Faults: r.Faults, Decisions: dec, crashed: true, LogHash: hashOf(v.Msg)}
	}
	return &Result{Harness: fmt.Sprintf("the simulation ended with code %d (%v):\n%s", code, err, firstN(stderr, 60))}
}

func hashOf(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if k := l.n - l.b.Len(); k > 0 {
		l.b.Write(p[:min(k, len(p))])
	}
	return len(p), nil
}

func firstN(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

const modPath = "github.com/NubeDev/bacnet"

// frames lists the functions of one goroutine's stack, innermost first.
func frames(block string) (out []string) {
	for _, l := range strings.Split(block, "\n") {
		if l == "" || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "created by") || !strings.Contains(l, "(") || strings.HasPrefix(l, " ") {
			continue
		}
		f := l[:strings.LastIndex(l, "(")]
		if strings.HasPrefix(f, "runtime.") || f == "panic" || strings.HasPrefix(f, "internal/") {
			continue
		}
		out = append(out, f)
	}
	return
}

func ours(f string) bool {
	return strings.Contains(f, modPath) && !strings.Contains(f, "zzverifsim")
}

func harnessFrame(f string) bool {
	return strings.HasPrefix(f, "main.") || strings.Contains(f, "zzverifsim")
}

func short(f string) string {
	if i := strings.Index(f, modPath); i >= 0 {
		f = strings.TrimPrefix(f[i+len("github.com/NubeDev/"):], "")
	}
	return closureRe.ReplaceAllString(f, "")
}

var closureRe = regexp.MustCompile(`(\.func\d+|\.gowrap\d+|\.deferwrap\d+|-range\d+|\.\d+)+$`)

var hexRe = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+|\+0x[0-9a-f]+`)

// crash judges a process that died of a panic or a fatal error.
func crash(s string) (v Viol, dec [][2]uint64, ok bool) {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "sim-decision ") {
			f := strings.Fields(l)
			if len(f) == 3 {
				a, _ := strconv.ParseUint(f[1], 10, 64)
				b, _ := strconv.ParseUint(f[2], 10, 64)
				dec = append(dec, [2]uint64{a, b})
			}
			continue
		}
		if strings.HasPrefix(l, "sim-stats ") {
			continue
		}
		keep = append(keep, l)
	}
	text := strings.Join(keep, "\n")
	i := strings.Index(text, "panic: ")
	k := strings.Index(text, "fatal error: ")
	if i < 0 || k >= 0 && k < i {
		i = k
	}
	if i < 0 {
		if i = strings.Index(text, "runtime: goroutine stack exceeds"); i < 0 {
			return v, dec, false
		}
	}
	text = text[i:]
	head := strings.SplitN(text, "\n", 2)[0]
	blocks := strings.Split(text, "\n\n")
	kind := "panic"
	switch {
	case strings.Contains(head, "step budget"):
		kind = "endless loop"
	case strings.Contains(head, "allocation budget"):
		kind = "memory blow-up"
	case strings.Contains(head, "deadlock"):
		kind = "deadlock"
	case strings.HasPrefix(head, "fatal error"):
		kind = "fatal"
	}
	// the goroutine that failed comes first
	for _, b := range blocks {
		b = strings.TrimLeft(b, "\n")
		if !strings.HasPrefix(b, "goroutine ") {
			continue
		}
		fs := frames(b)
		if len(fs) == 0 {
			continue
		}
		top := ""
		for _, f := range fs {
			if harnessFrame(f) {
				break
			}
			if ours(f) {
				top = short(f)
				break
			}
		}
		if kind == "deadlock" && top == "" {
			continue
		}
		if top == "" {
			return v, dec, false
		}
		sig := kind + " " + top
		if kind == "endless loop" { // the loop may be caught at any depth: name the outermost frame
			for _, f := range fs {
				if ours(f) {
					sig = kind + " " + short(f)
				}
			}
		}
		return Viol{"*", sig, firstN(hexRe.ReplaceAllString(head+"\n"+b, "?"), 30)}, dec, true
	}
	return v, dec, false
}

// races turns race reports into violations.
func races(s string) (out []Viol) {
	seen := map[string]bool{}
	for _, b := range strings.Split(s, "==================") {
		if !strings.Contains(b, "DATA RACE") {
			continue
		}
		var tops []string
		mine := 0
		for _, part := range strings.Split(b, "\n\n") {
			if !(strings.Contains(part, " by goroutine ") || strings.Contains(part, "by main goroutine")) {
				continue
			}
			top := ""
			for _, l := range strings.Split(part, "\n") {
				l = strings.TrimSpace(l)
				if i := strings.LastIndex(l, "("); i > 0 && !strings.Contains(l, " ") {
					f := l[:i]
					if harnessFrame(f) {
						break
					}
					if ours(f) {
						top = short(f)
						mine++
						break
					}
				}
			}
			tops = append(tops, top)
		}
		if mine < 2 {
			continue // one side is the harness's
		}
		sort.Strings(tops)
		sig := "race " + strings.Join(tops, " | ")
		if !seen[sig] {
			seen[sig] = true
			out = append(out, Viol{"C13", sig, firstN(hexRe.ReplaceAllString(b, "?"), 40)})
		}
	}
	return
}

// parallel runs f for every index on all cores until stop says so.
func parallel(n, workers int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
