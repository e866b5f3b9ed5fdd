//go:build go1.23

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"

	"github.com/NubeDev/bacnet"
)

// The harness runs exactly one simulated run per process: a job on standard
// input, a result on standard output.
func main() {
	var j Job
	in, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(in, &j)
	}
	if err != nil {
		emit(&Result{Harness: "bad job: " + err.Error()})
	}
	p := j.Plan
	if p == nil {
		p = genPlan(j.Prop, j.Seed, j.Tier)
	}
	if j.PlanOnly {
		emit(&Result{OK: true, Plan: p})
	}
	silence()
	debug.SetMaxStack(128 << 20)
	stdFiles = []*os.File{os.Stdin, os.Stdout, os.Stderr} // not to be finalized
	os.Stdout = nil
	os.Stderr, err = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		emit(&Result{Harness: err.Error()})
	}
	cfg := runtime.SimConfig{Seed: mix64(p.Seed ^ hashStr(p.Prop)), Policy: p.Sched.Policy, PreemptDen: p.Sched.PreemptDen,
		StallDen: p.Sched.StallDen, StallMaxNs: p.Sched.StallMaxNs, MaxStalls: p.Sched.MaxStalls,
		MaxSteps: 3_000_000, MaxAlloc: 64 << 20, MaxLarge: 256 << 20, Replay: j.Replay, RecordLimit: 1 << 17}
	for _, d := range j.Decisions {
		cfg.Decisions = append(cfg.Decisions, runtime.SimDecision{N: d[0], V: d[1]})
	}
	for _, c := range p.Clock {
		cfg.Clock = append(cfg.Clock, runtime.SimJump{At: c.AtMs * ms, By: c.ByMs * ms})
	}
	w := newWorld(p)
	w.replay, w.stream, w.strict = j.Replay, j.Stream, j.Strict
	for _, f := range j.Faults {
		w.listed[f.F] = append(w.listed[f.F], f)
	}
	runtime.SimRun(cfg, func() {
		w.t0 = runtime.SimNow()
		x := &Env{w: w, ndevs: map[string]*network.Device{}, found: map[uint32]btypes.Device{}, shared: map[string]any{}}
		trouble := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					trouble = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
			}()
			drive(x)
		}()
		st := runtime.SimGetStats()
		now := w.now()
		runtime.SimStop()
		r := &Result{Harness: trouble, Viols: w.viols, Faults: w.fired, LogHash: w.traceH, SchedHash: st.SchedHash, HistHash: w.histHash(),
			SimNs: now, Steps: st.Steps, Choices: st.Choices, Preempts: st.Preempts, Stalls: st.Stalls, Switches: st.Switches,
			Kinds: w.kinds, Probes: w.probes, Overflow: st.RecordOverflow}
		if st.Stalls > 0 {
			w.kinds["goroutine-stall"] += int(st.Stalls)
		}
		for _, s := range x.panics {
			if harnessPanic(s) {
				r.Harness = s
			} else {
				r.Viols = append(r.Viols, Viol{"*", "panic " + topFrame(s), firstLines(s)})
			}
		}
		for _, c := range p.Clock {
			if c.AtMs*ms < now {
				w.kinds["clock-jump"]++
			}
		}
		r.OK = len(r.Viols) == 0 && r.Harness == ""
		r.Nontrivial = len(w.frames)+len(w.rx) > 0 && len(w.ops) > 0 || w.probes["nontrivial"] > 0
		cov := runtime.SimCoverage()
		last := 0
		for i, c := range cov {
			if c != 0 {
				last = i
			}
		}
		bm := make([]byte, last/8+1)
		for i, c := range cov {
			if c != 0 {
				bm[i/8] |= 1 << (i % 8)
			}
		}
		r.Cov = bm
		r.Sample = w.summary()
		if len(r.Viols) > 0 || j.Trace {
			r.Plan = p
			for _, d := range runtime.SimGetDecisions() {
				r.Decisions = append(r.Decisions, [2]uint64{d.N, d.V})
			}
			r.Trace = w.trace
		}
		emit(r)
	})
	emit(&Result{Harness: "simulation returned"})
}

var stdFiles []*os.File

func emit(r *Result) {
	b, err := json.Marshal(r)
	if err != nil {
		b = []byte(`{"harness":"cannot marshal the result"}`)
	}
	b = append(b, '\n')
	for len(b) > 0 {
		n, err := syscall.Write(1, b)
		if err != nil {
			if err == syscall.EINTR || err == syscall.EAGAIN {
				continue
			}
			os.Exit(4)
		}
		b = b[n:]
	}
	os.Exit(0)
}

// stackFuncs lists the functions of a stack dump below the panic call,
// innermost first.
func stackFuncs(s string) (out []string) {
	ls := strings.Split(s, "\n")
	seen := !strings.Contains(s, "\npanic(")
	for _, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			seen, out = true, nil
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "goroutine ") || !strings.Contains(l, "(") {
			continue
		}
		f := l[:strings.LastIndex(l, "(")]
		if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "runtime/") {
			continue
		}
		out = append(out, f)
	}
	return
}

func topFrame(s string) string {
	for _, f := range stackFuncs(s) {
		if strings.Contains(f, "NubeDev/bacnet") && !strings.Contains(f, "zzverifsim") {
			return f[strings.Index(f, "NubeDev/bacnet")+len("NubeDev/"):]
		}
	}
	return "?"
}

func harnessPanic(s string) bool {
	fs := stackFuncs(s)
	for _, f := range fs {
		if strings.Contains(f, "zzverifsim") || strings.HasPrefix(f, "main.") {
			return true
		}
		if strings.Contains(f, "NubeDev/bacnet") {
			return false
		}
	}
	return true
}

func firstLines(s string) string {
	ls := strings.Split(s, "\n")
	if len(ls) > 24 {
		ls = ls[:24]
	}
	return strings.Join(ls, "\n")
}

// drive runs one plan from start to end.
func drive(x *Env) {
	w := x.w
	p := w.plan
	x.base0 = runtime.SimGoroutines()
	if d := drivers[p.Prop]; d != nil {
		d(x)
		w.hist = w.traceH
		return
	}
	w.listenHere()
	var err error
	x.guard("construction", func() {
		if p.Cfg["netpkg"] != 0 {
			err = x.newNetwork()
		} else {
			err = x.newClient()
		}
	})
	if err != nil {
		w.viol("*", "construction", "a client could not be made: %v", err)
		return
	}
	if len(x.panics) > 0 {
		return
	}
	if len(w.socks) == 0 {
		w.viol("*", "construction", "a client was made without a socket")
		return
	}
	x.checkBinding()
	if p.Cfg["norun"] == 0 {
		x.runLoop()
	}
	runtime.SimQuiesce()
	base := runtime.SimGoroutines()
	w.startInject()

	alone := x.workload(p.Ops)
	if !alone {
		x.verdict()
		return
	}
	// let the faults end and everything in flight arrive
	var end int64
	for _, v := range p.Win {
		end = max(end, v.To*ms)
	}
	for _, i := range p.Inj {
		end = max(end, i.AtUs*us)
	}
	if d := end - w.now(); d > 0 {
		time.Sleep(time.Duration(d))
	}
	w.quiet = true
	time.Sleep(30 * time.Second)
	if !w.closedBefore(w.now()) && len(p.Hosts) > 0 && p.Cfg["nohealth"] == 0 {
		if x.net == nil && x.ended != x.runs-1 && p.Cfg["norun"] == 0 {
			w.viol("C18", "receive-loops", "%d receive loops are running on an open client, there must be one (%d were started)", x.runs-x.ended, x.runs)
		}
		if !x.health(base) {
			x.verdict()
			return
		}
	}
	x.shutdown()
	if p.Cfg["reopen"] != 0 && x.net == nil && len(x.panics) == 0 && p.Cfg["norun"] == 0 && w.socks[0].closed && x.ended == x.runs {
		x.reopen(base)
	}
	x.verdict()
}

// reopen makes another client on the port of the one just closed and uses it.
func (x *Env) reopen(base int) {
	w, p := x.w, x.w.plan
	n := len(w.socks)
	if k := p.Cfg["badnew"]; k > 0 && !x.badClients(int(k)) {
		return
	}
	n = len(w.socks)
	var err error
	x.guard("construction", func() { err = x.newClient() })
	if len(x.panics) > 0 {
		return
	}
	if err != nil || len(w.socks) != n+1 {
		w.viol("C17", "reopen", "after closing a client no other can be made on its port: %v", err)
		return
	}
	x.runLoop()
	runtime.SimQuiesce()
	nv := len(w.viols)
	if !x.health(base) {
		return
	}
	if len(w.viols) > nv {
		return
	}
	w.probe("reopened")
	x.shutdown()
}

// badClients tries to make clients that cannot be: nothing of them may stay.
func (x *Env) badClients(k int) bool {
	w := x.w
	port := int(w.plan.Cfg["port"])
	bad := []bacnet.ClientBuilder{
		{Ip: "10.0.0.100", SubnetCIDR: 33, Port: port},
		{Ip: "10.0.0.256", SubnetCIDR: 24, Port: port},
		{Interface: "10.0.0.100/", Port: port},
		{Ip: "", SubnetCIDR: 24, Port: port},
		{Interface: "10.0.0/24", Port: port},
		{Interface: "eth7", Port: port},
		{Interface: "sim6", Port: port},
		{Interface: "down0", Port: port},
	}
	before := runtime.SimGoroutines()
	for i := 0; i < k; i++ {
		cb := bad[(i+int(w.plan.Seed))%len(bad)]
		var err error
		x.guard("construction of a client that cannot be", func() { _, err = bacnet.NewClient(&cb) })
		if len(x.panics) > 0 {
			return false
		}
		if err == nil {
			w.viol("C17", "bad-client", "a client at %q/%d%s could be made", cb.Ip, cb.SubnetCIDR, cb.Interface)
			return false
		}
	}
	runtime.SimQuiesce()
	w.probe("client-could-not-be-made")
	for _, s := range w.socks {
		if !s.closed {
			w.viol("C17", "bad-client-socket", "a client that could not be made has left its socket open on port %d", s.port)
			return false
		}
	}
	if n := runtime.SimGoroutines() - before; n > 0 {
		w.viol("C17", "bad-client-goroutines", "clients that could not be made have left %d goroutines", n)
		return false
	}
	return true
}

// workload runs the calls of the plan, one goroutine per thread, and reports
// whether every one of them returned.
func (x *Env) workload(ops []Op) bool {
	w := x.w
	th := map[int][]*Op{}
	for i := range ops {
		th[ops[i].Th] = append(th[ops[i].Th], &ops[i])
	}
	ids := []int{}
	for t := range th {
		ids = append(ids, t)
	}
	sort.Ints(ids)
	left := len(ids)
	discs := int64(0)
	for i := range ops {
		if k := ops[i].Kind; k == "n.disc" || k == "n.ddisc" {
			discs++
		}
	}
	slack := func() int64 { return w.slack() + discs*int64(w.heard())*24*sec }
	deadline := int64(0)
	all := make(chan struct{})
	for _, t := range ids {
		l := th[t]
		d := int64(0)
		for _, o := range l {
			d += o.AtUs*us + bound(w, o)
		}
		deadline = max(deadline, d)
		go func() {
			defer func() {
				if left--; left == 0 {
					close(all)
				}
			}()
			for _, o := range l {
				x.op(o)
			}
		}()
	}
	deadline += w.now() + 60*sec
	for left > 0 && w.now() < deadline+slack() {
		t := time.NewTimer(time.Duration(deadline + slack() - w.now()))
		select {
		case <-all:
		case <-t.C:
		}
		t.Stop()
	}
	return left == 0
}

// health checks that the client still serves after everything it has met.
func (x *Env) health(base int) bool {
	w := x.w
	p := w.plan
	full := p.Prop == "C04" || p.Seed%8 == 3
	burst := p.Prop == "C02" || p.Prop == "C04" || p.Prop == "C12" || p.Seed%4 == 1
	mk := func(h *host, th int) *Op {
		id := 10000 + x.healthOp
		o := &Op{ID: id, Th: th, Kind: "rp", Host: h.i}
		o.S = []Spec{{O: Oid{2, opInst(id, 0)}, P: []PropRef{{P: propName, Idx: -1}}}}
		if x.net != nil { // through the network package: its devices have no virtual objects
			o.Kind = "n.read"
			o.S[0].O = h.dev.cfg.ID
			if h.dev.objs[h.dev.cfg.ID][propMaxApdu] != nil {
				o.S[0].P[0].P = propMaxApdu // short: fits into any answer
			}
		}
		x.healthOp++
		return o
	}
	var ops []Op
	for _, h := range w.hosts {
		if h.dev != nil {
			ops = append(ops, *mk(h, 0))
		}
	}
	if len(ops) == 0 {
		return true
	}
	if !x.healthOps(ops) {
		return false
	}
	var h0 *host
	for _, h := range w.hosts {
		if h.dev != nil && (h0 == nil || h.dev.cfg.HoldUs < h0.dev.cfg.HoldUs) {
			h0 = h
		}
	}
	if burst {
		ops = nil
		for i := 0; i < 20; i++ {
			ops = append(ops, *mk(h0, i))
		}
		if !x.healthOps(ops) {
			return false
		}
		w.probe("health-burst-of-20")
	}
	if full {
		ops = nil
		for i := 0; i < 260; i++ {
			ops = append(ops, *mk(h0, i%4))
		}
		if !x.healthOps(ops) {
			return false
		}
		w.probe("health-260-transactions")
	}
	time.Sleep(15 * time.Second)
	runtime.SimQuiesce()
	if n := runtime.SimGoroutines() - len(x.nets); n > base {
		w.viol("C04", "goroutine-leak", "%d goroutines are left over when everything is idle", n-base)
	}
	return true
}

func (x *Env) healthOps(ops []Op) bool {
	w := x.w
	w.healthDevs = true
	n := len(w.ops)
	ok := x.workload(ops)
	for _, r := range w.ops[n:] {
		if r.Done && r.Failed {
			w.viol("*", "not serving", "after the faults had ended a plain read (op %d) failed: %s", r.Op.ID, r.Err)
			return false
		}
	}
	return ok
}

// shutdown closes the client and checks that its receive loop ends.
func (x *Env) shutdown() {
	w := x.w
	if w.shutAt == 0 {
		w.shutAt = w.now()
	}
	if w.socks[len(w.socks)-1].closed {
		runtime.SimQuiesce()
	} else {
		done := false
		go func() {
			x.guard("close", func() {
				var err error
				if x.net != nil {
					err = x.net.NetworkClose(w.plan.Seed%3 == 0)
				} else if w.plan.Seed%3 == 1 {
					err = x.cli.Close()
				} else {
					err = x.cli.ClientClose(w.plan.Seed%3 == 0)
				}
				if err != nil {
					w.viol("C17", "close-error", "closing the client failed: %v", err)
				}
			})
			done = true
		}()
		time.Sleep(2 * time.Second)
		if !done {
			w.viol("C17", "close-stuck", "closing the client does not return")
		}
	}
	for _, n := range x.nets {
		x.guard("close", func() {
			if err := n.NetworkClose(false); err != nil {
				w.viol("C17", "close-error", "closing a looked-up network failed: %v", err)
			}
		})
	}
	for _, s := range w.socks {
		if !s.closed && !x.otherNet(s) {
			w.viol("C17", "socket-left-open", "the socket is still open after close")
		}
	}
	time.Sleep(2 * time.Second)
	runtime.SimQuiesce()
	if x.ended < x.runs {
		w.viol("C17", "loop-left", "%d of %d receive loops are still running after close", x.runs-x.ended, x.runs)
	} else if n := runtime.SimGoroutines() - x.base0; w.plan.Cfg["netpkg"] == 0 && n > 0 {
		w.viol("C17", "goroutines-left", "%d goroutines are left after close", n)
	}
	if _, err := os.Stderr.Write([]byte{'x'}); err != nil {
		w.viol("C17", "stderr-closed", "closing the client closed the process's standard error: %v", err)
	}
}

// otherNet reports whether a socket belongs to a network nobody can close,
// because it was replaced in the registry before anyone looked it up.
func (x *Env) otherNet(s *sock) bool {
	for _, n := range x.nets {
		if n.Port == s.port {
			return false
		}
	}
	return s.i > 0 && x.w.plan.Cfg["manynets"] != 0
}

// checkBinding: the client listens where it was told to.
func (x *Env) checkBinding() {
	w := x.w
	want := int(w.plan.Cfg["port"])
	if want == 0 {
		want = 47808
	}
	if w.socks[0].port != want {
		w.viol("C11", "port", "asked to use port %d, listens on %d", want, w.socks[0].port)
	}
}

func (x *Env) verdict() {
	w := x.w
	runtime.SimProgress()
	w.checkCalls()
	w.checkTx()
	w.checkWhoIs()
	w.checkNetLayer()
	w.checkObjects()
	w.checkIAm()
	for _, f := range extraChecks[w.plan.Prop] {
		f(x)
	}
}

var drivers = map[string]func(*Env){}
var extraChecks = map[string][]func(*Env){}
