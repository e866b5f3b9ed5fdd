//go:build go1.23

package main

import (
	"bytes"
	"encoding/hex"
	"runtime"
	"sync"
	"time"

	"github.com/NubeDev/bacnet/btypes"
)

// ---- C25: use leaves nothing behind in memory

// The same calls, incoming datagrams and outages happen in every round of a
// run. Between rounds everything is left to come to rest, the simulated world
// forgets what it has recorded, and the live heap is measured. Warm-up effects
// (pools, tables that have grown to the number of calls in progress) end
// within a few rounds. What is kept for every call or datagram does not.
const memRounds = 18

var memAt = map[int]bool{4: true, 9: true, memRounds: true}

func init() {
	generators["C25"] = genMemory
	drivers["C25"] = driveMemory
}

func genMemory(p *Plan, r *Rng) {
	if r.one(4) {
		p.genNetPkg(r, netOpt{loss: r.one(2), dup: true, delay: true, late: true, noReply: true, reject: true, abort: true, errReply: true, mutate: r.one(2), cov: true, sendErr: true, recvErr: true})
	} else {
		p.genHosts(r, hostOpt{iam: true, routers: 40, bbmd: 20, oddPort: true, maxDevs: 2, smallApdu: r.one(3)})
		p.genNet(r, netOpt{loss: true, dup: true, delay: true, late: true, noReply: true, reject: true, abort: true, errReply: true, mutate: r.one(3), cov: true, sendErr: true, recvErr: true, slow: true})
		for _, d := range p.devs() {
			d.d.genObjs(r, r.pick(0, 1, 4), false)
		}
		for th, c := 0, r.rng(1, 3); th < c; th++ {
			p.genMixed(r, th)
		}
		for k := r.pick(0, 2, 6); k > 0; k-- {
			b := p.hostileFrame(r)
			p.inject(r, int64(r.n(6000000)), b[:min(len(b), 1500)])
		}
	}
	if len(p.Ops) > 9 {
		p.Ops = p.Ops[:9]
	}
	if r.one(2) { // many of one kind
		if n := len(p.Ops); n > 0 {
			o := p.Ops[r.n(n)]
			p.Ops = nil
			for k := 0; k < 24; k++ {
				o.ID, o.Th = k, k%3
				p.Ops = append(p.Ops, o)
			}
		}
		if n := len(p.Inj); n > 0 {
			j := p.Inj[r.n(n)]
			p.Inj = nil
			for k := 0; k < 40; k++ {
				j.AtUs += int64(r.n(100000))
				p.Inj = append(p.Inj, j)
			}
		}
	}
	p.Win = nil
	p.genWin(r, "net-down", "rx-down", "crash", "partition", "stall")
	for i := range p.Win {
		p.Win[i].To = min(p.Win[i].To, 30000)
	}
}

// forget drops what has been recorded about the run so far.
func (w *World) forget() {
	w.trace, w.frames, w.execs, w.rx, w.ops, w.unmapped = nil, nil, nil, nil, nil, nil
	w.nonces = map[uint32]*Exec{}
	w.heardIDs = map[string]bool{}
	w.heardN = 0
	for _, h := range w.hosts {
		if h.dev != nil {
			h.dev.cache = map[string]*cached{}
		}
		for _, n := range h.nets {
			for _, d := range n.devs {
				d.cache = map[string]*cached{}
			}
		}
	}
	for _, s := range w.socks {
		s.q, s.wait = append([]rxItem(nil), s.q...), append([]chan struct{}(nil), s.wait...)
	}
}

var memStats runtime.MemStats

// heap is the number of live bytes in the heap.
func heap() int64 {
	for i := 0; i < 3; i++ { // pools let go of what they hold after two
		runtime.GC()
	}
	runtime.ReadMemStats(&memStats)
	return int64(memStats.HeapAlloc)
}

// opsRound is the calls of a plan, about other objects in every round: what is
// kept for each of them would add up.
func opsRound(ops []Op, round int) []Op {
	out := append([]Op(nil), ops...)
	for i := range out {
		out[i].S = append([]Spec(nil), out[i].S...)
		for k := range out[i].S {
			if o := &out[i].S[k].O; o.I >= virtBase && o.I < virtBase+8000 {
				o.I += uint32(round) * 8000
			}
		}
	}
	return out
}

// injRound is the datagrams that come unasked, from others and about other
// devices and networks in every round.
func (w *World) injRound(inj []Inj, round int) []Inj {
	out := append([]Inj(nil), inj...)
	for i := range out {
		j := &out[i]
		known := false
		for _, h := range w.hosts {
			known = known || h.peer.IP == j.IP
		}
		if !known {
			j.Port = 1024 + (j.Port+round*997)%60000
			j.IP[3] ^= byte(round)
		}
		b, err := hex.DecodeString(j.Hex)
		if err != nil {
			panic("harness: bad hex")
		}
		if k := bytes.Index(b, []byte{0x10, 0, 0xc4}); k >= 0 && len(b) > k+6 {
			b[k+6] += byte(round)
		} else if len(b) > 8 && b[5]&0x80 != 0 {
			b[len(b)-1] += byte(round)
		}
		j.Hex = hex.EncodeToString(b)
	}
	return out
}

func driveMemory(x *Env) {
	w := x.w
	p := w.plan
	q := *p // outages move from round to round
	q.Win = append([]Win(nil), p.Win...)
	w.plan = &q
	w.fired = make([]Fault, 0, 1<<16)
	w.listenHere()
	x.guard("construction", func() {
		if p.Cfg["netpkg"] != 0 {
			if err := x.newNetwork(); err != nil {
				w.viol("*", "construction", "a client could not be made: %v", err)
			}
		} else if err := x.newClient(); err != nil {
			w.viol("*", "construction", "a client could not be made: %v", err)
		}
	})
	if len(x.panics)+len(w.viols) > 0 {
		return
	}
	x.runLoop()
	runtime.SimQuiesce()
	base := runtime.SimGoroutines()
	var wg sync.WaitGroup
	for i := 0; i < 800; i++ { // the run time keeps finished goroutines
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Second)
		}()
	}
	wg.Wait()
	var at []int64
	inj := p.Inj
	for round := 1; round <= memRounds; round++ {
		for i := range q.Win {
			q.Win[i].From = p.Win[i].From + w.now()/ms
			q.Win[i].To = p.Win[i].To + w.now()/ms
		}
		q.Inj = w.injRound(inj, round)
		w.startInject()
		if !x.workload(opsRound(p.Ops, round)) || len(x.panics) > 0 {
			return
		}
		time.Sleep(60 * time.Second)
		runtime.SimQuiesce()
		if n := runtime.SimGoroutines() - len(x.nets); n > base {
			w.viol("C25", "goroutines", "%d goroutines are left over after round %d of %d", n-base, round, memRounds)
			return
		}
		for _, s := range w.socks {
			if len(s.q) > 0 {
				return // not all has been received: the client does not serve
			}
		}
		w.forget()
		x.found = map[uint32]btypes.Device{}
		if memAt[round] {
			at = append(at, heap())
		}
	}
	w.probes["nontrivial"]++
	w.hist = w.traceH
	a, b := at[1]-at[0], at[2]-at[1]
	k := int64(1)
	if w.strict {
		k = 2
	}
	// how many bytes it is is not the same twice
	if a >= 1000*k && b >= 1800*k {
		w.viol("C25", "growth", "the same %d calls and %d datagrams again and again: more is kept after 5 more rounds (at least 1000 bytes), and still more after another 9 (at least 1800 bytes)", len(p.Ops), len(p.Inj))
	}
}
