//go:build go1.23

package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"time"

	"github.com/NubeDev/bacnet/tsm"
	"github.com/NubeDev/bacnet/utsm"
)

func init() {
	drivers["C15"] = driveTSM
	drivers["C16"] = driveUTSM
	generators["C15"] = genTSM
	generators["C16"] = genUTSM
}

// try runs f in the current goroutine and turns a panic into a record.
func (x *Env) try(what string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			x.panics = append(x.panics, fmt.Sprintf("%s: %v\n%s", what, p, debug.Stack()))
			x.w.logf("PANIC in %s: %v", what, p)
		}
	}()
	f()
	return true
}

// ---- C15: the transaction manager on its own

// Ops of a plan: Kind "own" is a transaction: wait for an id for at most A us,
// then B receives with a timeout of C us each and D us between them, then
// release. Kind "send" hands a payload to the id of transaction A (an own op;
// -1: a random id B) C us after that transaction began.
func genTSM(p *Plan, r *Rng) {
	p.Cfg["size"] = int64(r.pick(1, 2, 3, 8, 20))
	n := r.rng(1, 10)
	if r.one(8) {
		n = 40
	}
	th := r.rng(1, 8)
	base := []int64{0, 10, 1000, 20000}[r.n(4)]
	for i := 0; i < n; i++ {
		o := Op{ID: len(p.Ops), Th: i % th, Kind: "own", AtUs: int64(r.n(int(base) + 1)), A: int64(r.pick(0, 100, 5000, 200000)),
			B: int64(r.pick(0, 1, 1, 1, 2, 3)), C: int64(r.pick(1, 100, 1000, 30000)), D: int64(r.pick(0, 0, 50, 3000))}
		p.Ops = append(p.Ops, o)
		for k := r.pick(0, 1, 1, 2, 3); k > 0; k-- {
			p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: 1000 + len(p.Ops), Kind: "send", A: int64(o.ID), C: int64(r.pick(0, 0, 50, 1000, 30000, int(o.C), int(o.C)+int(o.D))), D: int64(r.n(3))})
		}
		if r.one(4) {
			p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: 1000 + len(p.Ops), Kind: "send", A: -1, B: int64(r.pick(0, 1, 2, 3, 254, 255, 300, -1)), AtUs: int64(r.n(30000))})
		}
	}
}

type tsmTx struct {
	o        *Op
	idT0     int64 // ID called
	idT1     int64 // and returned
	id       int
	err      string
	putT0    int64
	putT1    int64
	idS1     int64 // order of events, which virtual time does not show
	putS0    int64
	opened   chan struct{}
	recvs    []tsmRecv
	putDone  bool
	waitUntl int64
}

type tsmRecv struct {
	t0, t1 int64
	to     int64
	v      interface{}
	err    error
	done   bool
}

type tsmSend struct {
	o      *Op
	id     int
	t0, t1 int64
	q0, q1 int64
	done   bool
	err    error
}

func driveTSM(x *Env) {
	w := x.w
	size := int(w.plan.Cfg["size"])
	var t *tsm.TSM
	if !x.try("tsm.New", func() { t = tsm.New(size) }) {
		return
	}
	txs := map[int]*tsmTx{}
	var all []*tsmTx
	var sends []*tsmSend
	threads := map[int][]*Op{}
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		threads[o.Th] = append(threads[o.Th], o)
		if o.Kind == "own" {
			txs[o.ID] = &tsmTx{o: o, opened: make(chan struct{})}
		}
	}
	ids := []int{}
	for k := range threads {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	left := len(ids)
	for _, k := range ids {
		l := threads[k]
		go func() {
			defer func() { left-- }()
			for _, o := range l {
				if o.AtUs > 0 {
					time.Sleep(time.Duration(o.AtUs * us))
				}
				if o.Kind == "own" {
					tx := txs[o.ID]
					all = append(all, tx)
					x.ownTx(t, tx)
				} else {
					s := &tsmSend{o: o, id: int(o.B)}
					if o.A >= 0 {
						tx := txs[int(o.A)]
						if tx == nil {
							continue // removed by minimisation
						}
						<-tx.opened
						if tx.err != "" {
							continue
						}
						if o.C > 0 {
							time.Sleep(time.Duration(o.C * us))
						}
						s.id = tx.id
					}
					sends = append(sends, s)
					s.t0 = w.now()
					w.seq++
					s.q0 = w.seq
					w.logf("send #%d to id %d", o.ID, s.id)
					x.try("Send", func() { s.err = t.Send(s.id, o.ID) })
					s.t1 = w.now()
					w.seq++
					s.q1 = w.seq
					s.done = true
					w.logf("send #%d: %v", o.ID, s.err)
				}
				runtime.SimProgress()
			}
		}()
	}
	limit := w.now() + 60*sec + w.slack()
	for left > 0 && w.now() < limit {
		time.Sleep(20 * time.Millisecond)
	}
	w.probes["nontrivial"]++
	stalled := w.stall()
	if left > 0 && len(x.panics) == 0 {
		w.viol("C15", "stuck", "%d goroutines using the transaction manager never came back", left)
	}
	if len(x.panics) > 0 {
		return
	}
	// --- ids of open transactions are unique and bounded in number
	for i, a := range all {
		if a.err != "" || a.idT1 == 0 && a.id == 0 {
			continue
		}
		if a.id < 1 || a.id > 254 {
			w.viol("C15", "bad-id", "transaction %d was given id %d", a.o.ID, a.id)
		}
		n := 1
		for _, b := range all {
			if b == a || b.err != "" || b.id == 0 {
				continue
			}
			if b.idS1 < a.idS1 && b.putS0 > a.idS1 {
				n++
			}
		}
		if n > size {
			w.viol("C15", "too-many", "%d transactions open at once, the limit is %d", n, size)
		}
		if n == size {
			w.probe("all-slots-in-use")
		}
		for _, b := range all[i+1:] {
			if b.err != "" || b.id != a.id || b.id == 0 {
				continue
			}
			if a.idS1 < b.putS0 && b.idS1 < a.putS0 {
				w.viol("C15", "id-shared", "transactions %d and %d are open at once with id %d", a.o.ID, b.o.ID, a.id)
			}
		}
	}
	// --- an id is refused only while every slot may be taken
	for _, a := range all {
		if a.err == "" {
			continue
		}
		w.probe("id-refused")
		busy := 0
		for _, b := range all {
			if b != a && b.idT0 <= a.idT1 && (b.putT1 >= a.idT0 || !b.putDone) && b.err == "" {
				busy++
			} else if b != a && b.err != "" && b.idT0 <= a.idT1 && b.idT1 >= a.idT0 {
				busy++
			}
		}
		if busy < size && a.o.A > 0 && stalled == 0 {
			w.viol("C15", "refused", "transaction %d got no id in %d us while only %d of %d slots could be in use: %s", a.o.ID, a.o.A, busy, size, a.err)
		}
	}
	// --- every payload reaches at most one receiver, the right one, and its
	// sender learns whether it did
	got := map[int][]*tsmTx{}
	when := map[int]int64{}
	for _, a := range all {
		for _, v := range a.recvs {
			if !v.done {
				continue
			}
			if d := v.t1 - v.t0; d > v.to+stalled+ms {
				w.viol("C15", "receive-overrun", "receive with timeout %d us took %d us", v.to/us, d/us)
			}
			if v.err != nil {
				// nothing may have been waiting for it throughout
				for _, s := range sends {
					if s.id == a.id && s.t0 < v.t1 && s.t0 >= a.idT1 && v.t1-max(s.t0, v.t0) > stalled && s.t0 < v.t0+v.to-stalled &&
						(!s.done || s.t1 > v.t1+stalled || s.t1 == v.t1 && s.err != nil) {
						w.viol("C15", "missed", "transaction %d: receive [%d..%d us] timed out although payload %d was being handed in since %d us", a.o.ID, v.t0/us, v.t1/us, s.o.ID, s.t0/us)
					}
				}
				continue
			}
			n, ok := v.v.(int)
			if !ok {
				w.viol("C15", "garbage", "transaction %d received %v", a.o.ID, v.v)
				continue
			}
			got[n] = append(got[n], a)
			when[n] = v.t1
		}
	}
	for _, s := range sends {
		g := got[s.o.ID]
		switch {
		case len(g) > 1:
			w.viol("C15", "delivered-twice", "payload %d was received %d times", s.o.ID, len(g))
		case len(g) == 1 && s.done && s.err != nil:
			w.viol("C15", "misreported", "payload %d was received, but its sender got %q", s.o.ID, s.err)
		case len(g) == 0 && s.done && s.err == nil:
			w.viol("C15", "lost", "payload %d was accepted for id %d but never received", s.o.ID, s.id)
		}
		if s.done && s.err != nil {
			for _, a := range all {
				if a.err == "" && a.id == s.id && a.idT1 != 0 && a.idS1 < s.q0 && a.putS0 > s.q1 {
					w.viol("C15", "refused-early", "payload %d [%d..%d us] was refused although transaction %d held id %d from %d to %d us: %v", s.o.ID, s.t0/us, s.t1/us, a.o.ID, a.id, a.idT1/us, a.putT0/us, s.err)
				}
			}
			w.probe("send-refused")
		}
		if len(g) == 1 {
			w.probe("delivered")
			a := g[0]
			if a.id != s.id {
				w.viol("C15", "wrong-id", "payload %d for id %d was received by the transaction with id %d", s.o.ID, s.id, a.id)
			} else if a.idT1 > s.t0+stalled {
				w.viol("C15", "cross-delivery", "payload %d, handed in at %d us, was received by transaction %d which only began at %d us", s.o.ID, s.t0/us, a.o.ID, a.idT1/us)
			}
		}
		delete(got, s.o.ID)
	}
	for n := range got {
		w.viol("C15", "garbage", "payload %d was received but never sent", n)
	}
	if left > 0 {
		return
	}
	// --- nothing leaks: all slots and all ids are available again
	x.try("final check", func() {
		seen := map[int]bool{}
		for i := 0; i < 254; i += size {
			var held []int
			for k := 0; k < size && i+k < 254; k++ {
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				id, err := t.ID(ctx)
				cancel()
				if err != nil {
					w.viol("C15", "leak", "after everything was released only %d slots (%d distinct ids) are available: %v", k, len(seen), err)
					return
				}
				if seen[id] {
					w.viol("C15", "id-early", "id %d handed out again before %d others were used", id, 254-len(seen))
					return
				}
				seen[id] = true
				held = append(held, id)
			}
			if len(held) == size && (size < 8 || i == 0) {
				ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
				if id, err := t.ID(ctx); err == nil {
					w.viol("C15", "too-many", "slot %d of %d handed out (id %d)", len(held)+1, size, id)
				}
				cancel()
			}
			for _, id := range held {
				if err := t.Put(id); err != nil {
					w.viol("C15", "put-failed", "releasing id %d: %v", id, err)
					return
				}
				if err := t.Put(id); err == nil {
					w.viol("C15", "double-put", "releasing id %d twice succeeded", id)
					return
				}
				if err := t.Send(id, 1); err == nil {
					w.viol("C15", "send-to-closed", "handing a payload to the released id %d succeeded", id)
					return
				}
			}
		}
		w.probe("all-254-ids-cycled")
	})
	time.Sleep(time.Second)
	runtime.SimQuiesce()
	if n := runtime.SimGoroutines() - x.base0; n > 0 {
		w.viol("C15", "goroutine-leak", "%d goroutines are left over", n)
	}
}

func (x *Env) ownTx(t *tsm.TSM, a *tsmTx) {
	w := x.w
	o := a.o
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(o.A*us)+1)
	defer cancel()
	a.idT0 = w.now()
	opened := false
	open := func() {
		if !opened {
			opened = true
			close(a.opened)
		}
	}
	defer open()
	a.err = "panic"
	if !x.try("ID", func() {
		id, err := t.ID(ctx)
		a.id = id
		a.err = ""
		if err != nil {
			a.err = err.Error()
		}
	}) {
		return
	}
	a.idT1 = w.now()
	w.logf("tx %d: id %d %s", o.ID, a.id, a.err)
	if a.err != "" {
		a.id = 0
		return
	}
	a.putT0, a.putT1 = 1<<62, 1<<62
	w.seq++
	a.idS1, a.putS0 = w.seq, 1<<62
	open()
	for i := int64(0); i < o.B; i++ {
		if i > 0 && o.D > 0 {
			time.Sleep(time.Duration(o.D * us))
		}
		a.recvs = append(a.recvs, tsmRecv{t0: w.now(), to: o.C * us})
		v := &a.recvs[len(a.recvs)-1]
		x.try("Receive", func() { v.v, v.err = t.Receive(a.id, time.Duration(o.C*us)) })
		v.t1 = w.now()
		v.done = true
		w.logf("tx %d: received %v %v", o.ID, v.v, v.err)
	}
	if o.B == 0 {
		time.Sleep(time.Duration(o.C * us))
	}
	a.putT0 = w.now()
	w.seq++
	a.putS0 = w.seq
	w.logf("tx %d: release %d", o.ID, a.id)
	x.try("Put", func() {
		if err := t.Put(a.id); err != nil {
			w.viol("C15", "put-failed", "releasing id %d: %v", a.id, err)
		}
	})
	a.putT1 = w.now()
	a.putDone = true
}

// ---- C16: the publish/subscribe manager on its own

// Ops: "sub" subscribes to A..B; "pub" publishes to id A, B times, C us apart.
func genUTSM(p *Plan, r *Rng) {
	p.Cfg["overall"] = int64(r.pick(5, 50, 1000, 10000)) * 1000
	p.Cfg["idle"] = int64(r.pick(1, 5, 100, 2000)) * 1000
	idle := int(p.Cfg["idle"])
	over := int(p.Cfg["overall"])
	span := r.pick(0, idle/2, idle*2, idle*6, over, over*2)
	for k := r.rng(1, 6); k > 0; k-- {
		o := Op{ID: len(p.Ops), Th: len(p.Ops), Kind: "sub", AtUs: int64(r.n(span + 1))}
		o.A, o.B = int64(r.pick(0, 5, 10, 10)), int64(r.pick(10, 10, 11, 4194304))
		if r.one(2) { // the request that is answered: how long it takes, and whether it fails
			o.C = int64(r.pick(0, 1, 100, idle/2, idle*2, over*2))
			o.D = int64(r.pick(1, 1, 1, 2))
		}
		p.Ops = append(p.Ops, o)
	}
	for k := r.rng(1, 6); k > 0; k-- {
		o := Op{ID: len(p.Ops), Th: len(p.Ops), Kind: "pub", AtUs: int64(r.n(span + 1)), A: int64(r.pick(0, 4, 5, 9, 10, 10, 10, 11, 12)),
			B: int64(r.pick(1, 1, 2, 5, 30, r.pick(30, 90, 300))), C: int64(r.pick(0, 0, 1, 200, idle/2, idle-1, idle+1, over/4, over/20))}
		p.Ops = append(p.Ops, o)
	}
}

var errRequest = errors.New("the request failed")

type pubRec struct {
	id     int
	key    string
	t0, t1 int64
	q0, q1 int64
	pub    int
	seq    int
	done   bool
}

type subRec struct {
	o      *Op
	t0, t1 int64
	q0, q1 int64
	tr, te int64 // when its request was made and had been made
	done   bool
	err    error
	got    []interface{}
}

func driveUTSM(x *Env) {
	w := x.w
	overall, idle := w.plan.Cfg["overall"]*us, w.plan.Cfg["idle"]*us
	var m *utsm.Manager
	if !x.try("NewManager", func() {
		m = utsm.NewManager(utsm.DefaultSubscriberTimeout(time.Duration(overall)), utsm.DefaultSubscriberLastReceivedTimeout(time.Duration(idle)))
	}) {
		return
	}
	var subs []*subRec
	var pubs []*pubRec
	left := 0
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		left++
		if o.Kind == "sub" {
			s := &subRec{o: o}
			subs = append(subs, s)
			go func() {
				defer func() { left-- }()
				if o.AtUs > 0 {
					time.Sleep(time.Duration(o.AtUs * us))
				}
				s.t0 = w.now()
				w.seq++
				s.q0 = w.seq
				s.tr, s.te = s.t0, s.t0
				if o.D == 0 {
					x.try("Subscribe", func() { s.got, s.err = m.Subscribe(int(o.A), int(o.B)) })
				} else {
					x.try("SubscribeAfter", func() {
						s.got, s.err = m.SubscribeAfter(int(o.A), int(o.B), func() error {
							s.tr, s.te = w.now(), 1<<62
							if o.C > 0 {
								time.Sleep(time.Duration(o.C * us))
							}
							s.te = w.now()
							if o.D == 2 {
								return errRequest
							}
							return nil
						})
					})
				}
				s.t1 = w.now()
				w.seq++
				s.q1 = w.seq
				s.done = true
				w.logf("subscriber %d: %v %v", o.ID, s.got, s.err)
				runtime.SimProgress()
			}()
			continue
		}
		go func() {
			defer func() { left-- }()
			if o.AtUs > 0 {
				time.Sleep(time.Duration(o.AtUs * us))
			}
			for k := 0; k < int(o.B); k++ {
				p := &pubRec{id: int(o.A), key: fmt.Sprintf("%d.%d", o.ID, k), pub: o.ID, seq: k, t0: w.now()}
				w.seq++
				p.q0 = w.seq
				pubs = append(pubs, p)
				w.logf("publish %s to %d", p.key, p.id)
				if !x.try("Publish", func() { m.Publish(p.id, p.key) }) {
					return
				}
				p.t1 = w.now()
				w.seq++
				p.q1 = w.seq
				p.done = true
				runtime.SimProgress()
				if o.C > 0 {
					time.Sleep(time.Duration(o.C * us))
				}
			}
		}()
	}
	limit := w.now() + overall + 60*sec
	for _, o := range w.plan.Ops {
		if limit += o.AtUs * us; o.Kind == "sub" {
			limit += o.C * us
		} else {
			limit += o.B * o.C * us
		}
	}
	for left > 0 && w.now() < limit+w.slack() {
		time.Sleep(20 * time.Millisecond)
	}
	w.probes["nontrivial"]++
	stalled := w.stall()
	if len(x.panics) > 0 {
		return
	}
	if left > 0 {
		w.viol("C16", "stuck", "%d publishers or subscribers never came back", left)
	}
	byKey := map[string]*pubRec{}
	for _, p := range pubs {
		byKey[p.key] = p
		if p.done && p.t1-p.t0 > stalled+100*ms {
			w.viol("C16", "publisher-blocked", "publishing %s took %d ms", p.key, (p.t1-p.t0)/ms)
		}
	}
	for _, s := range subs {
		if !s.done {
			continue
		}
		if s.o.D == 2 {
			if s.err != errRequest {
				w.viol("C16", "request-error", "subscriber %d: its request failed, it got %v and %v", s.o.ID, s.got, s.err)
			}
			if s.t1 > s.te+stalled+ms {
				w.viol("C16", "late", "subscriber %d came back at %d us, its request had failed at %d us", s.o.ID, s.t1/us, s.te/us)
			}
			w.probe("request-failed")
			continue
		}
		if s.err != nil {
			w.viol("C16", "subscribe-error", "subscriber %d: %v", s.o.ID, s.err)
			continue
		}
		if d := s.t1 - s.te; d > overall+stalled+ms {
			w.viol("C16", "overrun", "subscriber %d took %d ms, its limit is %d ms", s.o.ID, d/ms, overall/ms)
		}
		// soundness
		seen := map[string]bool{}
		lastSeq := map[int]int{}
		got := map[string]bool{}
		for _, v := range s.got {
			k, _ := v.(string)
			p := byKey[k]
			if p == nil {
				w.viol("C16", "garbage", "subscriber %d received %v, which nobody published", s.o.ID, v)
				continue
			}
			if seen[k] {
				w.viol("C16", "duplicate", "subscriber %d received %s twice", s.o.ID, k)
			}
			seen[k], got[k] = true, true
			if p.id < int(s.o.A) || p.id > int(s.o.B) {
				w.viol("C16", "out-of-range", "subscriber %d (%d..%d) received %s published to %d", s.o.ID, s.o.A, s.o.B, k, p.id)
			}
			if p.done && p.q1 < s.q0 || p.q0 > s.q1 {
				w.viol("C16", "out-of-time", "subscriber %d [%d..%d us] received %s published at %d us", s.o.ID, s.t0/us, s.t1/us, k, p.t0/us)
			}
			if q, ok := lastSeq[p.pub]; ok && q > p.seq {
				w.viol("C16", "order", "subscriber %d received %s after number %d of the same publisher", s.o.ID, k, q)
			}
			lastSeq[p.pub] = p.seq
			w.probe("published-and-received")
		}
		// completeness, and the time at which the subscription ends
		var rel []*pubRec
		for _, p := range pubs {
			if p.id >= int(s.o.A) && p.id <= int(s.o.B) {
				rel = append(rel, p)
			}
		}
		sort.SliceStable(rel, func(i, j int) bool { return rel[i].t0 < rel[j].t0 })
		last := s.te
		sure := true
		known := s.t0 + stalled
		if s.o.D != 0 {
			known = s.tr // it has subscribed before it makes its request
		}
		for _, p := range rel {
			if p.t0 <= known { // the subscription may not have been known yet
				if p.t0 == s.te && stalled == 0 {
					continue
				}
				if s.te > s.tr && p.t0 == s.tr && stalled == 0 {
					continue
				}
				if !p.done || p.t1 >= s.t0 {
					sure = false
				}
				continue
			}
			dl := min(last+idle, s.te+overall)
			margin := stalled + 1000
			if p.t0 < dl-margin {
				if !got[p.key] {
					w.viol("C16", "missed", "subscriber %d [%d..%d us] did not receive %s published at %d us, its time was not over before %d us", s.o.ID, s.t0/us, s.t1/us, p.key, p.t0/us, dl/us)
				}
				last = max(last, p.t0)
				continue
			}
			if p.t0 <= dl+margin {
				sure = false
			}
			break
		}
		dl := min(last+idle, s.te+overall)
		if stalled == 0 && sure {
			if s.t1 < dl-ms {
				w.viol("C16", "early", "subscriber %d gave up at %d us, its time was over at %d us", s.o.ID, s.t1/us, dl/us)
			}
			if s.t1 > dl+ms {
				w.viol("C16", "late", "subscriber %d came back at %d us, its time was over at %d us", s.o.ID, s.t1/us, dl/us)
			}
		}
		if last+idle < s.te+overall {
			w.probe("ended-idle")
		} else {
			w.probe("ended-overall")
		}
	}
	time.Sleep(time.Second)
	runtime.SimQuiesce()
	if n := runtime.SimGoroutines() - x.base0; n > 0 && left == 0 {
		w.viol("C16", "goroutine-leak", "%d goroutines are left over", n)
	}
}
