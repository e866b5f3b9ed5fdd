//go:build go1.23

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/NubeDev/bacnet/btypes"
)

// slack is how late the client may legitimately be because of injected stalls
// and slow sends.
func (w *World) slack() int64 {
	s := w.stall() + 200*ms
	s += int64(w.kinds["send-slow"]) * 800 * ms
	s += int64(w.kinds["recv-error"]+w.kinds["rx-down"]) * 150 * ms
	return s
}

func isRead(k string) bool  { return k == "rp" || k == "rpm" }
func isWrite(k string) bool { return k == "wp" || k == "wpm" }
func isTx(k string) bool    { return isRead(k) || isWrite(k) }

func svcOf(kind string) byte {
	switch kind {
	case "rp":
		return svcRP
	case "rpm":
		return svcRPM
	case "wp":
		return svcWP
	}
	return svcWPM
}

func attemptsOf(kind string) int {
	if kind == "rp" {
		return 1
	}
	return 2
}

// wireSpecs is what a call's arguments must look like on the wire.
func wireSpecs(o *Op) []Spec {
	var out []Spec
	for _, s := range o.S {
		t := Spec{O: s.O}
		for _, q := range s.P {
			if isRead(o.Kind) {
				q.V, q.Pri = nil, 0
			} else if o.Kind == "wp" && (s.O.T == 4 || s.O.T == 5) && q.P == propPV && q.V[0].T == "uint" {
				q.V = []Val{vEnum(uint32(q.V[0].U))}
			}
			t.P = append(t.P, q)
		}
		out = append(out, t)
	}
	return out
}

func specsEq(a, b []Spec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].O != b[i].O || len(a[i].P) != len(b[i].P) {
			return false
		}
		for j := range a[i].P {
			p, q := a[i].P[j], b[i].P[j]
			if p.P != q.P || p.Idx != q.Idx || p.Pri != q.Pri || len(p.V) != len(q.V) {
				return false
			}
			for k := range p.V {
				if !p.V[k].eq(q.V[k]) {
					return false
				}
			}
		}
	}
	return true
}

// txView collects what the network saw of one call.
type txView struct {
	r      *OpRec
	frames []*TxFrame // every send, failed ones included
	sent   []*TxFrame
	execs  []*Exec
	stale  []string // kinds of late answers to earlier calls that cannot be told from its own
	alike  []*Exec  // those of them that answer the very same question
	fuzzy  bool     // other calls asked the same and it is not known which frame is whose
}

// owner finds the call a request belongs to among those about an object.
func owner(vs []*txView, t *TxFrame, sp []Spec) *txView {
	if len(vs) < 2 {
		for _, v := range vs {
			return v
		}
		return nil
	}
	var same []*txView
	for _, v := range vs {
		if v.r.F0 <= t.N && t.N < v.r.F1 {
			if v.r.Goid == t.Goid {
				return v
			}
			if specsEq(wireSpecs(v.r.Op), sp) && svcOf(v.r.Op.Kind) == t.F.Service {
				same = append(same, v)
			}
		}
	}
	if len(same) == 1 {
		return same[0]
	}
	// sent by another goroutine than the caller's: fine, but nobody can say for whom
	for _, v := range vs {
		v.fuzzy = true
	}
	return vs[0]
}

// views maps transmitted requests to the calls that caused them.
func (w *World) views() map[int]*txView {
	m := map[int]*txView{}
	about := map[int][]*txView{}
	for _, r := range w.ops {
		if isTx(r.Op.Kind) && !r.Skip {
			v := &txView{r: r}
			m[r.Op.ID] = v
			k := instOp(r.Op.S[0].O.I)
			about[k] = append(about[k], v)
		}
	}
	w.unmapped = nil
	for _, t := range w.frames {
		if t.F == nil || t.F.NetMsg >= 0 || t.F.PDU != 0 {
			continue
		}
		sp, err := parseRequest(t.F.Service, t.F.Body)
		if err == nil && len(sp) > 0 {
			if v := owner(about[instOp(sp[0].O.I)], t, sp); v != nil {
				v.frames = append(v.frames, t)
				if !t.Fail {
					v.sent = append(v.sent, t)
				}
				continue
			}
		}
		w.unmapped = append(w.unmapped, t)
	}
	fr := map[*TxFrame]*txView{}
	for _, v := range m {
		for _, t := range v.frames {
			fr[t] = v
		}
	}
	for _, e := range w.execs {
		if v := fr[e.Tx]; v != nil {
			v.execs = append(v.execs, e)
		}
	}
	// BACnet identifies an answer by the device, the invoke id and the service:
	// one to an earlier call that has all of them in common is as good as the
	// call's own, unless it names what was read
	byKey := map[string][]*txView{}
	key := func(inst uint32, id, svc byte) string { return fmt.Sprint(inst, " ", id, " ", svc) }
	for _, v := range sortedViews(m) {
		if len(v.sent) > 0 && v.r.Tgt != nil {
			k := key(v.r.Tgt.cfg.ID.I, v.sent[0].F.Invoke, v.sent[0].F.Service)
			byKey[k] = append(byKey[k], v)
		}
	}
	for _, e := range w.execs {
		if e.Mutated { // may have become an answer to anything
			for _, v := range sortedViews(m) {
				if v.r.Tgt == nil || v.r.Tgt.h.i != e.Host || len(v.sent) == 0 {
					continue
				}
				for _, x := range e.RxAt {
					if x >= v.sent[0].T && (!v.r.Done || x <= v.r.T1) {
						v.stale = append(v.stale, "ack")
					}
				}
			}
			continue
		}
		for _, v := range byKey[key(e.Inst, e.Invoke, e.Svc)] {
			if fr[e.Tx] == v {
				continue
			}
			for _, x := range e.RxAt {
				if x >= v.sent[0].T && (!v.r.Done || x <= v.r.T1) {
					k := e.Reply
					if k == "ack" && (len(e.Errs) > 0 || e.Mutated) {
						k = "error"
					}
					if k == "ack" && isRead(v.r.Op.Kind) {
						if want := wireSpecs(v.r.Op); !specsEq(e.Specs, want) {
							if openQuestion(want) { // it may be an answer to this one as well
								v.fuzzy = true
							}
							w.probe("stale-answer-to-another-question")
							if len(e.Specs) > 0 && e.Specs[0].O == v.r.Op.S[0].O {
								w.probe("stale-answer-about-same-object")
							}
							if bigBits(e) || otherCharset(e) { // cannot be read, so it may be about anything
								v.stale = append(v.stale, "error")
							}
							continue
						}
						v.alike = append(v.alike, e)
						w.probe("stale-answer-to-same-question")
					}
					v.stale = append(v.stale, k)
					w.probe("stale-answer-same-device")
				}
			}
		}
	}
	return m
}

// openQuestion: the device chooses what the answer names.
func openQuestion(ss []Spec) bool {
	for _, s := range ss {
		if s.O == (Oid{typeDevice, 4194303}) {
			return true
		}
		for _, p := range s.P {
			if isGroup(p.P) {
				return true
			}
		}
	}
	return false
}

func sortedViews(m map[int]*txView) []*txView {
	var out []*txView
	for _, v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].r.Op.ID < out[j].r.Op.ID })
	return out
}

// delivered returns the replies a call was bound to see, in order of arrival.
func (v *txView) delivered(w *World) (acks, errs, others int, es [][2]uint32) {
	sl := w.slack()
	for _, e := range v.execs {
		for _, x := range e.RxAt {
			ok := false
			for _, t := range v.sent {
				if x >= t.T && x <= t.T+5*sec-sl && t.T >= e.Tx.T {
					ok = true
				}
			}
			// between the first frame and the end of the call the transaction is open
			if !ok && len(v.sent) > 0 && x >= v.sent[0].T && x <= v.sent[len(v.sent)-1].T {
				ok = true
			}
			kind := e.Reply
			if kind == "ack" && len(e.Errs) > 0 {
				kind = "error"
			}
			if !ok {
				if kind != "none" {
					others++ // on the edge: nothing can be concluded from it
				}
				continue
			}
			switch kind {
			case "ack":
				if e.Mutated || e.truncated(w) {
					others++
				} else {
					acks++
				}
			case "error":
				if e.Mutated {
					others++
				} else {
					errs++
					if len(e.Errs) > 0 {
						es = append(es, e.Errs[0])
					} else {
						es = append(es, [2]uint32{e.Class, e.Code})
					}
				}
			default:
				others++
			}
		}
	}
	return
}

func (e *Exec) truncated(w *World) bool { return false }

// bigBits: the library's bit strings hold 120 bits.
func bigBits(e *Exec) bool {
	for _, vs := range e.Vals {
		for _, v := range vs {
			if v.T == "bits" && len(v.B) > 15 {
				return true
			}
		}
	}
	return false
}

// mentions reports whether an error text names a BACnet error class and code.
func propTag(kind string) string {
	switch kind {
	case "rp":
		return "C01"
	case "rpm":
		return "C10"
	}
	return "C05"
}

func sameProp(q PropRef, vs []Val, g btypes.Property) error {
	if uint32(g.Type) != q.P {
		return fmt.Errorf("property %d instead of %d", g.Type, q.P)
	}
	want := uint32(btypes.ArrayAll)
	if q.Idx >= 0 {
		want = uint32(q.Idx)
	}
	if g.ArrayIndex != want {
		return fmt.Errorf("array index %d instead of %d", g.ArrayIndex, want)
	}
	if !matchesList(vs, g.Data) {
		return fmt.Errorf("value %s, device sent %v", show(g.Data), vs)
	}
	return nil
}

// sameResult compares what a read returned with what an execution answered.
func sameResult(r *OpRec, e *Exec) error {
	var objs []btypes.Object
	if r.Op.Kind == "rp" {
		objs = []btypes.Object{r.PD.Object}
	} else {
		objs = r.MPD.Objects
	}
	if len(objs) != len(e.Served) {
		return fmt.Errorf("%d objects instead of %d", len(objs), len(e.Served))
	}
	k := 0
	for i, s := range e.Served {
		if uint32(objs[i].ID.Type) != s.O.T || uint32(objs[i].ID.Instance) != s.O.I {
			return fmt.Errorf("object %d,%d instead of %d,%d", objs[i].ID.Type, objs[i].ID.Instance, s.O.T, s.O.I)
		}
		if len(objs[i].Properties) != len(s.P) {
			return fmt.Errorf("object %d,%d has %d properties instead of %d", s.O.T, s.O.I, len(objs[i].Properties), len(s.P))
		}
		for j, q := range s.P {
			if err := sameProp(q, e.Vals[k], objs[i].Properties[j]); err != nil {
				return fmt.Errorf("object %d,%d property %d: %w", s.O.T, s.O.I, q.P, err)
			}
			k++
		}
	}
	return nil
}

// checkTx applies every per-transaction oracle.
func (w *World) checkTx() {
	m := w.views()
	sl := w.slack()
	for _, v := range sortedViews(m) {
		r, o := v.r, v.r.Op
		tag := propTag(o.Kind)
		d := r.Tgt
		want := wireSpecs(o)
		if v.fuzzy {
			w.probe("calls-not-told-apart")
			continue
		}
		// --- frames
		for i, t := range v.frames {
			w.checkFrame(v, t, want)
			if string(t.Raw) != string(v.frames[0].Raw) {
				w.viol("C12", "retry-differs", "op %d (%s): transmission %d differs from the first", o.ID, o.Kind, i+1)
			}
			if t.T < r.T0 || r.Done && t.T > r.T1 {
				w.viol("C12", "late-send", "op %d (%s): frame sent at %dus outside the call", o.ID, o.Kind, t.T/us)
			}
		}
		if len(v.frames) == 0 && r.Done && !r.Failed && r.Panic == "" {
			w.viol("C12", "not-sent", "op %d (%s): succeeded without sending its request", o.ID, o.Kind)
		}
		if len(v.frames) > attemptsOf(o.Kind) {
			w.viol("C12", "too-many-sends", "op %d (%s): sent %d times", o.ID, o.Kind, len(v.frames))
		}
		anyRx := len(v.stale) > 0
		for _, e := range v.execs {
			for _, x := range e.RxAt {
				if x >= r.T0 && (!r.Done || x <= r.T1+sl) {
					anyRx = true
				}
			}
		}
		anyFail := len(v.sent) != len(v.frames)
		for i := 1; i < len(v.frames) && !anyRx && !anyFail; i++ {
			if g := v.frames[i].T - v.frames[i-1].T; g < 5*sec {
				w.viol("C12", "impatient", "op %d (%s): retransmitted after %d ms without any answer", o.ID, o.Kind, g/ms)
			}
		}
		if !r.Done {
			continue
		}
		for _, e := range v.execs {
			if e.Reply != "reject" && !specsEq(e.Specs, want) && isWrite(o.Kind) {
				w.viol("C05", "applied-differs", "op %d (%s): device executed %v, caller asked %v", o.ID, o.Kind, e.Specs, want)
			}
		}
		acks, errs, others, es := v.delivered(w)
		others += len(v.stale)
		if r.Panic != "" {
			continue
		}
		if !r.Failed {
			w.probe(o.Kind + "-ok")
			var best error
			good := false
			for _, e := range append(append([]*Exec{}, v.execs...), v.alike...) {
				if e.Reply != "ack" || len(e.RxAt) == 0 || e.RxAt[0] > r.T1 {
					continue
				}
				if !specsEq(e.Specs, want) {
					continue
				}
				if isWrite(o.Kind) {
					good = true
					break
				}
				if len(e.Errs) > 0 {
					continue
				}
				if e.Mutated || bigBits(e) {
					good = true
					break
				}
				if err := sameResult(r, e); err != nil {
					best = err
				} else {
					good = true
					break
				}
			}
			for _, e := range v.execs {
				if e.Mutated {
					good = true
				}
			}
			for _, k := range v.stale {
				good = good || isWrite(o.Kind) && k == "ack"
			}
			if !good {
				switch {
				case best != nil:
					w.viol(tag, o.Kind+"-wrong", "op %d (%s %v): returned %v", o.ID, o.Kind, want, best)
				default:
					w.viol(tag, o.Kind+"-unfounded", "op %d (%s %v): succeeded, but the device acknowledged nothing by then (%d frames, %d executions)", o.ID, o.Kind, want, len(v.frames), len(v.execs))
				}
				if errs > 0 && acks == 0 {
					w.viol("C06", "error-swallowed", "op %d (%s): device answered error %v, call succeeded", o.ID, o.Kind, es[0])
				}
			}
			continue
		}
		w.probe(o.Kind + "-failed")
		// --- failures must be justified
		switch {
		case len(v.frames) == 0:
			busy := 0
			for _, q := range w.ops {
				if q != r && q.T0 < r.T1 && (!q.Done || q.T1 > r.T0) && !q.Skip {
					busy++
				}
			}
			tooBig := false
			if o.Kind == "rpm" || o.Kind == "wpm" {
				mx := o.MaxA
				if mx == 0 {
					mx = d.cfg.MaxApdu
				}
				if mx == 1 {
					mx = 0
				}
				tooBig = encodedLen(o)+npduLen(d) > int(mx)
				if tooBig {
					w.probe("request-too-large")
				}
			}
			if !tooBig && busy < 20 && !w.closedBefore(r.T1) && !unsendable(o) {
				w.viol("C04", "no-slot", "op %d (%s) failed without sending anything while %d other calls were active: %s", o.ID, o.Kind, busy, r.Err)
			}
		case acks > 0 && errs == 0 && others == 0 && !anyBig(v.execs) && !anyBig(v.alike):
			w.viol(tag, o.Kind+"-lost", "op %d (%s %v) failed although the device's acknowledgement arrived in time: %s", o.ID, o.Kind, want, r.Err)
		case errs > 0 && acks == 0 && others == 0 && !anyFail && !w.closedBefore(r.T1) && w.everyFrameAnswered(v) && !anyBig(v.execs):
			found := false
			for _, e := range es {
				found = found || mentions(r.Err, e)
			}
			for _, x := range v.execs {
				for _, e := range x.Errs {
					found = found || mentions(r.Err, e)
				}
			}
			w.probe("error-reply-surfaced")
			if !found {
				w.viol("C06", "error-lost", "op %d (%s): device answered error class/code %v, caller got %q", o.ID, o.Kind, es, r.Err)
			}
		case !anyRx && !anyFail && !w.closedBefore(r.T1):
			if len(v.frames) < attemptsOf(o.Kind) {
				w.viol("C12", "gave-up", "op %d (%s): gave up after %d transmission(s) without an answer: %s", o.ID, o.Kind, len(v.frames), r.Err)
			} else if last := v.frames[len(v.frames)-1]; r.T1-last.T < 5*sec {
				w.viol("C12", "impatient", "op %d (%s): gave up %d ms after its last transmission: %s", o.ID, o.Kind, (r.T1-last.T)/ms, r.Err)
			}
		}
	}
	w.checkIDs(m)
	for _, t := range w.unmapped {
		if t.F.PDU == 0 && t.F.Service != svcRP && t.F.Service != svcWP && t.F.Service != svcRPM && t.F.Service != svcWPM {
			w.viol("C11", "unknown-service", "request with service %d sent", t.F.Service)
		}
	}
}

func anyBig(es []*Exec) bool {
	for _, e := range es {
		if bigBits(e) || otherCharset(e) {
			return true
		}
	}
	return false
}

// otherCharset: the library knows two character sets, a read of a string in
// another one may fail. It must not return other text.
func otherCharset(e *Exec) bool {
	for _, vs := range e.Vals {
		for _, v := range vs {
			if v.T == "cs" {
				return true
			}
		}
	}
	return false
}

func (w *World) everyFrameAnswered(v *txView) bool {
	sl := w.slack()
	for i, t := range v.sent {
		ok := false
		for _, e := range v.execs {
			for _, x := range e.RxAt {
				// what arrives at the instant of a retransmission answers the frame before
				if (x > t.T || x == t.T && i == 0) && x <= t.T+5*sec-sl && (i+1 == len(v.sent) || x <= v.sent[i+1].T) {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return len(v.sent) > 0
}

// unsendable calls ask for something the library documents it cannot encode.
func unsendable(o *Op) bool {
	for _, s := range o.S {
		for _, q := range s.P {
			if o.Kind == "wp" && (s.O.T == 4 || s.O.T == 5) && q.P == propPV && len(q.V) > 0 && q.V[0].T != "uint" && q.V[0].T != "null" {
				return true
			}
		}
	}
	return false
}

// closedBefore reports whether the client had been asked to close by then.
// A client that loses its socket in any other way is not excused.
func (w *World) closedBefore(t int64) bool {
	for _, r := range w.ops {
		if k := r.Op.Kind; (k == "close" || k == "close2" || k == "n.close") && !r.Skip && r.T0 <= t {
			return true
		}
	}
	return w.shutAt > 0 && w.shutAt <= t
}

// encodedLen is the length of a request APDU built independently.
func encodedLen(o *Op) int {
	var b []byte
	for _, s := range wireSpecs(o) {
		b = putCtxOid(b, 0, s.O)
		b = putOpen(b, 1)
		for _, q := range s.P {
			b = putCtxU(b, 0, q.P)
			if q.Idx >= 0 {
				b = putCtxU(b, 1, uint32(q.Idx))
			}
			if isWrite(o.Kind) {
				b = putOpen(b, 2)
				for _, v := range q.V {
					b = v.put(b)
				}
				b = putClose(b, 2)
				if q.Pri != 0 {
					b = putCtxU(b, 3, q.Pri)
				}
			}
		}
		b = putClose(b, 1)
	}
	return len(b) + 4
}

func npduLen(d *device) int {
	if d.na == nil {
		return 2
	}
	return 2 + 3 + len(d.na.Adr) + 1
}

// checkFrame checks one transmitted confirmed request against its call.
func (w *World) checkFrame(v *txView, t *TxFrame, want []Spec) {
	o, d, f := v.r.Op, v.r.Tgt, t.F
	bad := func(sig, s string, a ...any) {
		w.viol("C11", sig, "op %d (%s): %s: %x", o.ID, o.Kind, fmt.Sprintf(s, a...), t.Raw)
	}
	if t.Dst != d.h.peer {
		bad("wrong-peer", "sent to %v instead of %v", t.Dst, d.h.peer)
	}
	if f.Fn != 0x0a {
		bad("bvlc", "BVLC function %#x for a unicast request", f.Fn)
	}
	if d.na == nil {
		if f.Dst != nil {
			bad("dnet", "DNET %d for a device on the local network", f.Dst.Net)
		}
	} else if f.Dst == nil || f.Dst.Net != d.na.Net || string(f.Dst.Adr) != string(d.na.Adr) {
		bad("dnet", "destination %+v instead of %+v", f.Dst, *d.na)
	} else if f.Hop == 0 {
		bad("hop", "hop count 0")
	}
	if f.Src != nil {
		bad("snet", "source address %+v", *f.Src)
	}
	if f.Ctrl&4 == 0 {
		bad("expecting-reply", "confirmed request not marked as expecting a reply")
	}
	if f.Ctrl&3 != 0 {
		bad("priority", "network priority %d", f.Ctrl&3)
	}
	if f.SegAcc {
		bad("segmented", "claims to accept segmented replies")
	}
	if f.MaxApdu != 5 {
		bad("max-apdu", "advertises APDU size code %d", f.MaxApdu)
	}
	if f.Service != svcOf(o.Kind) {
		bad("service", "service %d", f.Service)
		return
	}
	if f.Invoke == 0 || f.Invoke == 255 {
		bad("invoke", "invoke id %d", f.Invoke)
	}
	got, err := parseRequest(f.Service, f.Body)
	if err != nil {
		bad("encoding", "malformed parameters: %v", err)
	} else if !specsEq(got, want) {
		bad("parameters", "carries %v instead of %v", got, want)
	}
	if o.Kind == "rpm" || o.Kind == "wpm" {
		mx := o.MaxA
		if mx == 0 {
			mx = d.cfg.MaxApdu
		}
		if len(f.Body)+4 > int(mx) {
			bad("too-large", "%d bytes for a device that accepts %d", len(f.Body)+4, mx)
		}
	}
}

// checkIDs: transactions open at the same time carry different invoke ids and
// there are never more than twenty of them.
func (w *World) checkIDs(m map[int]*txView) {
	type iv struct {
		a, b int64
		id   byte
		op   int
	}
	var ivs []iv
	for _, v := range sortedViews(m) {
		if len(v.sent) == 0 || v.fuzzy {
			continue
		}
		x := iv{v.sent[0].T, v.sent[len(v.sent)-1].T + 5*sec - w.slack(), v.sent[0].F.Invoke, v.r.Op.ID}
		if v.r.Done && v.r.T1 < x.b {
			x.b = v.r.T1
		}
		for _, e := range v.execs {
			for _, t := range e.RxAt {
				if t < x.b {
					x.b = t
				}
			}
		}
		ivs = append(ivs, x)
	}
	sort.SliceStable(ivs, func(i, j int) bool { return ivs[i].a < ivs[j].a })
	peak := 0
	for i, x := range ivs {
		n := 1
		for _, y := range ivs[:i] {
			if y.b > x.a && x.b > x.a && y.b > y.a {
				n++
				if y.id == x.id {
					w.viol("C04", "id-reuse", "ops %d and %d have transactions open with the same invoke id %d", y.op, x.op, x.id)
					w.viol("C12", "id-reuse", "ops %d and %d have transactions open with the same invoke id %d", y.op, x.op, x.id)
				}
			}
		}
		peak = max(peak, n)
	}
	if peak > 20 {
		w.viol("C04", "too-many-open", "%d transactions open at once", peak)
		w.viol("C12", "too-many-open", "%d transactions open at once", peak)
	}
	if peak >= 20 {
		w.probe("all-slots-in-use")
	}
	if peak > 1 {
		w.probe("concurrent-transactions")
	}
}

// checkCalls applies the oracles every call is subject to.
func (w *World) checkCalls() {
	sl := w.slack()
	for _, r := range w.ops {
		if r.Skip {
			continue
		}
		if !r.Done {
			w.viol("*", "stuck "+r.Op.Kind, "op %d (%s) started at %d ms has not returned after %d ms", r.Op.ID, r.Op.Kind, r.T0/ms, (w.now()-r.T0)/ms)
			continue
		}
		if r.Panic != "" {
			continue // reported with its stack
		}
		if d := r.T1 - r.T0; d > bound(w, r.Op)+sl {
			w.viol("C03", "overrun "+r.Op.Kind, "op %d (%s) took %d ms, allowed %d ms", r.Op.ID, r.Op.Kind, d/ms, (bound(w, r.Op)+sl)/ms)
		}
		if r.Changed != "" {
			w.viol("C21", "argument "+r.Op.Kind+" "+r.Changed, "op %d (%s) modified its caller's %s", r.Op.ID, r.Op.Kind, r.Changed)
		}
		if now := r.results(); r.Dump != "" && now != r.Dump {
			i := 0
			for i < len(now) && i < len(r.Dump) && now[i] == r.Dump[i] {
				i++
			}
			a, b := r.Dump[max(0, i-60):min(len(r.Dump), i+60)], now[max(0, i-60):min(len(now), i+60)]
			w.viol("C21", "result "+r.Op.Kind, "what op %d (%s) returned has changed afterwards from ...%s... to ...%s...", r.Op.ID, r.Op.Kind, a, b)
		}
	}
	for _, t := range w.frames {
		if t.Err != nil {
			w.viol("C11", "malformed", "malformed frame sent to %v: %v: %x", t.Dst, t.Err, t.Raw)
		}
	}
	if len(w.ops) > 1 {
		w.probe("calls-made")
	}
}

// iamRx is an I-Am the client received.
type iamRx struct {
	t   int64
	i   IAmInfo
	mac Peer
	src *NetAddr
}

func (w *World) iams() (out []iamRx) {
	for _, x := range w.rx {
		if x.N < len(x.Raw) {
			continue
		}
		f, err := parseFrame(x.Raw)
		if err != nil || f.NetMsg >= 0 || f.PDU != 0x10 || f.Service != 0 || f.Fn == 9 {
			continue
		}
		i, err := parseIAm(f.Body)
		if err != nil {
			continue
		}
		p := x.From
		if f.Fn == 4 {
			p = f.Orig
		}
		out = append(out, iamRx{x.T, i, p, f.Src})
	}
	return
}

func limits(o *Op) (lo, hi int64) {
	lo, hi = o.A, o.B
	if lo <= 0 {
		lo = 0
	}
	if hi <= 0 {
		hi = 4194304
	}
	return
}

// checkWhoIs: discovery returns exactly the devices whose I-Am arrived.
func (w *World) checkWhoIs() {
	sl := w.slack()
	all := w.iams()
	for _, r := range w.ops {
		o := r.Op
		if o.Kind != "whois" && o.Kind != "n.whois" && o.Kind != "n.dwhois" || r.Skip || !r.Done || r.Panic != "" {
			continue
		}
		lo, hi := limits(o)
		net := int(o.Net)
		if o.C != 0 {
			net = 0xffff
		}
		// the frames that can be this call's own
		var own []*TxFrame
		others := 0
		for _, q := range w.ops {
			if q != r && asksWhoIs(q.Op.Kind) && !q.Skip && q.T0 <= r.T1 && (!q.Done || q.T1 >= r.T0) {
				others++
			}
		}
		for _, t := range w.frames {
			if t.T < r.T0 || t.T > r.T1 || t.F == nil || t.F.PDU != 0x10 || t.F.Service != 8 || t.F.NetMsg >= 0 {
				continue
			}
			l, h, err := parseWhoIs(t.F.Body)
			if err != nil {
				w.viol("C11", "whois-encoding", "op %d: Who-Is with malformed limits: %v: %x", o.ID, err, t.Raw)
				continue
			}
			n := 0
			if t.F.Dst != nil {
				n = int(t.F.Dst.Net)
			}
			okLim := l == lo && h == hi
			if l < 0 { // no limits: only if there are none, or none that can be said
				okLim = hi > 4194303 || lo > 4194303 || lo == 0 && hi == 4194303
			}
			if okLim && n == net {
				own = append(own, t)
			} else if others == 0 {
				w.viol("C11", "whois-parameters", "op %d: Who-Is for %d..%d network %d went out as %d..%d network %d", o.ID, lo, hi, net, l, h, n)
			}
		}
		for _, t := range own {
			w.checkBroadcast("whois", t)
		}
		if len(own) == 0 {
			if !r.Failed {
				w.viol("C07", "no-request", "op %d: no matching Who-Is was sent", o.ID)
			}
			continue
		}
		if others == 0 && len(own) > 1 {
			w.viol("C12", "whois-repeated", "op %d: %d Who-Is requests sent", o.ID, len(own))
		}
		if r.Failed {
			if !own[0].Fail && others == 0 {
				w.viol("C07", "failed", "op %d: discovery failed: %s", o.ID, r.Err)
			}
			continue
		}
		if own[0].Fail && len(own) == 1 && others == 0 {
			w.viol("C18", "send-error-hidden", "op %d: discovery succeeded although its request could not be sent", o.ID)
			continue
		}
		// completeness: the idle rule is two seconds since the last answer
		last := r.T0
		must := map[uint32]iamRx{}
		for _, a := range all {
			if a.t < own[0].T || int64(a.i.ID.I) < lo || int64(a.i.ID.I) > hi {
				continue
			}
			if a.t-last < 2*sec-sl && a.t-r.T0 < 10*sec-sl && a.t > own[len(own)-1].T {
				if _, ok := must[a.i.ID.I]; !ok {
					must[a.i.ID.I] = a
				}
				last = a.t
			}
		}
		if len(must) > 0 {
			w.probe("discovery-found-devices")
		}
		seen := map[uint32]bool{}
		for _, dv := range r.Devs {
			id := uint32(dv.ID.Instance)
			if seen[id] {
				w.viol("C07", "duplicate", "op %d: device %d reported twice", o.ID, id)
			}
			seen[id] = true
			delete(must, id)
			if int64(id) < lo || int64(id) > hi {
				w.viol("C07", "out-of-range", "op %d: device %d is outside %d..%d", o.ID, id, lo, hi)
			}
			found, ex := false, ""
			for _, a := range all {
				if a.t >= r.T0-sl && a.t <= r.T1 && a.i.ID.I == id {
					if e := sameDevice(dv, a); e == "" {
						found = true
					} else {
						ex = e
					}
				}
			}
			if !found {
				w.viol("C07", "unfounded", "op %d: device %d reported, but no I-Am says so %s: %+v", o.ID, id, ex, dv)
			}
		}
		ids := []int{}
		for id := range must {
			ids = append(ids, int(id))
		}
		sort.Ints(ids)
		if len(ids) > 0 {
			w.viol("C07", "missed", "op %d (%d..%d, %d..%d ms): I-Am of device(s) %v arrived in time but they are missing", o.ID, lo, hi, r.T0/ms, r.T1/ms, ids)
		}
	}
}

// asksWhoIs reports whether a call may send a Who-Is of its own.
func asksWhoIs(k string) bool {
	switch k {
	case "n.disc", "n.ddisc", "n.points", "n.objs":
		return true
	}
	return strings.Contains(k, "whois")
}

func sameDevice(d btypes.Device, a iamRx) string {
	net, mac := 0, 0
	var adr []byte
	if a.src != nil {
		net = int(a.src.Net)
		adr = a.src.Adr
		if len(adr) > 0 {
			mac = int(adr[0])
		}
	}
	switch {
	case uint32(d.ID.Type) != a.i.ID.T || d.DeviceID != int(a.i.ID.I):
		return "(identifier)"
	case d.MaxApdu != a.i.MaxApdu:
		return fmt.Sprintf("(max APDU %d, device said %d)", d.MaxApdu, a.i.MaxApdu)
	case uint32(d.Segmentation) != a.i.Seg:
		return fmt.Sprintf("(segmentation %d, device said %d)", d.Segmentation, a.i.Seg)
	case d.Vendor != a.i.Vendor:
		return fmt.Sprintf("(vendor %d, device said %d)", d.Vendor, a.i.Vendor)
	case string(d.Addr.Mac) != string(a.mac.mac()):
		return fmt.Sprintf("(address %v, it is %v)", d.Addr.Mac, a.mac)
	case d.Ip != a.mac.ipString() || d.Port != a.mac.Port:
		return fmt.Sprintf("(endpoint %s:%d, it is %v)", d.Ip, d.Port, a.mac)
	case int(d.Addr.Net) != net || d.NetworkNumber != net:
		return fmt.Sprintf("(network %d/%d, it is %d)", d.Addr.Net, d.NetworkNumber, net)
	case string(d.Addr.Adr) != string(adr) || d.MacMSTP != mac:
		return fmt.Sprintf("(MAC %v/%d, it is %v)", d.Addr.Adr, d.MacMSTP, adr)
	}
	return ""
}

func (w *World) checkBroadcast(what string, t *TxFrame) {
	f := t.F
	switch {
	case t.Dst != Peer{w.bcast, 47808}:
		w.viol("C11", what+"-peer", "%s sent to %v", what, t.Dst)
	case f.Fn != 0x0b:
		w.viol("C11", what+"-bvlc", "%s broadcast with BVLC function %#x", what, f.Fn)
	case f.Src != nil:
		w.viol("C11", what+"-snet", "%s with source address", what)
	case f.Dst != nil && (len(f.Dst.Adr) != 0 || f.Hop == 0):
		w.viol("C11", what+"-dnet", "%s with destination %+v hop %d", what, *f.Dst, f.Hop)
	case f.Ctrl&4 != 0:
		w.viol("C11", what+"-expecting", "%s marked as expecting a reply", what)
	}
}

// checkNetLayer: router and network-number discovery.
func (w *World) checkNetLayer() {
	sl := w.slack()
	type rx struct {
		t    int64
		typ  int
		nets []uint16
		cut  bool // not a whole list
	}
	var all []rx
	for _, x := range w.rx {
		f, err := parseFrame(x.Raw)
		if err != nil || x.N < len(x.Raw) || f.NetMsg < 0 || f.Fn == 9 {
			continue
		}
		y := rx{t: x.T, typ: f.NetMsg}
		switch f.NetMsg {
		case 0x01:
			for i := 0; i+1 < len(f.NetBody); i += 2 {
				y.nets = append(y.nets, uint16(f.NetBody[i])<<8|uint16(f.NetBody[i+1]))
			}
			y.cut = len(f.NetBody)%2 != 0
		case 0x13:
			if len(f.NetBody) >= 2 {
				y.nets = []uint16{uint16(f.NetBody[0])<<8 | uint16(f.NetBody[1])}
			}
		default:
			continue
		}
		if len(y.nets) > 0 {
			all = append(all, y)
		}
	}
	for _, r := range w.ops {
		o := r.Op
		if o.Kind != "router" && o.Kind != "netnum" || r.Skip || !r.Done || r.Panic != "" {
			continue
		}
		typ, ask := 0x01, 0x00
		if o.Kind == "netnum" {
			typ, ask = 0x13, 0x12
		}
		var own []*TxFrame
		for _, t := range w.frames {
			if t.T >= r.T0 && t.T <= r.T1 && t.F != nil && t.F.NetMsg == ask {
				own = append(own, t)
			}
		}
		if w.closedBefore(r.T1) {
			continue
		}
		if len(own) == 0 {
			w.viol("C08", "no-request", "op %d (%s): nothing was sent", o.ID, o.Kind)
			continue
		}
		for _, t := range own {
			w.checkBroadcast(o.Kind, t)
			if len(t.F.NetBody) != 0 {
				w.viol("C11", o.Kind+"-body", "op %d: unexpected parameters %x", o.ID, t.F.NetBody)
			}
		}
		got := map[uint16]bool{}
		for _, n := range r.Nets {
			got[n] = true
			ok := false
			for _, a := range all {
				if a.typ == typ && a.t >= r.T0-sl && a.t <= r.T1 {
					for _, m := range a.nets {
						ok = ok || m == n
					}
				}
			}
			if !ok {
				w.viol("C08", "unfounded", "op %d (%s): network %d was never announced", o.ID, o.Kind, n)
			}
		}
		last := r.T0
		overlapping := false
		sent := true
		for _, t := range own {
			sent = sent && !t.Fail
		}
		if !sent {
			continue // the call may have ended at once
		}
		for _, q := range w.ops {
			if q != r && q.Op.Kind == o.Kind && q.T0 <= r.T1 && (!q.Done || q.T1 >= r.T0) {
				overlapping = true
			}
		}
		from := own[0].T
		if overlapping {
			from = own[len(own)-1].T
		}
		for _, a := range all {
			if a.typ != typ || a.cut || a.t <= from || a.t-last >= 2*sec-sl || a.t-r.T0 >= 10*sec-sl {
				continue
			}
			last = a.t
			w.probe(o.Kind + "-answered")
			for _, m := range a.nets {
				if m >= 1 && m <= 65534 && !got[m] {
					w.viol("C08", "missed", "op %d (%s): network %d was announced at %d ms but is missing from %v", o.ID, o.Kind, m, a.t/ms, r.Nets)
				}
			}
		}
	}
}

// checkObjects: the object inventory is exact or an error.
func (w *World) checkObjects() {
	for _, r := range w.ops {
		o := r.Op
		if o.Kind != "objects" || r.Skip || !r.Done || r.Panic != "" {
			continue
		}
		d := r.Tgt
		if r.Failed {
			w.probe("objects-failed")
			alone := w.plan.calm() && w.slack() < sec && w.stall() == 0
			for _, q := range w.ops {
				if q != r && q.Tgt == d && q.T0 <= r.T1 && (!q.Done || q.T1 >= r.T0) {
					alone = false
				}
			}
			if o.MaxA == 1 || o.MaxA > 0 && o.MaxA < 50 {
				continue
			}
			clean := alone && !w.closedBefore(r.T1)
			for _, e := range w.execs {
				if e.Inst == d.cfg.ID.I && e.T >= r.T0 && e.T <= r.T1 && (e.Reply != "ack" || len(e.Errs) > 0) {
					clean = false
				}
			}
			busy := 0
			for _, q := range w.ops {
				if q != r && q.T0 < r.T1 && (!q.Done || q.T1 > r.T0) {
					busy++
				}
			}
			if clean && busy < 20 && d.namesAreStrings() && d.cfg.Odd == nil {
				w.viol("C09", "failed", "op %d: device %d answered every request, yet its objects could not be listed: %s", o.ID, d.cfg.ID.I, r.Err)
			}
			continue
		}
		w.probe("objects-ok")
		want := map[Oid]bool{}
		for _, x := range d.list {
			want[x] = true
		}
		n := 0
		for t, l := range r.Dev.Objects {
			for i, ob := range l {
				n++
				x := Oid{uint32(t), uint32(i)}
				if !want[x] {
					w.viol("C09", "unfounded", "op %d: object %d,%d is not in device %d", o.ID, x.T, x.I, d.cfg.ID.I)
					continue
				}
				if uint32(ob.ID.Type) != x.T || uint32(ob.ID.Instance) != x.I {
					w.viol("C09", "misfiled", "op %d: object %d,%d filed under %d,%d", o.ID, ob.ID.Type, ob.ID.Instance, x.T, x.I)
				}
				if x.T > 128 {
					continue
				}
				wn, wd := d.strProp(x, propName), d.strProp(x, propDesc)
				if ob.Name != wn || ob.Description != wd {
					w.viol("C09", "wrong-details", "op %d: object %d,%d is %q/%q, device says %q/%q", o.ID, x.T, x.I, ob.Name, ob.Description, wn, wd)
				}
			}
		}
		if n != len(want) {
			w.viol("C09", "incomplete", "op %d: %d objects listed, device %d has %d", o.ID, n, d.cfg.ID.I, len(want))
		}
	}
}

func (d *device) strProp(x Oid, p uint32) string {
	if pr := d.objs[x][p]; pr != nil && len(pr.v) == 1 && pr.v[0].T == "char" || d.objs[x][p] != nil && len(d.objs[x][p].v) == 1 && d.objs[x][p].v[0].T == "ucs2" {
		return d.objs[x][p].v[0].S
	}
	return ""
}

func (d *device) namesAreStrings() bool {
	for _, x := range d.list {
		for _, p := range []uint32{propName, propDesc} {
			pr := d.objs[x][p]
			if pr == nil || len(pr.v) != 1 || pr.v[0].T != "char" && pr.v[0].T != "ucs2" {
				return false
			}
		}
	}
	return true
}

// checkIAm: I-Am announcements go out as asked.
func (w *World) checkIAm() {
	for _, t := range w.frames {
		if t.F == nil || t.F.NetMsg >= 0 || t.F.PDU != 0x10 || t.F.Service != 0 {
			continue
		}
		i, err := parseIAm(t.F.Body)
		known := false
		for _, r := range w.ops {
			known = known || r.Op.Kind == "iam" && !r.Skip && *r.Op.IAm == i && t.T >= r.T0 && (!r.Done || t.T <= r.T1)
		}
		if err != nil {
			w.viol("C11", "iam-encoding", "malformed I-Am: %v: %x", err, t.Raw)
		} else if !known {
			w.viol("C11", "iam-foreign", "an I-Am nobody asked for was sent: %x", t.Raw)
		}
	}
	for _, r := range w.ops {
		o := r.Op
		if o.Kind != "iam" || r.Skip || !r.Done || r.Panic != "" {
			continue
		}
		if o.IAm.unsayable() {
			w.probe("iam-unsayable")
			if !r.Failed {
				w.viol("C11", "iam-accepted", "op %d: I-Am %+v cannot be said but no error was reported", o.ID, *o.IAm)
			}
			continue // what was sent for it, if anything, shows as a malformed or foreign frame
		}
		n, fail := 0, false
		for _, t := range w.frames {
			if t.T < r.T0 || t.T > r.T1 || t.F == nil || t.F.NetMsg >= 0 || t.F.PDU != 0x10 || t.F.Service != 0 {
				continue
			}
			i, err := parseIAm(t.F.Body)
			if err != nil || i != *o.IAm {
				continue
			}
			n++
			fail = fail || t.Fail
			f := t.F
			bad := ""
			wantPeer, wantFn := Peer{w.bcast, 47808}, byte(0x0b)
			var wantDst *NetAddr
			switch o.Str {
			case "local":
			case "global":
				wantDst = &NetAddr{Net: 0xffff}
			case "remote":
				wantDst = &NetAddr{Net: o.Net}
			case "routed":
				wantPeer, wantFn = w.hosts[o.Host].peer, 0x0a
				wantDst = &NetAddr{o.Net, o.Mac}
			default:
				wantPeer, wantFn = w.hosts[o.Host].peer, 0x0a
			}
			switch {
			case t.Dst != wantPeer:
				bad = fmt.Sprintf("sent to %v", t.Dst)
			case f.Fn != wantFn:
				bad = fmt.Sprintf("BVLC function %#x", f.Fn)
			case (f.Dst == nil) != (wantDst == nil) || f.Dst != nil && (f.Dst.Net != wantDst.Net || string(f.Dst.Adr) != string(wantDst.Adr)):
				bad = fmt.Sprintf("destination %+v", f.Dst)
			case f.Dst != nil && f.Hop == 0:
				bad = "hop count 0"
			case f.Ctrl&4 != 0 || f.Src != nil:
				bad = fmt.Sprintf("control %#x", f.Ctrl)
			}
			if bad != "" {
				w.viol("C11", "iam-frame", "op %d: I-Am (%s): %s: %x", o.ID, o.Str, bad, t.Raw)
			}
		}
		if n == 0 && !r.Failed {
			w.viol("C11", "iam-missing", "op %d: I-Am %+v was not sent as asked", o.ID, *o.IAm)
		}
		if n == 1 && fail != r.Failed {
			w.viol("C18", "iam-send", "op %d: send failed=%v but the call reported %q", o.ID, fail, r.Err)
		}
		w.probe("iam")
	}
}
