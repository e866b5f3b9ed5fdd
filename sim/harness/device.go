//go:build go1.23

package main

import (
	"fmt"
	"math"
)

// virtBase: objects with an instance from here on exist in every device that
// has virtual properties; each simulated call uses an instance of its own.
const virtBase = 100000

const (
	propName       = 77
	propPV         = 85
	propPrio       = 87
	propObjectList = 76
	propUnits      = 117
	propDesc       = 28
	propMaxApdu    = 62
	propVendorName = 121
	propSegSup     = 107
	propAll        = 8
	typeDevice     = 8
)

// host is a node on the simulated LAN: a device, a router or a BBMD.
type host struct {
	w    *World
	i    int
	cfg  *Host
	peer Peer
	dev  *device
	nets []*rnet
}

type rnet struct {
	num  uint16
	devs []*device
}

// device is a simulated BACnet device.
type device struct {
	w     *World
	h     *host
	cfg   *Dev
	na    *NetAddr // where it sits behind a router
	objs  map[Oid]map[uint32]*prop
	list  []Oid
	cache map[string]*cached
	epoch int
	flow  string
}

type prop struct {
	def *Pr
	v   []Val
	pa  []Val // 16 entries for commandable properties
}

type cached struct {
	t     int64
	reply []byte
	e     *Exec
}

func (h *host) init() {
	if h.cfg.Dev != nil {
		h.dev = newDevice(h, h.cfg.Dev, nil)
	}
	for _, n := range h.cfg.Nets {
		r := &rnet{num: n.Net}
		for i := range n.Devs {
			r.devs = append(r.devs, newDevice(h, &n.Devs[i].Dev, &NetAddr{n.Net, n.Devs[i].Mac}))
		}
		h.nets = append(h.nets, r)
	}
}

func newDevice(h *host, c *Dev, na *NetAddr) *device {
	d := &device{w: h.w, h: h, cfg: c, na: na, objs: map[Oid]map[uint32]*prop{}, cache: map[string]*cached{}}
	d.flow = fmt.Sprintf("d%d", c.ID.I)
	for i := range c.Objs {
		o := &c.Objs[i]
		m := map[uint32]*prop{}
		for j := range o.P {
			p := &prop{def: &o.P[j], v: append([]Val{}, o.P[j].V...)}
			if p.def.Prio {
				p.pa = make([]Val, 16)
				for k := range p.pa {
					p.pa[k] = vNull()
				}
				if p.def.Held != nil {
					p.pa[5] = *p.def.Held
				}
			}
			m[p.def.P] = p
		}
		d.objs[o.O] = m
		d.list = append(d.list, o.O)
	}
	return d
}

// onLAN reports whether the host hears broadcasts on the client's subnet.
func (h *host) onLAN() bool { return h.cfg.Via == 0 }

func (h *host) down(t int64) bool {
	if h.w.inWin("crash", h.i, t) {
		h.w.kinds["crash-drop"]++
		return true
	}
	return false
}

// receive handles a datagram that reached the host.
func (h *host) receive(t *TxFrame, from Peer, bcast bool) {
	w := h.w
	if h.down(w.now()) {
		return
	}
	for _, x := range w.plan.Win {
		if x.Kind == "stall" && x.Host == h.i && w.now() >= x.From*ms && w.now() < x.To*ms {
			w.kinds["device-stall"]++
			w.after(x.To*ms-w.now(), func() { h.receive(t, from, bcast) })
			return
		}
	}
	f := t.F
	if f == nil {
		return // malformed: reported separately
	}
	if bcast != (f.Fn == 0x0b) {
		return // BVLC function does not match how the datagram was sent
	}
	if bcast && h.cfg.Kind == "bbmd" {
		for _, o := range w.hosts {
			if o.cfg.Via == h.i+1 {
				o := o
				w.travel("b>"+o.peer.String(), o.i, (h.cfg.DelayUs+o.cfg.DelayUs)*us, func(int) { o.npdu(t, f, from) })
			}
		}
	}
	h.npdu(t, f, from)
}

func (h *host) npdu(t *TxFrame, f *Frame, from Peer) {
	w := h.w
	if h.down(w.now()) {
		return
	}
	if f.NetMsg >= 0 {
		h.netMsg(f, from)
		return
	}
	if f.Dst == nil || f.Dst.Net == 0xffff {
		if h.dev != nil {
			h.dev.apdu(t, f, from)
		}
	}
	if f.Dst != nil {
		if f.Hop == 0 {
			return
		}
		for _, n := range h.nets {
			if f.Dst.Net != 0xffff && f.Dst.Net != n.num {
				continue
			}
			for _, d := range n.devs {
				if len(f.Dst.Adr) == 0 || string(f.Dst.Adr) == string(d.na.Adr) {
					d.apdu(t, f, from)
				}
			}
		}
	}
}

func (h *host) netMsg(f *Frame, from Peer) {
	w := h.w
	switch f.NetMsg {
	case 0x00: // Who-Is-Router-To-Network
		want := -1
		if len(f.NetBody) >= 2 {
			want = int(f.NetBody[0])<<8 | int(f.NetBody[1])
		}
		var body []byte
		for _, n := range h.nets {
			if want < 0 || want == int(n.num) {
				body = append(body, byte(n.num>>8), byte(n.num))
			}
		}
		if len(body) > 0 {
			w.probe("i-am-router-sent")
			b := bvlc(0x0b, npduNetMsg(nil, 0x01, body))
			w.after(h.replyDelay(), func() { w.toClient(h, from, b, "router") })
		}
	case 0x12: // What-Is-Network-Number
		if h.cfg.NetNum != 0 {
			w.probe("network-number-is-sent")
			b := bvlc(0x0b, npduNetMsg(nil, 0x13, []byte{byte(h.cfg.NetNum >> 8), byte(h.cfg.NetNum), 1}))
			w.after(h.replyDelay(), func() { w.toClient(h, from, b, "netnum") })
		}
	}
}

func (h *host) replyDelay() int64 {
	if h.cfg.NmDelayUs > 0 {
		return h.cfg.NmDelayUs * us
	}
	return 0
}

// send wraps an APDU of device d for the client and puts it on the wire.
func (d *device) send(to Peer, apdu []byte, bcast, expect bool, tag any) {
	w := d.w
	h := d.h
	if h.down(w.now()) {
		return
	}
	var dst *NetAddr
	if bcast && d.na != nil {
		dst = &NetAddr{Net: 0xffff}
	}
	n := npduBytes(expect, dst, d.na, apdu)
	switch {
	case bcast && h.cfg.Via > 0:
		bb := w.hosts[h.cfg.Via-1]
		if bb.down(w.now()) {
			return
		}
		w.probe("forwarded-npdu")
		w.toClient(bb, to, bvlcFwd(h.peer, n), tag)
	case bcast:
		w.toClient(h, to, bvlc(0x0b, n), tag)
	default:
		w.toClient(h, to, bvlc(0x0a, n), tag)
	}
}

func (d *device) apdu(t *TxFrame, f *Frame, from Peer) {
	switch f.PDU {
	case 0x10:
		if f.Service == 8 {
			d.whoIs(f, from)
		}
	case 0x00:
		d.confirmed(t, f, from)
	}
}

func (d *device) whoIs(f *Frame, from Peer) {
	lo, hi, err := parseWhoIs(f.Body)
	if err != nil {
		return
	}
	if lo >= 0 && (int64(d.cfg.ID.I) < lo || int64(d.cfg.ID.I) > hi) {
		return
	}
	for _, x := range d.cfg.IAms {
		d.w.after(x*us, func() {
			d.w.probe("i-am-sent")
			d.send(from, d.cfg.IAmInfo.apdu(), d.cfg.Bcast, false, d)
		})
	}
}

func hasWrite(svc byte) bool { return svc == svcWP || svc == svcWPM }

func (d *device) confirmed(t *TxFrame, f *Frame, from Peer) {
	w := d.w
	now := w.now()
	// a restart empties the duplicate-detection cache
	ep := 0
	for _, x := range w.plan.Win {
		if x.Kind == "crash" && x.Host == d.h.i && now >= x.To*ms {
			ep++
		}
	}
	if ep != d.epoch {
		d.epoch = ep
		d.cache = map[string]*cached{}
		w.kinds["device-restart"]++
		w.logf("device %d restarted", d.cfg.ID.I)
	}
	reqAPDU := len(f.Body) + 4
	e := &Exec{T: now, Host: d.h.i, Inst: d.cfg.ID.I, Tx: t, Svc: f.Service, Invoke: f.Invoke, Reply: "none"}
	w.execs = append(w.execs, e)
	specs, err := parseRequest(f.Service, f.Body)
	if err != nil || reqAPDU > int(d.cfg.MaxApdu) {
		// reject: invalid tag / abort: buffer overflow
		e.Reply = "reject"
		w.probe("device-rejected-request")
		d.reply(e, from, []byte{0x60, f.Invoke, 4}, 0)
		return
	}
	e.Specs = specs

	var reject, abort, noreply bool
	var slow int64
	var errc, mut, dupdel int64 = -1, -1, -1
	c := &w.plan.Net
	for _, x := range w.faults(d.flow, func(r *Rng, add func(string, int64)) {
		switch {
		case r.pm(c.NoReply):
			add("no-reply", int64(r.n(2))) // 1: not executed either
		case r.pm(c.Reject):
			add("reject", int64(r.rng(0, 9)))
		case r.pm(c.Abort):
			add("abort", int64(r.rng(0, 6)))
		case r.pm(c.ErrReply):
			p := r.errPair()
			add("error", int64(p[0])<<16|int64(p[1]))
		case r.pm(c.Mutate):
			add("mutate", int64(r.u64()>>8))
		case r.pm(c.Slow):
			add("slow", int64(r.rng(500, 4500))*ms)
		}
		if r.pm(c.Cov) {
			add("peer-request", int64(r.n(4)))
		}
	}) {
		switch x.K {
		case "no-reply":
			noreply = true
			dupdel = x.V
		case "reject":
			reject = true
			errc = x.V
		case "abort":
			abort = true
			errc = x.V
		case "error":
			errc = x.V
		case "mutate":
			mut = x.V
		case "slow":
			slow = x.V
		case "peer-request":
			d.peerRequest(from, f.Invoke, x.V)
		}
	}
	if noreply && dupdel == 1 {
		e.Reply = "dropped"
		return
	}
	if reject {
		e.Reply = "reject"
		d.reply(e, from, []byte{0x60, f.Invoke, byte(errc)}, slow)
		return
	}
	if abort {
		e.Reply = "abort"
		d.reply(e, from, []byte{0x71, f.Invoke, byte(errc)}, slow)
		return
	}
	if errc >= 0 {
		e.Reply, e.Class, e.Code = "error", uint32(errc>>16), uint32(errc&0xffff)
		d.reply(e, from, errorAPDU(f.Invoke, f.Service, e.Class, e.Code), slow)
		return
	}

	var out []byte
	key := from.String() + string(t.Raw)
	if c := d.cache[key]; c != nil && hasWrite(f.Service) && now-c.t < 60*sec {
		e.Again, e.First = true, c.e
		e.Reply, e.Class, e.Code = c.e.AckKind, c.e.Class, c.e.Code
		out = c.reply
		w.probe("retransmission-deduplicated")
	} else {
		out = d.execute(e)
		e.AckKind = e.Reply
		d.cache[key] = &cached{now, out, e}
	}
	if len(out) > 1476 || len(out) > int(d.cfg.MaxApdu) {
		e.Reply = "abort"
		w.probe("reply-needs-segmentation")
		out = []byte{0x71, f.Invoke, 4}
	}
	if noreply {
		e.Reply = "unsent"
		return
	}
	if mut >= 0 {
		e.Mutated = true
		out = mutate(append([]byte{}, out...), newRng(uint64(mut)))
	}
	d.reply(e, from, out, slow)
}

// errPair is an error class and code: a common pair, any pair the standard
// names, or any pair there can be.
func (r *Rng) errPair() [2]uint32 {
	switch r.n(6) {
	case 0, 1:
		return [2]uint32{uint32(r.n(8)), uint32(r.n(137))}
	case 2:
		return [2]uint32{uint32(r.n(r.pick(9, 256, 65536))), uint32(r.n(r.pick(140, 300, 65536)))}
	}
	return errPairs[r.n(len(errPairs))]
}

var errPairs = [][2]uint32{{0, 0}, {0, 3}, {1, 31}, {2, 32}, {2, 40}, {2, 42}, {2, 27}, {2, 37}, {3, 18}, {5, 29}, {4, 26}, {7, 83}, {5, 53}, {2, 9}, {2, 50}}

func (d *device) reply(e *Exec, to Peer, apdu []byte, slow int64) {
	e.ReplyLen = len(apdu)
	hold := d.cfg.HoldUs*us + slow
	if hold == 0 {
		d.send(to, apdu, false, false, e)
		return
	}
	d.w.after(hold, func() { d.send(to, apdu, false, false, e) })
}

// peerRequest makes the device send a request of its own that happens to use
// the same invoke id as the client's outstanding one.
func (d *device) peerRequest(to Peer, invoke byte, kind int64) {
	var b []byte
	switch kind {
	case 0: // ReadProperty of the client's device object name
		b = []byte{0x00, 0x05, invoke, svcRP}
		b = putCtxOid(b, 0, Oid{typeDevice, 4194302})
		b = putCtxU(b, 1, propName)
	case 1: // ConfirmedCOVNotification
		b = []byte{0x00, 0x05, invoke, 1}
		b = putCtxU(b, 0, 1)
		b = putCtxOid(b, 1, d.cfg.ID)
		b = putCtxOid(b, 2, Oid{0, 1})
		b = putCtxU(b, 3, 60)
		b = putOpen(b, 4)
		b = putCtxU(b, 0, propPV)
		b = putOpen(b, 2)
		b = vReal(77).put(b)
		b = putClose(b, 2)
		b = putClose(b, 4)
	case 2: // WriteProperty
		b = []byte{0x00, 0x05, invoke, svcWP}
		b = putCtxOid(b, 0, Oid{2, 1})
		b = putCtxU(b, 1, propPV)
		b = putOpen(b, 3)
		b = vReal(55).put(b)
		b = putClose(b, 3)
	default: // TimeSynchronization-like unconfirmed noise plus a ReadPropertyMultiple
		b = []byte{0x00, 0x05, invoke, svcRPM}
		b = putCtxOid(b, 0, Oid{typeDevice, 4194302})
		b = putOpen(b, 1)
		b = putCtxU(b, 0, propName)
		b = putClose(b, 1)
	}
	d.w.probe("peer-request-same-invoke-id")
	d.send(to, b, false, true, "peer")
}

func mutate(b []byte, r *Rng) []byte {
	for k := r.rng(1, 4); k > 0 && len(b) > 0; k-- {
		switch r.n(7) {
		case 0:
			b = b[:r.n(len(b))]
		case 1, 2:
			b[r.n(len(b))] ^= 1 << r.n(8)
		case 3:
			b[r.n(len(b))] = byte(r.u64())
		case 4:
			b[r.n(len(b))] = byte(r.pick(0, 0xff, 0xfe, 0x7f, 0x75, 0x65, 0x2e, 0x2f, 0x3e, 0x3f, 0x1f, 0x4e, 0x5e, 0x85))
		case 5:
			i := r.n(len(b))
			b = append(b[:i:i], append([]byte{byte(r.u64())}, b[i:]...)...)
		default:
			i := r.n(len(b))
			j := i + r.n(len(b)-i+1)
			b = append(b[:i:i], b[j:]...)
		}
	}
	return b
}

// execute carries out a request and returns the reply APDU.
func (d *device) execute(e *Exec) []byte {
	w := d.w
	fail := func(class, code uint32) []byte {
		e.Reply, e.Class, e.Code = "error", class, code
		return errorAPDU(e.Invoke, e.Svc, class, code)
	}
	switch e.Svc {
	case svcRP:
		s := e.Specs[0]
		if isGroup(s.P[0].P) {
			return fail(2, 32)
		}
		s.O = d.resolve(s.O)
		v, cl, co := d.read(s.O, s.P[0])
		if cl >= 0 {
			return fail(uint32(cl), uint32(co))
		}
		e.Vals = [][]Val{v}
		e.Served = []Spec{s}
		e.Reply = "ack"
		w.logf("device %d serves %d,%d/%d: %v", d.cfg.ID.I, s.O.T, s.O.I, s.P[0].P, v)
		return rpAck(e.Invoke, s.O, s.P[0], v)
	case svcRPM:
		var objs []Oid
		var items [][]RpmItem
		for _, s := range e.Specs {
			s.O = d.resolve(s.O)
			objs = append(objs, s.O)
			var it []RpmItem
			sv := Spec{O: s.O}
			for _, p := range s.P {
				refs := []PropRef{p}
				if isGroup(p.P) {
					w.probe("properties-of-a-group")
					refs = d.group(s.O, p.P)
				}
				for _, q := range refs {
					v, cl, co := d.read(s.O, q)
					x := RpmItem{P: q, V: v}
					if cl >= 0 {
						x.Err, x.Class, x.Code = true, uint32(cl), uint32(co)
						e.Errs = append(e.Errs, [2]uint32{x.Class, x.Code})
					} else {
						e.Vals = append(e.Vals, v)
					}
					sv.P = append(sv.P, q)
					it = append(it, x)
				}
			}
			items = append(items, it)
			e.Served = append(e.Served, sv)
		}
		e.Reply = "ack"
		return rpmAck(e.Invoke, objs, items)
	case svcWP, svcWPM:
		for _, s := range e.Specs {
			for _, p := range s.P {
				if cl, co := d.write(s.O, p); cl >= 0 {
					w.logf("device %d refuses write %d,%d/%d: %d/%d", d.cfg.ID.I, s.O.T, s.O.I, p.P, cl, co)
					return fail(uint32(cl), uint32(co))
				}
				w.logf("device %d writes %d,%d/%d[%d]@%d = %v", d.cfg.ID.I, s.O.T, s.O.I, p.P, p.Idx, p.Pri, p.V)
			}
		}
		e.Reply = "ack"
		return []byte{0x20, e.Invoke, e.Svc}
	}
	e.Reply = "reject"
	return []byte{0x60, e.Invoke, 9}
}

var healthProp = Pr{P: propName, Nonce: true, V: []Val{{T: "uint"}}}

func (d *device) lookup(o Oid, p uint32) (pr *prop, class, code int) {
	if m, ok := d.objs[o]; ok {
		if pr, ok := m[p]; ok {
			return pr, -1, 0
		}
		return nil, 2, 32
	}
	if d.w.healthDevs && o.I >= opInst(10000, 0) {
		return &prop{def: &healthProp, v: healthProp.V}, -1, 0
	}
	if o.I >= virtBase && len(d.cfg.Virt) > 0 {
		for i := range d.cfg.Virt {
			if d.cfg.Virt[i].P == p {
				m := d.objs[o]
				if m == nil {
					m = map[uint32]*prop{}
				}
				return &prop{def: &d.cfg.Virt[i], v: d.cfg.Virt[i].V}, -1, 0
			}
		}
		return nil, 2, 32
	}
	return nil, 1, 31
}

const (
	propOptional = 80
	propRequired = 105
)

// isGroup: stands for properties the device chooses.
func isGroup(p uint32) bool { return p == propAll || p == propRequired || p == propOptional }

// resolve finds the device object under the instance that stands for any.
func (d *device) resolve(o Oid) Oid {
	if o == (Oid{typeDevice, 4194303}) {
		d.w.probe("device-object-by-wildcard")
		return d.cfg.ID
	}
	return o
}

// group lists the properties of an object that ALL, REQUIRED or OPTIONAL
// stands for: there may be none that are optional.
func (d *device) group(o Oid, p uint32) (out []PropRef) {
	var all []Pr
	for i := range d.cfg.Objs {
		if d.cfg.Objs[i].O == o {
			all = d.cfg.Objs[i].P
		}
	}
	if all == nil && o.I >= virtBase {
		n := len(d.cfg.Virt)
		for k := 0; k < n && k < 1+int(o.I)%6; k++ {
			all = append(all, d.cfg.Virt[(int(o.I)+k)%n])
		}
	}
	for i, x := range all {
		if p == propAll || (p == propRequired) == (i < (len(all)+1)/2) {
			out = append(out, PropRef{P: x.P, Idx: -1})
		}
	}
	if len(all) == 0 {
		out = []PropRef{{P: p, Idx: -1}}
	}
	return
}

// read returns the value of one property reference; class is -1 on success.
func (d *device) read(o Oid, p PropRef) (vs []Val, class, code int) {
	if o == d.cfg.ID && p.P == propObjectList {
		for _, x := range d.list {
			vs = append(vs, vOid(x))
		}
		if x := d.cfg.Odd; x != nil {
			if x.At > 0 && x.At <= int64(len(vs)) {
				vs[x.At-1] = x.V
			}
			if x.At == 0 && p.Idx == 0 {
				d.w.kinds["object-list-odd"]++
				return []Val{x.V}, -1, 0
			}
			if x.At > 0 && (p.Idx < 0 || p.Idx == x.At) {
				d.w.kinds["object-list-odd"]++
			}
		}
		return index(vs, true, p.Idx)
	}
	if p.P == propPrio {
		if pr, c, _ := d.lookup(o, propPV); c < 0 && pr.pa != nil {
			return index(append([]Val{}, pr.pa...), true, p.Idx)
		}
	}
	pr, cl, co := d.lookup(o, p.P)
	if cl >= 0 {
		return nil, cl, co
	}
	if pr.def.Err != nil {
		return nil, int(pr.def.Err[0]), int(pr.def.Err[1])
	}
	if pr.pa != nil {
		v := pr.v[0]
		for _, x := range pr.pa {
			if x.T != "null" {
				v = x
				break
			}
		}
		vs = []Val{v}
	} else if pr.def.Nonce {
		d.w.nonce++
		for i, t := range pr.v {
			vs = append(vs, nonceVal(t.T, d.w.nonce, uint32(i), t.U))
		}
	} else {
		vs = append(vs, pr.v...)
	}
	return index(vs, pr.def.Arr, p.Idx)
}

func index(vs []Val, arr bool, idx int64) ([]Val, int, int) {
	switch {
	case idx < 0:
		return vs, -1, 0
	case !arr:
		return nil, 2, 50
	case idx == 0:
		return []Val{vUint(uint32(len(vs)))}, -1, 0
	case idx > int64(len(vs)):
		return nil, 2, 42
	}
	return vs[idx-1 : idx], -1, 0
}

// write applies one property value; class is -1 on success.
func (d *device) write(o Oid, p PropRef) (class, code int) {
	pr, cl, co := d.lookup(o, p.P)
	if cl >= 0 {
		return cl, co
	}
	if pr.def.Err != nil {
		return int(pr.def.Err[0]), int(pr.def.Err[1])
	}
	if !pr.def.W {
		return 2, 40
	}
	if pr.pa != nil {
		if p.Idx >= 0 {
			return 2, 50
		}
		if len(p.V) != 1 || p.V[0].T != pr.v[0].T && p.V[0].T != "null" {
			return 2, 9
		}
		k := p.Pri
		if k == 0 {
			k = 16
		}
		if k == 6 {
			return 2, 40 // reserved for minimum on/off time
		}
		pr.pa[k-1] = p.V[0]
		return -1, 0
	}
	virt := o.I >= virtBase
	for _, v := range p.V {
		if !virt && len(pr.v) > 0 && v.T != pr.v[0].T {
			return 2, 9
		}
	}
	if p.Idx >= 0 {
		switch {
		case !pr.def.Arr:
			return 2, 50
		case p.Idx == 0:
			return 2, 40
		case p.Idx > int64(len(pr.v)):
			return 2, 42
		case len(p.V) != 1:
			return 2, 9
		}
		pr.v[p.Idx-1] = p.V[0]
		return -1, 0
	}
	if len(p.V) == 0 || !pr.def.Arr && len(p.V) != 1 {
		return 2, 9
	}
	pr.v = append([]Val{}, p.V...)
	return -1, 0
}

// nonceVal derives a value of type t that identifies one execution.
func nonceVal(t string, n, i uint32, extra uint64) Val {
	m := uint32(mix64(uint64(n)<<8 | uint64(i)))
	be := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), byte(i)}
	switch t {
	case "uint", "enum":
		switch m % 4 { // exercise every width
		case 0:
			return Val{T: t, U: uint64(n&0xfff<<20 | m>>12&0xff0ff | 1<<31)}
		case 1:
			return Val{T: t, U: uint64(n & 0xffffff)}
		}
		return Val{T: t, U: uint64(n)}
	case "int":
		x := int32(n)
		if m%2 == 0 {
			x = -x
		}
		if m%5 == 0 {
			x *= 4099
		}
		return vInt(x)
	case "real":
		return vReal(float32(n) + float32(i)/8)
	case "double":
		return vDouble(float64(n)*1.0000001 + float64(i))
	case "char", "ucs2":
		s := fmt.Sprintf("n%d.%d", n, i)
		if m%9 == 0 {
			s = string([]rune{[]rune{0xfeff, 0xfffe, 0, 0x1f600, ' ', 0x301}[m/9%6]}) + s
		}
		for uint64(len(s)) < extra {
			s += "abcdefghij"[:min(10, int(extra)-len(s))]
		}
		if t == "ucs2" {
			s += "é→"
		}
		return Val{T: t, S: s}
	case "octet":
		b := append([]byte{}, be...)
		for uint64(len(b)) < extra {
			b = append(b, byte(len(b)))
		}
		return Val{T: t, B: b}
	case "bits":
		unused := m % 8
		b := append([]byte{}, be...)
		b[4] = b[4] >> unused << unused
		return Val{T: t, U: uint64(unused), B: b}
	case "bool":
		return vBool(m&1 == 1)
	case "null":
		return vNull()
	case "date":
		b := []byte{byte(m % 255), byte(m>>8%12 + 1), byte(m>>16%28 + 1), byte(m>>24%7 + 1)}
		if m%7 == 0 {
			b[0] = 255
		}
		if m%11 == 0 {
			b[1], b[2] = 255, 255
		}
		return Val{T: t, B: b}
	case "time":
		return Val{T: t, B: []byte{byte(m % 24), byte(m >> 8 % 60), byte(m >> 16 % 60), byte(m >> 24 % 100)}}
	case "oid":
		return vOid(Oid{m % 1024, n & 0x3fffff})
	case "dt":
		return Val{T: t, B: append(nonceVal("date", n, i, 0).B, nonceVal("time", n, i, 0).B...)}
	}
	panic("harness: nonce type " + t)
}

var _ = math.Pi
