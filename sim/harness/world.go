//go:build go1.23

package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"net"
	"os"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

const (
	ms  = int64(time.Millisecond)
	us  = int64(time.Microsecond)
	sec = int64(time.Second)
)

var clientIP = [4]byte{10, 0, 0, 100}

// World is the simulated environment of one run. Harness code runs without
// preemption between blocking operations, so it needs no locks.
type World struct {
	shutAt int64   // when the harness itself closed the client
	strict bool    // Job.Strict
	bcast  [4]byte // broadcast address of the subnet
	plan   *Plan
	replay bool
	t0     int64

	socks  []*sock
	hosts  []*host
	lan    map[Peer]*host
	nonce  uint32
	nonces map[uint32]*Exec

	flowN  map[string]int
	names  map[string]string
	listed map[string][]Fault
	fired  []Fault
	kinds  map[string]int
	probes map[string]int

	trace      []string
	traceH     uint64
	keep       bool
	viols      []Viol
	frames     []*TxFrame
	execs      []*Exec
	rx         []*RxFrame
	ops        []*OpRec
	rxCalls    int
	faultEnd   int64
	seq        int64 // counts events whose order matters
	quiet      bool  // no more faults
	sendHook   func(p Peer, b []byte)
	unmapped   []*TxFrame
	stream     bool
	hist       uint64 // fingerprint of the history, where a driver of its own makes it
	healthDevs bool
	heardN     int
	heardIDs   map[string]bool
}

// TxFrame is a datagram the client sent.
type TxFrame struct {
	T    int64
	N    int
	Dst  Peer
	Raw  []byte
	F    *Frame
	Err  error
	Goid uint32
	Fail bool // the send itself failed
	Sock *sock
}

// RxFrame is a datagram handed to the client.
type RxFrame struct {
	T    int64
	From Peer
	Raw  []byte
	Tag  any
	N    int // bytes that fitted the caller's buffer
}

// Exec is one request carried out (or answered) by a device.
type Exec struct {
	T        int64
	Host     int
	Inst     uint32
	Tx       *TxFrame
	Svc      byte
	Invoke   byte
	Specs    []Spec
	Vals     [][]Val // one per property reference, for reads
	Reply    string  // ack, error, reject, abort, none
	Class    uint32
	Code     uint32
	Again    bool // retransmission answered from the device's cache
	First    *Exec
	AckKind  string // the device's own verdict, kept for retransmissions
	Served   []Spec // property references as answered
	Errs     [][2]uint32
	Mutated  bool
	ReplyLen int
	RxAt     []int64
}

func newWorld(p *Plan) *World {
	w := &World{plan: p, heardIDs: map[string]bool{}, lan: map[Peer]*host{}, names: map[string]string{}, flowN: map[string]int{}, kinds: map[string]int{},
		probes: map[string]int{}, nonces: map[uint32]*Exec{}, listed: map[string][]Fault{}, traceH: 1469598103934665603}
	w.bcast = p.broadcastIP()
	w.faultEnd = p.Net.UntilMs * ms
	for i := range p.Hosts {
		h := &host{w: w, i: i, cfg: &p.Hosts[i], peer: Peer{p.Hosts[i].IP, p.Hosts[i].Port}}
		h.init()
		w.hosts = append(w.hosts, h)
		w.lan[h.peer] = h
	}
	return w
}

func (w *World) now() int64 { return runtime.SimNow() - w.t0 }

func (w *World) logf(f string, a ...any) {
	s := fmt.Sprintf("%12.6fms ", float64(w.now())/float64(ms)) + fmt.Sprintf(f, a...)
	for i := 0; i < len(s); i++ {
		w.traceH = (w.traceH ^ uint64(s[i])) * 1099511628211
	}
	if len(w.trace) < 4000 {
		w.trace = append(w.trace, s)
	}
}

func (w *World) viol(prop, sig, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	w.logf("VIOLATION %s %s: %s", prop, sig, m)
	w.viols = append(w.viols, Viol{prop, sig, m})
}

// stall is the total time injected into goroutines of the code under test.
func (w *World) stall() int64 { return runtime.SimGetStats().StallNs }

func (w *World) probe(name string) { w.probes[name]++ }

// faults returns what goes wrong at the next event of a flow.
func (w *World) faults(flow string, draw func(r *Rng, add func(k string, v int64))) []Fault {
	n := w.flowN[flow]
	w.flowN[flow] = n + 1
	var fs []Fault
	if w.quiet {
		return nil
	}
	if w.replay {
		for _, f := range w.listed[flow] {
			if f.N == n {
				fs = append(fs, f)
			}
		}
	} else {
		if w.faultEnd > 0 && w.now() >= w.faultEnd {
			return nil
		}
		r := newRng(w.plan.Seed, hashStr(flow), uint64(n))
		draw(r, func(k string, v int64) { fs = append(fs, Fault{flow, n, k, v}) })
	}
	for _, f := range fs {
		w.fired = append(w.fired, Fault{w.intern(f.F), f.N, f.K, f.V})
		w.kinds[f.K]++
		w.logf("fault %s#%d %s %d", f.F, f.N, f.K, f.V)
		if w.stream {
			b, _ := json.Marshal(f)
			b = append(append([]byte("fault "), b...), '\n')
			syscall.RawSyscall(syscall.SYS_WRITE, 1, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
		}
	}
	return fs
}

// listenHere makes the sockets of the code under test sockets of this world.
func (w *World) listenHere() {
	net.SimListen = w.listen
	net.SimIfs = func() []net.SimIf {
		up := net.FlagUp | net.FlagBroadcast | net.FlagMulticast
		v6 := func(s string) net.Addr { return &net.IPNet{IP: net.ParseIP(s), Mask: net.CIDRMask(64, 128)} }
		v4 := func(ip net.IP, bits int) net.Addr { return &net.IPNet{IP: ip, Mask: net.CIDRMask(bits, 32)} }
		return []net.SimIf{
			{net.Interface{Index: 1, MTU: 65536, Name: "lo", Flags: net.FlagUp | net.FlagLoopback}, []net.Addr{v4(net.IPv4(127, 0, 0, 1), 8)}},
			{net.Interface{Index: 2, MTU: 1500, Name: "sim6", Flags: up}, []net.Addr{v6("fe80::1:2")}},
			{net.Interface{Index: 3, MTU: 1500, Name: "sim0", Flags: up}, []net.Addr{v6("fe80::1:1"), v4(net.IPv4(10, 0, 0, 100), w.plan.bits()), v4(net.IPv4(192, 168, 7, 5), 28)}},
			{net.Interface{Index: 4, MTU: 1500, Name: "sim1", Flags: up}, []net.Addr{v4(net.IPv4(192, 168, 8, 5), 24)}},
			{net.Interface{Index: 5, MTU: 1500, Name: "down0"}, nil},
		}
	}
}

// bits is the length of the subnet mask.
func (p *Plan) bits() int {
	if v := p.Cfg["cidr"]; v != 0 {
		return int(v)
	}
	return 24
}

// iface is what the client is asked to use: an interface or an address.
func (p *Plan) iface() string {
	if p.Cfg["ifname"] != 0 {
		return "sim0"
	}
	return fmt.Sprintf("10.0.0.100/%d", p.bits())
}

// broadcastIP is the address of local broadcasts.
func (p *Plan) broadcastIP() [4]byte {
	ip := uint32(10)<<24 | 100 | (1<<(32-p.bits()) - 1)
	return [4]byte{byte(ip >> 24), byte(ip >> 16), byte(ip >> 8), byte(ip)}
}

func (w *World) after(d int64, f func()) {
	if d < 0 {
		d = 0
	}
	time.AfterFunc(time.Duration(d), f)
}

// intern keeps one copy of every flow's name.
func (w *World) intern(s string) string {
	if t, ok := w.names[s]; ok {
		return t
	}
	w.names[s] = s
	return s
}

func (w *World) inWin(kind string, h int, t int64) bool {
	for _, x := range w.plan.Win {
		if x.Kind == kind && x.Host == h && t >= x.From*ms && t < x.To*ms {
			return true
		}
	}
	return false
}

// travel carries one datagram across the network, subject to faults.
func (w *World) travel(flow string, h int, base int64, deliver func(copy int)) {
	c := &w.plan.Net
	fs := w.faults(flow, func(r *Rng, add func(string, int64)) {
		if r.pm(c.Loss) {
			add("loss", 0)
		}
		if r.pm(c.Dup) {
			d := int64(r.n(int(c.DelayMaxUs)+1)) * us
			if r.one(4) {
				d = 0
			}
			add("dup", d)
			if r.one(4) {
				add("dup", d+int64(r.n(2000))*us)
			}
		}
		if r.pm(c.Delay) && c.DelayMaxUs > 0 {
			add("delay", int64(r.n(int(c.DelayMaxUs)+1))*us)
		}
		if r.pm(c.Late) {
			add("late", int64(r.rng(4500, 12000))*ms)
		}
	})
	if h >= 0 && w.inWin("partition", h, w.now()) {
		w.kinds["partition-drop"]++
		w.logf("partitioned %s", flow)
		return
	}
	d := base
	for _, f := range fs {
		switch f.K {
		case "loss":
			return
		case "delay", "late":
			d += f.V
		}
	}
	w.after(d, func() { deliver(0) })
	n := 1
	for _, f := range fs {
		if f.K == "dup" {
			k := n
			w.after(d+f.V, func() { deliver(k) })
			n++
		}
	}
}

// ---- the client's socket

type rxItem struct {
	from Peer
	b    []byte
	tag  any
}

type sock struct {
	w      *World
	i      int
	ip     [4]byte
	wild   bool
	port   int
	q      []rxItem
	wait   []chan struct{}
	closed bool
	rdl    int64 // read deadline, monotonic
	rdlGen int
}

func (w *World) listen(network string, ip net.IP, port int) (net.SimConn, int, error) {
	s := &sock{w: w, i: len(w.socks), port: port, ip: clientIP}
	if v := ip.To4(); v != nil && !ip.IsUnspecified() {
		copy(s.ip[:], v)
		if s.ip != clientIP {
			return nil, 0, os.NewSyscallError("bind", syscall.EADDRNOTAVAIL)
		}
	} else {
		s.wild = true
	}
	if s.port == 0 {
		s.port = 40000 + len(w.socks)
	}
	for _, o := range w.socks {
		if !o.closed && o.port == s.port {
			w.logf("listen %d: in use", s.port)
			return nil, 0, os.NewSyscallError("bind", syscall.EADDRINUSE)
		}
	}
	w.socks = append(w.socks, s)
	w.logf("listen #%d port %d", s.i, s.port)
	return s, s.port, nil
}

var recvErrs = []syscall.Errno{syscall.ECONNREFUSED, syscall.ENOBUFS, syscall.ENOMEM, syscall.EHOSTUNREACH, syscall.ENETDOWN, syscall.EINTR}
var sendErrs = []syscall.Errno{syscall.ENOBUFS, syscall.ENETUNREACH, syscall.EHOSTUNREACH, syscall.EPERM, syscall.ENETDOWN, syscall.ECONNREFUSED}

func (s *sock) Recv(p []byte) (int, [4]byte, int, error) {
	w := s.w
	w.rxCalls++
	fs := w.faults("rx", func(r *Rng, add func(string, int64)) {
		if r.pm(w.plan.Net.RecvErr) {
			add("recv-error", int64(recvErrs[r.n(len(recvErrs))]))
		}
	})
	if len(fs) > 0 && !s.closed {
		return 0, [4]byte{}, 0, syscall.Errno(fs[0].V)
	}
	if !s.closed && w.inWin("rx-down", 0, w.now()) {
		w.kinds["rx-down"]++
		return 0, [4]byte{}, 0, syscall.ENETDOWN
	}
	for {
		if s.closed {
			return 0, [4]byte{}, 0, net.ErrClosed
		}
		if s.rdl != 0 && w.now() >= s.rdl {
			return 0, [4]byte{}, 0, os.ErrDeadlineExceeded
		}
		if len(s.q) > 0 {
			it := s.q[0]
			s.q = s.q[1:]
			n := copy(p, it.b)
			r := &RxFrame{T: w.now(), From: it.from, Raw: it.b, Tag: it.tag, N: n}
			w.rx = append(w.rx, r)
			if e, ok := it.tag.(*Exec); ok {
				e.RxAt = append(e.RxAt, w.now())
			}
			w.logf("rx %v %d/%d %s", it.from, n, len(it.b), hexShort(it.b))
			runtime.SimProgress()
			return n, it.from.IP, it.from.Port, nil
		}
		ch := make(chan struct{})
		s.wait = append(s.wait, ch)
		<-ch
	}
}

func (s *sock) wake(all bool) {
	for len(s.wait) > 0 {
		close(s.wait[0])
		s.wait = s.wait[1:]
		if !all {
			return
		}
	}
}

func (s *sock) push(it rxItem) {
	if s.closed {
		return
	}
	if len(s.q) >= 4096 {
		s.w.kinds["rx-overflow"]++
		return
	}
	s.q = append(s.q, it)
	s.wake(false)
}

func (s *sock) SetDeadline(read, write bool, t time.Time) error {
	if s.closed {
		return net.ErrClosed
	}
	if read {
		s.rdl = 0
		s.rdlGen++
		g := s.rdlGen
		if !t.IsZero() {
			d := time.Until(t)
			s.rdl = max(1, s.w.now()+int64(d))
			if d <= 0 {
				s.wake(true)
			} else {
				time.AfterFunc(d, func() {
					if s.rdlGen == g {
						s.wake(true)
					}
				})
			}
		}
	}
	return nil
}

func (s *sock) Close() error {
	if s.closed {
		return net.ErrClosed
	}
	s.closed = true
	s.w.logf("close #%d", s.i)
	s.wake(true)
	return nil
}

func hexShort(b []byte) string {
	if len(b) > 80 {
		return hex.EncodeToString(b[:80]) + "..."
	}
	return hex.EncodeToString(b)
}

func (s *sock) SendTo(p []byte, ip [4]byte, port int) (int, error) {
	w := s.w
	b := append([]byte{}, p...)
	dst := Peer{ip, port}
	fs := w.faults("tx", func(r *Rng, add func(string, int64)) {
		if r.pm(w.plan.Net.SendErr) {
			add("send-error", int64(sendErrs[r.n(len(sendErrs))]))
		} else if r.pm(w.plan.Net.SendSlow) {
			add("send-slow", int64(r.rng(1, 800))*ms)
		}
	})
	for _, f := range fs {
		if f.K == "send-slow" {
			time.Sleep(time.Duration(f.V))
		}
	}
	if s.closed {
		return 0, net.ErrClosed
	}
	if w.inWin("net-down", 0, w.now()) {
		w.kinds["net-down"]++
		fs = append(fs, Fault{K: "send-error", V: int64(syscall.ENETDOWN)})
	}
	t := &TxFrame{T: w.now(), N: len(w.frames), Dst: dst, Raw: b, Goid: runtime.SimGoid(), Sock: s}
	t.F, t.Err = parseFrame(b)
	w.frames = append(w.frames, t)
	for _, f := range fs {
		if f.K == "send-error" {
			t.Fail = true
			w.logf("tx %v fails errno %d: %s", dst, f.V, hexShort(b))
			return 0, syscall.Errno(f.V)
		}
	}
	w.logf("tx %v %s", dst, hexShort(b))
	if w.sendHook != nil {
		w.sendHook(dst, b)
	}
	from := Peer{s.ip, s.port}
	if ip == w.bcast || ip == [4]byte{255, 255, 255, 255} {
		for _, h := range w.hosts {
			if h.onLAN() && h.peer.Port == port {
				h := h
				w.travel("c>"+h.peer.String(), h.i, h.cfg.DelayUs*us, func(int) { h.receive(t, from, true) })
			}
		}
		for _, o := range w.socks { // broadcasts loop back to wildcard sockets
			if !o.closed && o.wild && o.port == port {
				o := o
				w.after(0, func() { o.push(rxItem{from, b, nil}) })
			}
		}
	} else if h := w.lan[dst]; h != nil {
		w.travel("c>"+h.peer.String(), h.i, h.cfg.DelayUs*us, func(int) { h.receive(t, from, false) })
	} else {
		w.logf("no host %v", dst)
	}
	return len(p), nil
}

// toClient sends a datagram from a host to the client's socket.
func (w *World) toClient(h *host, to Peer, b []byte, tag any) {
	w.travel("h>"+h.peer.String(), h.i, h.cfg.DelayUs*us, func(cp int) {
		x := b
		for _, s := range w.socks {
			if !s.closed && s.port == to.Port {
				s.push(rxItem{h.peer, x, tag})
				return
			}
		}
	})
}

// inject delivers the plan's unsolicited datagrams.
func (w *World) startInject() {
	for _, j := range w.plan.Inj {
		j := j
		b, err := hex.DecodeString(j.Hex)
		if err != nil {
			panic("harness: bad hex")
		}
		w.kinds["injected-datagram"]++
		w.after(j.AtUs*us, func() {
			for _, s := range w.socks {
				if !s.closed {
					s.push(rxItem{Peer{j.IP, j.Port}, b, "inject"})
				}
			}
		})
	}
}

func (w *World) summary() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d hosts, %d ops, %d frames sent, %d received, %d device executions", len(w.hosts), len(w.ops), len(w.frames), len(w.rx), len(w.execs))
	for _, k := range sortedKeys(w.kinds) {
		fmt.Fprintf(&b, ", %s=%d", k, w.kinds[k])
	}
	return b.String()
}

// histHash fingerprints the history at the level of the property: which
// calls overlapped and what each returned.
func (w *World) histHash() uint64 {
	if w.hist != 0 {
		return w.hist
	}
	h := fnv.New64a()
	type ev struct {
		t int64
		s string
	}
	var es []ev
	for _, o := range w.ops {
		es = append(es, ev{o.T0, fmt.Sprintf("+%d", o.Op.ID)}, ev{o.T1, fmt.Sprintf("-%d %v", o.Op.ID, o.Err != "")})
	}
	for _, e := range w.execs {
		es = append(es, ev{e.T, fmt.Sprintf("x%d.%d.%d.%s", e.Inst, e.Svc, e.Invoke, e.Reply)})
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].t < es[j].t })
	for _, e := range es {
		h.Write([]byte(e.s))
	}
	return h.Sum64()
}
