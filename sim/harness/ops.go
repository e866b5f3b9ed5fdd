//go:build go1.23

package main

import (
	"fmt"
	"io"
	stdlog "log"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"time"

	"github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/priority"
	"github.com/NubeDev/bacnet/network"
	"github.com/sirupsen/logrus"
)

// OpRec is the record of one client call.
type OpRec struct {
	Op      *Op
	T0, T1  int64
	Q0, Q1  int64 // their order among all calls and returns
	Done    bool
	Skip    bool
	Failed  bool
	Err     string
	Panic   string
	Goid    uint32
	F0, F1  int    // the frames sent while it was running
	Changed string // an argument the call modified

	Bad                    bool // client was closed or not yet created
	PD                     btypes.PropertyData
	MPD                    btypes.MultiplePropertyData
	Devs                   []btypes.Device
	Nets                   []uint16
	NilRes                 bool
	Dev                    btypes.Device
	F                      float32
	U                      uint32
	S                      string
	Pri                    *priority.Float32
	OIDs                   []btypes.ObjectID
	Points                 []*network.PointDetails
	Det                    *network.DeviceDetails
	NDevs                  []network.Device
	Ptr                    string
	MaxA, MaxA0, Seg, Seg0 uint32 // capabilities in the device handle after and before
	TL, QL                 int64  // when the look-up itself returned
	Net                    *network.Network
	Tgt                    *device
	StallA                 int64 // stall time injected so far when the call began
	StallB                 int64
	Raw                    any    // the addresses routers announced
	Own                    []any  // the caller's results, where it overwrites them
	Dump                   string // what the call returned, at the time
}

// Env is the code under test plus what the calls share.
type Env struct {
	w      *World
	cli    bacnet.Client
	net    *network.Network
	store  *network.Store
	ndevs  map[string]*network.Device
	found  map[uint32]btypes.Device
	runs   int // ClientRun loops started
	ended  int // and finished
	panics []string
	base0  int                // goroutines of the run before anything was made
	nets   []*network.Network // further networks that were looked up, and are served
	held   []heldDev          // devices made or looked up, as they were then

	healthOp int // health checks made
	shared   map[string]any
}

func silence() {
	logrus.SetOutput(io.Discard)
	stdlog.SetOutput(io.Discard)
}

func (x *Env) guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			x.panics = append(x.panics, fmt.Sprintf("%s: %v\n%s", what, r, st))
			x.w.logf("PANIC in %s: %v", what, r)
		}
	}()
	f()
}

func (x *Env) newClient() error {
	p := x.w.plan
	cb := &bacnet.ClientBuilder{Interface: p.iface(), Port: int(p.Cfg["port"])}
	if p.Cfg["byip"] != 0 {
		cb.Interface, cb.Ip, cb.SubnetCIDR = "", "10.0.0.100", p.bits()
	}
	if v := p.Cfg["maxpdu"]; v != 0 {
		cb.MaxPDU = uint16(v)
	}
	c, err := bacnet.NewClient(cb)
	if err != nil {
		return err
	}
	x.cli = c
	return nil
}

func (x *Env) newNetwork() error {
	x.store = network.NewStore()
	n := &network.Network{Interface: x.w.plan.iface(), Port: int(x.w.plan.Cfg["port"]), StoreID: "net", Store: x.store}
	if x.w.plan.Cfg["byip"] != 0 {
		n.Interface, n.Ip, n.SubnetCIDR = "", "10.0.0.100", x.w.plan.bits()
	}
	r, err := network.New(n)
	if err != nil {
		return err
	}
	x.net = r
	return nil
}

func (x *Env) runLoop() {
	x.runs++
	go func() {
		defer func() { x.ended++ }()
		if x.net != nil {
			x.net.NetworkRun()
		} else {
			x.cli.ClientRun()
		}
	}()
}

// deviceOf finds the simulated device an operation talks to.
func (w *World) deviceOf(o *Op) *device {
	if o.Host < 0 || o.Host >= len(w.hosts) {
		return nil
	}
	h := w.hosts[o.Host]
	if o.Net == 0 {
		return h.dev
	}
	for _, n := range h.nets {
		if n.num == o.Net {
			for _, d := range n.devs {
				if string(d.na.Adr) == string(o.Mac) {
					return d
				}
			}
		}
	}
	return nil
}

func (x *Env) target(o *Op, d *device) (btypes.Device, bool) {
	h := x.w.hosts[o.Host]
	maxA := o.MaxA
	if maxA == 0 {
		maxA = d.cfg.MaxApdu
	}
	if maxA == 1 { // explicit zero
		maxA = 0
	}
	id := btypes.ObjectID{Type: btypes.DeviceType, Instance: btypes.ObjectInstance(d.cfg.ID.I)}
	switch o.Build {
	case "newdev", "newdevid":
		c := &btypes.Device{Ip: h.peer.ipString(), Port: h.port(o), DeviceID: int(d.cfg.ID.I), NetworkNumber: int(o.Net), MaxApdu: maxA}
		if o.Build == "newdevid" {
			c.ID = id
		}
		if len(o.Mac) > 0 {
			c.MacMSTP = int(o.Mac[0])
		}
		dev, err := btypes.NewDevice(c)
		if err != nil || dev == nil {
			x.w.viol("C11", "newdevice", "NewDevice for %v failed: %v", h.peer, err)
			return btypes.Device{}, false
		}
		return *dev, true
	case "whois":
		dev, ok := x.found[d.cfg.ID.I]
		return dev, ok
	}
	dev := btypes.Device{ID: id, DeviceID: int(d.cfg.ID.I), MaxApdu: maxA,
		Addr: btypes.Address{Net: o.Net, Mac: h.peer.mac(), MacLen: 6, Adr: append([]byte{}, o.Mac...)}}
	if o.Build != "nolen" {
		dev.Addr.Len = uint8(len(o.Mac))
	}
	if len(o.Mac) == 0 {
		dev.Addr.Adr = nil
	}
	return dev, true
}

func toProp(p PropRef, write bool) btypes.Property {
	q := btypes.Property{Type: btypes.PropertyType(p.P), ArrayIndex: btypes.ArrayAll, Priority: btypes.NPDUPriority(p.Pri)}
	if p.Idx >= 0 {
		q.ArrayIndex = uint32(p.Idx)
	}
	if write && len(p.V) > 0 {
		q.Data = p.V[0].goval()
	}
	return q
}

func toObject(s Spec, write bool) btypes.Object {
	o := btypes.Object{ID: btypes.ObjectID{Type: btypes.ObjectType(s.O.T), Instance: btypes.ObjectInstance(s.O.I)}}
	for _, p := range s.P {
		o.Properties = append(o.Properties, toProp(p, write))
	}
	return o
}

func toMulti(ss []Spec, write bool) (m btypes.MultiplePropertyData) {
	for _, s := range ss {
		m.Objects = append(m.Objects, toObject(s, write))
	}
	return
}

func copyAddr(a btypes.Address) btypes.Address {
	a.Mac = append([]byte(nil), a.Mac...)
	a.Adr = append([]byte(nil), a.Adr...)
	return a
}

func copyDev(d btypes.Device) btypes.Device {
	d.Addr = copyAddr(d.Addr)
	return d
}

// ndev returns the network-package device for an operation's target.
// port is what a caller gives as the port of a device: the default one may be left out.
func (h *host) port(o *Op) int {
	if h.peer.Port == 47808 && o.ID%3 == 1 {
		return 0
	}
	return h.peer.Port
}

func (x *Env) ndev(o *Op, d *device) *network.Device {
	k := fmt.Sprint(d.cfg.ID.I)
	if o.Str == "own" {
		k = fmt.Sprintf("%s/%d", k, o.ID)
	}
	if n := x.ndevs[k]; n != nil {
		return n
	}
	h := x.w.hosts[o.Host]
	c := &network.Device{Ip: h.peer.ipString(), Port: h.port(o), DeviceID: int(d.cfg.ID.I), NetworkNumber: int(o.Net),
		MaxApdu: d.cfg.MaxApdu, Segmentation: d.cfg.Seg, StoreID: "dev" + k}
	if len(o.Mac) > 0 {
		c.MacMSTP = int(o.Mac[0])
	}
	n, err := network.NewDevice(x.net, c)
	if err != nil || n == nil {
		x.w.viol("C11", "network-newdevice", "network.NewDevice for %v failed: %v", h.peer, err)
		return nil
	}
	x.ndevs[k] = n
	return n
}

func (x *Env) op(o *Op) {
	w := x.w
	r := &OpRec{Op: o, Goid: runtime.SimGoid(), F0: 1 << 30, F1: 1 << 30}
	w.ops = append(w.ops, r)
	if o.AtUs > 0 {
		time.Sleep(time.Duration(o.AtUs * us))
	}
	var dev btypes.Device
	var nd *network.Device
	if needsDevice(o.Kind) {
		r.Tgt = w.deviceOf(o)
		if r.Tgt == nil {
			r.Skip, r.Done = true, true
			return
		}
		if strings.HasPrefix(o.Kind, "n.") {
			if o.Kind == "n.supd" || o.Kind == "n.snew" {
			} else if nd = x.ndev(o, r.Tgt); nd == nil {
				r.Skip, r.Done = true, true
				return
			}
		} else {
			var ok bool
			if dev, ok = x.sharedTarget(o, r.Tgt); !ok {
				r.Skip, r.Done = true, true
				return
			}
		}
	}
	r.T0, r.F0 = w.now(), len(w.frames)
	w.seq++
	r.Q0 = w.seq
	r.StallA = runtime.SimGetStats().StallNs
	w.logf("op %d %s starts", o.ID, o.Kind)
	defer func() {
		r.T1, r.F1 = w.now(), len(w.frames)
		w.seq++
		r.Q1 = w.seq
		r.StallB = runtime.SimGetStats().StallNs
		r.Done = true
		if w.plan.Cfg["scribble"] != 0 {
			r.scribble()
			w.probe("results-overwritten-by-caller")
		}
		r.Dump = r.results()
		if p := recover(); p != nil {
			st := string(debug.Stack())
			r.Panic = fmt.Sprintf("%v\n%s", p, st)
			x.panics = append(x.panics, fmt.Sprintf("op %d %s: %v\n%s", o.ID, o.Kind, p, st))
			w.logf("op %d %s PANICS: %v", o.ID, o.Kind, p)
		}
		w.logf("op %d %s ends: %s", o.ID, o.Kind, r.Err)
		runtime.SimProgress()
	}()
	set := func(err error) {
		if err != nil {
			r.Failed = true
			r.Err = err.Error()
			if r.Err == "" {
				r.Err = "(empty error)"
			}
		}
	}
	keep := func(what string, same bool) {
		if !same {
			r.Changed = what
		}
	}
	cli := x.cli
	devWas := dump(copyDev(dev))
	defer func() { keep("device", dump(dev) == devWas) }()
	switch o.Kind {
	case "rp":
		a := btypes.PropertyData{Object: toObject(o.S[0], false)}
		b := btypes.PropertyData{Object: toObject(o.S[0], false)}
		pd, err := cli.ReadProperty(dev, a)
		r.PD = pd
		set(err)
		keep("request", same(a, b))
	case "rpm":
		a, b := toMulti(o.S, false), toMulti(o.S, false)
		pd, err := cli.ReadMultiProperty(dev, a)
		r.MPD = pd
		set(err)
		keep("request", same(a, b))
	case "wp":
		a := btypes.PropertyData{Object: toObject(o.S[0], true)}
		b := btypes.PropertyData{Object: toObject(o.S[0], true)}
		set(cli.WriteProperty(dev, a))
		keep("request", sameNaN(a, b))
	case "wpm":
		a, b := toMulti(o.S, true), toMulti(o.S, true)
		set(cli.WriteMultiProperty(dev, a))
		keep("request", sameNaN(a, b))
	case "whois", "n.whois", "n.disc":
		a, b := x.sharedOpts(o), *whoIsOpts(o)
		var ds []btypes.Device
		var err error
		switch o.Kind {
		case "whois":
			ds, err = cli.WhoIs(a)
		case "n.whois":
			ds, err = x.net.Whois(a)
		case "n.disc":
			ds, err = x.net.NetworkDiscover(a)
		}
		r.Devs = ds
		set(err)
		keep("options", *a == b)
		for _, d := range ds {
			x.found[uint32(d.ID.Instance)] = copyDev(d)
		}
	case "router":
		l := cli.WhoIsRouterToNetwork()
		if l == nil {
			r.NilRes = true
		} else {
			for _, a := range *l {
				r.Nets = append(r.Nets, a.Net)
			}
			r.Raw = *l
		}
	case "netnum":
		l := cli.WhatIsNetworkNumber()
		r.Raw = l
		for _, a := range l {
			if a == nil {
				r.NilRes = true
				continue
			}
			r.Nets = append(r.Nets, a.Net)
		}
	case "iam":
		set(cli.IAm(x.iamDest(o), btypes.IAm{
			ID:      btypes.ObjectID{Type: btypes.ObjectType(o.IAm.ID.T), Instance: btypes.ObjectInstance(o.IAm.ID.I)},
			MaxApdu: o.IAm.MaxApdu, Segmentation: btypes.Enumerated(o.IAm.Seg), Vendor: o.IAm.Vendor}))
	case "objects":
		d, err := cli.Objects(dev)
		r.Dev = d
		set(err)
	case "close":
		set(cli.ClientClose(o.A != 0))
	case "close2":
		set(cli.Close())
	case "run":
		x.runLoop()
	case "new":
		set(x.newClient())
	case "inject":
		// handled by the network
	case "sleep":
		time.Sleep(time.Duration(o.A * ms))
	case "n.close":
		set(x.net.NetworkClose(o.A != 0))
	default:
		x.netOp(o, r, nd, set)
	}
}

// someNet is the network a device is registered on.
func (x *Env) someNet(o *Op) *network.Network {
	if k := int(o.C) % (len(x.nets) + 1); k > 0 {
		return x.nets[k-1]
	}
	return x.net
}

// portOf is the port a network sends from.
func (x *Env) portOf(n *network.Network) int {
	if n == x.net {
		return x.w.socks[0].port
	}
	return n.Port
}

func sameBytes(a, b []byte) bool { return string(a) == string(b) }

// sameNaN is DeepEqual on the printed form, so that NaN equals itself.
func sameNaN(a, b interface{}) bool { return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) }

func needsDevice(kind string) bool {
	switch kind {
	case "rp", "rpm", "wp", "wpm", "objects":
		return true
	case "n.whois", "n.disc", "n.close", "n.snet", "n.sgetnet", "n.sgetdev", "sleep":
		return false
	}
	return strings.HasPrefix(kind, "n.")
}

// netAddr is the address of the further network on a port.
func netAddr(port int64) (inf, ip string, bits int) {
	switch port % 3 {
	case 0:
		return "10.0.0.100/24", "", 24
	case 1:
		return "", "10.0.0.100", 20
	}
	return "sim0", "", 22
}

// iamDest builds the destination of an I-Am: unicast, local, remote or global broadcast.
func (x *Env) iamDest(o *Op) btypes.Address {
	b := x.w.bcast
	bc := []byte{b[0], b[1], b[2], b[3], 0xba, 0xc0}
	switch o.Str {
	case "local":
		return btypes.Address{Mac: bc}
	case "global":
		return btypes.Address{Net: btypes.GlobalBroadcast, Mac: bc}
	case "remote":
		return btypes.Address{Net: o.Net, Mac: bc}
	case "routed":
		return btypes.Address{Net: o.Net, Mac: x.w.hosts[o.Host].peer.mac(), MacLen: 6, Adr: append([]byte{}, o.Mac...), Len: uint8(len(o.Mac) * int(1-o.C))}
	}
	return btypes.Address{Mac: x.w.hosts[o.Host].peer.mac(), MacLen: 6}
}

func (x *Env) netOp(o *Op, r *OpRec, d *network.Device, set func(error)) {
	pnt := &network.Point{}
	if len(o.S) > 0 {
		pnt.ObjectID = btypes.ObjectInstance(o.S[0].O.I)
		pnt.ObjectType = btypes.ObjectType(o.S[0].O.T)
		if len(o.S[0].P) > 0 {
			pnt.WritePriority = uint8(o.S[0].P[0].Pri)
		}
	}
	pc := *pnt
	devID := btypes.ObjectInstance(0)
	if r.Tgt != nil {
		devID = btypes.ObjectInstance(r.Tgt.cfg.ID.I)
	}
	var err error
	switch o.Kind {
	case "n.read", "n.rstr":
		obj := &network.Object{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: btypes.PropertyType(o.S[0].P[0].P), ArrayIndex: btypes.ArrayAll}
		if i := o.S[0].P[0].Idx; i >= 0 {
			obj.ArrayIndex = uint32(i)
		}
		oc := *obj
		if o.Kind == "n.rstr" {
			r.S, err = d.ReadString(obj)
		} else {
			r.PD, err = d.Read(obj)
		}
		if *obj != oc {
			r.Changed = "object"
		}
	case "n.write":
		v := o.S[0].P[0].V[0]
		wr := &network.Write{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: btypes.PropertyType(o.S[0].P[0].P), WritePriority: pnt.WritePriority}
		if v.T == "null" {
			wr.WriteNull = true
		} else {
			wr.WriteValue = v.goval()
		}
		err = d.Write(wr)
	case "n.pwa":
		err = d.PointWriteAnalogue(pnt, o.S[0].P[0].V[0].goval().(float32))
	case "n.pwb":
		err = d.PointWriteBool(pnt, uint32(o.S[0].P[0].V[0].U))
	case "n.pwm":
		err = d.PointWriteMultiState(pnt, uint32(o.S[0].P[0].V[0].U))
	case "n.prel":
		err = d.PointReleasePriority(pnt, uint8(o.A))
	case "n.prf":
		r.F, err = d.PointReadFloat32(pnt)
	case "n.prb":
		r.U, err = d.PointReadBool(pnt)
	case "n.prm":
		r.U, err = d.PointReadMultiState(pnt)
	case "n.prp":
		r.Pri, err = d.PointReadPriority(pnt)
	case "n.rname":
		r.S, err = d.ReadPointName(pnt)
	case "n.wname":
		err = d.WritePointName(pnt, o.S[0].P[0].V[0].S)
	case "n.rdname":
		r.S, err = d.ReadDeviceName(devID)
	case "n.wdname":
		err = d.WriteDeviceName(devID, o.S[0].P[0].V[0].S)
	case "n.pdet":
		var p *network.PointDetails
		p, err = d.PointDetails(pnt)
		r.Points = append(r.Points, p)
	case "n.objs":
		if o.Str == "own" && o.A != 0 { // a handle nobody else uses: what it says of the device is out of date
			d.MaxApdu, d.Segmentation = 7, 9
			switch o.ID % 4 {
			case 1:
				d.MaxApdu, d.Segmentation = 60000, 0
			case 2:
				d.MaxApdu, d.Segmentation = 0, 3
			}
			r.MaxA0, r.Seg0 = d.MaxApdu, d.Segmentation
		}
		r.OIDs, err = d.DeviceObjects(devID, o.A != 0)
		if o.Str == "own" {
			r.MaxA, r.Seg = d.MaxApdu, d.Segmentation
		}
	case "n.points":
		r.Points, err = d.GetDevicePoints(devID)
	case "n.det":
		r.Det, err = d.GetDeviceDetails(devID)
	case "n.ddisc":
		var l []*network.Device
		a := x.sharedOpts(o)
		l, err = d.DeviceDiscover(a)
		if *a != *whoIsOpts(o) {
			r.Changed = "options"
		}
		for _, q := range l {
			if q != nil {
				r.NDevs = append(r.NDevs, *q)
			}
		}
	case "n.dwhois":
		a := x.sharedOpts(o)
		r.Devs, err = d.Whois(a)
		if *a != *whoIsOpts(o) {
			r.Changed = "options"
		}
	case "n.snet": // register a further network under an id
		inf, ip, bits := netAddr(o.A)
		switch {
		case o.C == 0:
		case ip != "":
			bits = 33
		default:
			inf = "10.0.0.100/33"
		}
		if o.B == 0 {
			err = x.store.NewNetwork(o.Str, inf, ip, int(o.A), bits)
			break
		}
		var n *network.Network
		n, err = network.New(&network.Network{Interface: inf, Ip: ip, Port: int(o.A), SubnetCIDR: bits, StoreID: o.Str, Store: x.store})
		if err == nil && n == nil {
			err = fmt.Errorf("%s", errNoNet)
		}
	case "n.sgetnet":
		var n *network.Network
		n, err = x.store.GetNetwork(o.Str)
		x.w.seq++
		r.TL, r.QL, r.Net = x.w.now(), x.w.seq, n
		if n == nil && err == nil {
			r.Ptr = "nil"
		}
		if n != nil && err == nil {
			r.U = uint32(n.Port)
			if n == x.net {
				r.S = "first"
			} else if !slices.Contains(x.nets, n) {
				x.nets = append(x.nets, n)
				x.runs++
				go func() {
					defer func() { x.ended++ }()
					n.NetworkRun()
				}()
			}
			if t := x.w.deviceOf(o); o.B != 0 && t != nil { // and use it
				nd := &network.Device{Ip: t.h.peer.ipString(), Port: t.h.peer.Port, DeviceID: int(t.cfg.ID.I), NetworkNumber: int(o.Net),
					MaxApdu: t.cfg.MaxApdu, Segmentation: t.cfg.Seg, StoreID: fmt.Sprintf("via op%d", o.ID)}
				if len(o.Mac) > 0 {
					nd.MacMSTP = int(o.Mac[0])
				}
				r.Ptr = "name: dev"
				if q, e := network.NewDevice(n, nd); e != nil {
					r.Ptr = "making a device: " + e.Error()
				} else if s, e := q.ReadDeviceName(btypes.ObjectInstance(nd.DeviceID)); e != nil {
					r.Ptr = "error: " + e.Error()
				} else if r.Ptr = "name: " + s; r.Ptr == "name: dev" {
					if g, e := x.store.GetDevice(nd.StoreID); e != nil {
						r.Ptr = "looking up the device made on it: " + e.Error()
					} else if g != q {
						r.Ptr = "another device is stored for it"
					}
				}
			}
		}
	case "n.supd":
		h := x.w.hosts[o.Host]
		nd := &network.Device{Ip: h.peer.ipString(), Port: h.peer.Port, DeviceID: int(r.Tgt.cfg.ID.I), NetworkNumber: int(o.Net),
			MaxApdu: r.Tgt.cfg.MaxApdu, Segmentation: r.Tgt.cfg.Seg, DeviceName: fmt.Sprintf("op%d", o.ID)}
		if len(o.Mac) > 0 {
			nd.MacMSTP = int(o.Mac[0])
		}
		net := x.someNet(o)
		r.MaxA0 = uint32(x.portOf(net))
		if o.B != 0 { // it has been something else before
			ip, port, id := nd.Ip, nd.Port, nd.DeviceID
			nd.Ip, nd.Port, nd.DeviceID, nd.StoreID = "10.0.0.99", 47999, id+1, fmt.Sprintf("before op%d", o.ID)
			if _, err = network.NewDevice(x.net, nd); err != nil {
				break
			}
			nd.Ip, nd.Port, nd.DeviceID = ip, port, id
		}
		if err = x.store.UpdateDevice(o.Str, net, nd); err == nil {
			x.hold(o, nd)
		}
	case "n.snew": // register by constructing a device
		h := x.w.hosts[o.Host]
		nd := &network.Device{Ip: h.peer.ipString(), Port: h.peer.Port, DeviceID: int(r.Tgt.cfg.ID.I), NetworkNumber: int(o.Net),
			MaxApdu: r.Tgt.cfg.MaxApdu, Segmentation: r.Tgt.cfg.Seg, DeviceName: fmt.Sprintf("op%d", o.ID), StoreID: o.Str}
		if len(o.Mac) > 0 {
			nd.MacMSTP = int(o.Mac[0])
		}
		var q *network.Device
		net := x.someNet(o)
		r.MaxA0 = uint32(x.portOf(net))
		q, err = network.NewDevice(net, nd)
		if err == nil && q == nil {
			err = fmt.Errorf("no device and no error")
		}
		if err == nil {
			x.hold(o, q)
		}
	case "n.sgetdev":
		var n *network.Device
		n, err = x.store.GetDevice(o.Str)
		x.w.seq++
		r.TL, r.QL = x.w.now(), x.w.seq
		if n == nil && err == nil {
			r.Ptr = "nil"
		}
		if n != nil && err == nil {
			x.hold(o, n)
			r.S = n.DeviceName
			r.U = uint32(n.DeviceID)
			if o.B != 0 { // and use it
				var s string
				s, e := n.ReadDeviceName(btypes.ObjectInstance(n.DeviceID))
				if e != nil {
					r.Ptr = "error: " + e.Error()
				} else {
					r.Ptr = "name: " + s
				}
			}
		}
	default:
		panic("harness: op " + o.Kind)
	}
	if *pnt != pc {
		r.Changed = "point"
	}
	set(err)
}

// heldDev is a device somebody holds, and what it was when they got it.
type heldDev struct {
	op  int
	d   *network.Device
	was string
}

func devIdent(d *network.Device) string {
	return fmt.Sprintf("%q, device %d at %s:%d, network %d mac %d", d.DeviceName, d.DeviceID, d.Ip, d.Port, d.NetworkNumber, d.MacMSTP)
}

func (x *Env) hold(o *Op, d *network.Device) {
	x.held = append(x.held, heldDev{o.ID, d, devIdent(d)})
}

// heard counts the devices whose announcements have arrived.
func (w *World) heard() int {
	for ; w.heardN < len(w.rx); w.heardN++ {
		// also what only looks like one: it may be garbled
		if s := string(w.rx[w.heardN].Raw); strings.Contains(s, "\x10\x00") {
			w.heardIDs[s] = true
		}
	}
	return len(w.heardIDs)
}

// bound is how long a call may take, not counting injected stalls (ns).
func bound(w *World, o *Op) int64 {
	n := int64(0)
	if d := w.deviceOf(o); d != nil {
		n = int64(len(d.list))
	}
	if w.plan.Net.Mutate > 0 || len(w.plan.Inj) > 0 {
		n += 300 // a garbled list may be that long
	}
	switch o.Kind {
	case "rp", "n.read", "n.rstr", "n.prf", "n.prb", "n.prm", "n.prp", "n.rname", "n.rdname":
		return 6 * sec
	case "wp", "wpm", "n.write", "n.pwa", "n.pwb", "n.pwm", "n.prel", "n.wname", "n.wdname":
		return 11 * sec
	case "rpm":
		return 20 * sec
	case "whois", "router", "netnum", "n.whois", "n.dwhois":
		return 10 * sec
	case "objects":
		return 6*sec + 40*n*sec
	case "n.pdet":
		return 12 * sec
	case "n.objs":
		return 10*sec + 6*(n+2)*sec
	case "n.points":
		return 10*sec + 18*(n+2)*sec
	case "n.det":
		return 24 * sec
	case "n.disc", "n.ddisc":
		k := int64(0)
		for _, h := range w.hosts {
			k++
			for _, m := range h.nets {
				k += int64(len(m.devs))
			}
		}
		k = max(k, int64(w.heard()))
		return 10*sec + 24*k*sec
	case "n.sgetdev", "n.sgetnet":
		return 6 * sec
	case "sleep":
		return o.A*ms + sec
	}
	return sec
}
