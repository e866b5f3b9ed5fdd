//go:build go1.23

package main

import (
	"fmt"
)

// The generators: one per property. Every run draws its own subset of faults
// (swarm testing), so that each kind is also met without the others.

func init() {
	generators["C01"] = genReads
	generators["C02"] = genHostile
	generators["C03"] = genBounded
	generators["C04"] = genLeak
	generators["C05"] = genWrites
	generators["C06"] = genErrors
	generators["C07"] = genWhoIs
	generators["C08"] = genNetLayer
	generators["C09"] = genObjects
	generators["C10"] = genRPM
	generators["C11"] = genFrames
	generators["C12"] = genRetry
	generators["C13"] = genRace
	generators["C17"] = genClose
	generators["C18"] = genSockErr
	generators["C21"] = genArgs
}

func repeat(n int, s string) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, s)
	}
	return
}

func genReads(p *Plan, r *Rng) {
	if r.one(20) {
		p.genRecycle(r, append(repeat(r.rng(2, 6), "rp"), r.str("rp", "wp", "rpm")))
		return
	}
	p.genHosts(r, hostOpt{iam: true, routers: 40, bbmd: 15, oddPort: true, maxDevs: 3, longMac: true, smallApdu: r.one(5)})
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, late: true, sendSlow: true, noReply: true, reject: true, abort: true, errReply: true, slow: true, cov: true})
	p.genTx(r, txOpt{kinds: append(repeat(r.rng(2, 6), "rp"), r.str("rp", "wp", "rpm")), threads: r.pick(2, 6, 12, 24), ops: r.pick(3, 6, 10), gapUs: r.pick(3000, 300000), builds: r.one(3), nprops: 2})
	p.genWin(r, "partition", "crash", "stall")
	p.addIAmNoise(r)
}

func genRPM(p *Plan, r *Rng) {
	if r.one(30) {
		p.genRecycle(r, append(repeat(4, "rpm"), r.str("rp", "wp", "rpm")))
		return
	}
	p.genHosts(r, hostOpt{rpm: true, iam: true, routers: 30, maxDevs: 2, smallApdu: r.one(3)})
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, late: true, noReply: true, reject: true, abort: true, errReply: true, slow: true, cov: true})
	p.genTx(r, txOpt{kinds: append(repeat(4, "rpm"), r.str("rp", "wp", "rpm")), threads: r.pick(1, 4, 10, 22), ops: r.pick(4, 8), gapUs: r.pick(3000, 300000), builds: r.one(4), nprops: r.pick(1, 3, 6, 12)})
	p.genWin(r, "partition", "crash", "stall")
	p.addIAmNoise(r)
}

func genWrites(p *Plan, r *Rng) {
	if r.one(30) {
		p.genRecycle(r, append(repeat(r.rng(1, 4), "wp"), "wpm", r.str("rp", "wp", "wpm")))
		return
	}
	p.genHosts(r, hostOpt{iam: true, routers: 30, maxDevs: 3, longMac: true, smallApdu: r.one(5)})
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, late: true, sendSlow: true, noReply: true, reject: true, abort: true, errReply: true, slow: true, cov: true})
	p.genTx(r, txOpt{kinds: append(repeat(r.rng(1, 4), "wp"), "wpm", r.str("rp", "wp", "wpm")), threads: r.pick(2, 6, 12, 24), ops: r.pick(3, 6, 10), gapUs: r.pick(3000, 300000), builds: r.one(3), nprops: r.pick(1, 3, 5)})
	for i := range p.Ops {
		if o := &p.Ops[i]; o.Kind == "wp" && r.one(20) {
			o.S[0].O.T = 4
			o.S[0].P[0].P = propPV
			o.S[0].P[0].V = []Val{genVal(r, r.str("real", "enum", "char", "bool"))} // cannot be encoded
		}
	}
	p.genWin(r, "partition", "crash", "stall")
	p.addIAmNoise(r)
}

func genErrors(p *Plan, r *Rng) {
	if r.one(30) {
		p.genRecycle(r, []string{"rp", "wp", "rpm", "wpm"})
		return
	}
	p.genHosts(r, hostOpt{iam: true, routers: 30, maxDevs: 3})
	p.genNet(r, netOpt{dup: true, delay: true, loss: r.one(3), errReply: true, slow: true})
	if p.Net.ErrReply == 0 && r.one(2) {
		p.Net.ErrReply = r.pick(300, 800)
	}
	p.genTx(r, txOpt{kinds: []string{"rp", "wp", "rpm", "wpm"}, threads: r.pick(1, 4, 12, 20), ops: r.pick(3, 6, 10), gapUs: r.pick(3000, 300000), nprops: r.pick(1, 2)})
	// make sure that errors are asked for
	for i := range p.Ops {
		o := &p.Ops[i]
		for j := range o.S {
			for k := range o.S[j].P {
				if r.one(8) {
					o.S[j].P[k].P = uint32(r.pick(3, 99999))
				}
			}
		}
	}
}

func genRetry(p *Plan, r *Rng) {
	p.genHosts(r, hostOpt{iam: true, routers: 30, maxDevs: 2})
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, late: true, noReply: true, reject: true, abort: true, errReply: true, slow: true, sendErr: r.one(3), recvErr: r.one(4)})
	if r.one(2) {
		p.Net.NoReply = r.pick(300, 700, 1000)
	}
	p.genTx(r, txOpt{kinds: []string{"rp", "wp", "rpm", "wpm"}, threads: r.pick(1, 4, 22, 30), ops: r.pick(2, 4), gapUs: r.pick(3000, 3000000), nprops: 2})
	p.genWin(r, "partition", "crash", "stall", "net-down", "rx-down")
}

func genLeak(p *Plan, r *Rng) {
	p.genHosts(r, hostOpt{iam: true, rpm: true, routers: 20, maxDevs: 2, smallApdu: r.one(2)})
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, late: true, sendErr: true, noReply: true, reject: true, abort: true, errReply: true, mutate: true, slow: true, cov: true})
	p.genTx(r, txOpt{kinds: []string{"rp", "wp", "rpm", "wpm"}, threads: r.pick(2, 8, 20, 26), ops: r.pick(3, 6, 12), gapUs: r.pick(3000, 300000), builds: r.one(2), nprops: r.pick(2, 4, 40)})
	for i := range p.Ops {
		o := &p.Ops[i]
		if o.Kind[len(o.Kind)-1] == 'm' && r.one(6) {
			o.MaxA = uint32(r.pick(1, 20, 30, 50)) // the device is said to take less than the request
		}
		if o.Kind == "wp" && r.one(6) {
			o.S[0].O.T = 4
			o.S[0].P[0].P = propPV
			o.S[0].P[0].V = []Val{genVal(r, r.str("real", "enum", "char", "bool"))} // cannot be encoded
		}
	}
	for k := r.n(3); k > 0; k-- {
		p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: 40 + k, Kind: r.str("whois", "router", "netnum"), AtUs: int64(r.n(4000000)), A: -1, B: -1})
	}
	p.genWin(r, "partition", "crash", "stall", "net-down", "rx-down")
}

func (p *Plan) discoveryHosts(r *Rng) {
	p.genHosts(r, hostOpt{iam: true, routers: 50, bbmd: 35, oddPort: false, maxDevs: r.pick(1, 3, 8), longMac: true})
	for i := range p.Hosts {
		h := &p.Hosts[i]
		if h.Dev != nil {
			iAmTiming(r, h.Dev)
		}
		for j := range h.Nets {
			for k := range h.Nets[j].Devs {
				iAmTiming(r, &h.Nets[j].Devs[k].Dev)
			}
		}
	}
}

// iAmTiming draws when and how often a device announces itself.
func iAmTiming(r *Rng, d *Dev) {
	d.IAms = nil
	for k := r.pick(0, 1, 1, 1, 1, 2, 3); k > 0; k-- {
		d.IAms = append(d.IAms, int64(r.pick(0, 0, 10, 5000, 300000, 1200000, 1700000, 2500000, 4000000)+r.n(3000)))
	}
}

func (p *Plan) whoisOp(r *Rng, th int) Op {
	o := Op{ID: len(p.Ops), Th: th, Kind: "whois", A: -1, B: -1}
	ids := []int64{0, 1, 4194302, 4194303, 4194304, 1 << 30}
	var nets []int
	for _, d := range p.devs() {
		ids = append(ids, int64(d.d.ID.I), int64(d.d.ID.I)+1, int64(d.d.ID.I)-1)
		if d.net != 0 {
			nets = append(nets, int(d.net))
		}
	}
	if r.one(2) {
		a, b := ids[r.n(len(ids))], ids[r.n(len(ids))]
		if a > b {
			a, b = b, a
		}
		switch r.n(10) { // no limit to one side: nothing or anything negative says so
		case 0, 1:
			b = int64(r.pick(0, 0, -1))
		case 2:
			a = int64(r.pick(0, -1, -5))
		case 3:
			a, b = b, a
		}
		o.A, o.B = a, b
	}
	switch r.n(5) {
	case 0:
		o.C = 1
	case 1:
		nets = append(nets, 5, 65534)
		o.Net = uint16(nets[r.n(len(nets))])
	}
	if r.one(2) {
		o.AtUs = int64(r.pick(10, 1000, 300000, 2500000))
	}
	return o
}

func genWhoIs(p *Plan, r *Rng) {
	p.discoveryHosts(r)
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, sendErr: r.one(6), sendSlow: r.one(6)})
	for th, c := 0, r.pick(1, 1, 2, 3, 6); th < c; th++ {
		for k := r.rng(1, 2); k > 0; k-- {
			p.Ops = append(p.Ops, p.whoisOp(r, th))
		}
	}
	if r.one(3) {
		p.genTx(r, txOpt{kinds: []string{"rp"}, threads: 4, ops: 4, gapUs: 500000})
		for i := range p.Ops {
			if p.Ops[i].Kind == "rp" {
				p.Ops[i].Th += 20
			}
		}
	}
	// devices announcing themselves unasked, and other people's traffic
	storm := r.pick(1, 4, 40)
	if r.one(15) {
		storm = r.pick(300, 600)
	}
	for k := r.n(storm); k > 0; k-- {
		i := IAmInfo{ID: Oid{typeDevice, uint32(r.pick(0, 1, 100, 4194302, r.n(4194303)))}, MaxApdu: uint32(r.pick(50, 480, 1476, 65535)), Seg: uint32(r.n(4)), Vendor: uint32(r.pick(0, 127, 128, 129, 255, 256, 65535))}
		var src *NetAddr
		if r.one(3) {
			src = &NetAddr{uint16(r.rng(1, 65534)), []byte{byte(r.n(256))}}
		}
		a := i.apdu()
		if r.one(12) { // not an I-Am after all: cut off, or something else in the place of a value
			if r.one(2) {
				a = a[:r.rng(2, len(a)-1)]
			} else {
				v := []Val{vOid(i.ID), vUint(i.MaxApdu), vEnum(i.Seg), vUint(i.Vendor)}
				v[0] = v[r.rng(1, 3)] // names no device
				a = []byte{0x10, 0}
				for _, x := range v {
					a = x.put(a)
				}
			}
		}
		n := npduBytes(false, nil, src, a)
		b := bvlc(byte(r.pick(0x0a, 0x0b)), n)
		if r.one(4) {
			b = bvlcFwd(Peer{[4]byte{10, 0, 7, byte(r.n(250))}, r.pick(47808, 47809)}, n)
		}
		p.inject(r, int64(r.n(5000000)), b)
	}
	if r.one(4) {
		p.genWin(r, "partition", "crash")
	}
}

func genNetLayer(p *Plan, r *Rng) {
	p.genHosts(r, hostOpt{iam: true, routers: 0, maxDevs: 2})
	num := uint16(r.pick(1, 2, 250, 1000, 65530))
	for k, c := 0, r.rng(0, 3); k < c; k++ {
		h := Host{IP: [4]byte{10, 0, 0, byte(50 + k)}, Port: 47808, Kind: "router", DelayUs: int64(r.pick(10, 500, 20000)), NmDelayUs: int64(r.pick(0, 0, 0, 1000, 800000, 1600000))}
		m := r.pick(1, 1, 2, 3, 8, 40)
		if r.one(12) { // as many as fit into a message
			m = r.pick(127, 128, 255, 256, 300, 700)
		}
		for ; m > 0; m-- {
			h.Nets = append(h.Nets, RNet{Net: num})
			num++
			if num == 65535 {
				num = 3
			}
		}
		if r.one(2) {
			h.NetNum = uint16(r.rng(1, 65534))
		}
		p.Hosts = append(p.Hosts, h)
	}
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, sendErr: r.one(6)})
	for th, c := 0, r.pick(1, 2, 3, 5); th < c; th++ {
		for k := r.rng(1, 2); k > 0; k-- {
			p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: th, Kind: r.str("router", "netnum"), AtUs: int64(r.pick(0, 10, 3000, 400000))})
		}
	}
	if r.one(3) {
		p.Ops = append(p.Ops, p.whoisOp(r, 11))
	}
	if r.one(3) {
		p.genTx(r, txOpt{kinds: []string{"rp"}, threads: 3, ops: 3, gapUs: 500000})
	}
	for k := r.n(r.pick(1, 4)); k > 0; k-- {
		var body []byte
		t := byte(0x01)
		for m := r.pick(1, 2, 3); m > 0; m-- {
			n := r.rng(1, 65534)
			body = append(body, byte(n>>8), byte(n))
		}
		if r.one(2) {
			t, body = 0x13, append(body[:2:2], 1)
		}
		var src *NetAddr
		if r.one(3) {
			src = &NetAddr{uint16(r.rng(1, 65534)), []byte{byte(r.n(256))}}
		}
		if r.one(5) { // cut off within a number
			body = body[:len(body)-1]
			if t == 0x13 || r.one(2) {
				body = body[:min(len(body), r.n(2))]
			}
		}
		p.inject(r, int64(r.n(2500000)), bvlc(byte(r.pick(0x0a, 0x0b)), npduNetMsg(src, t, body)))
	}
}

// genOdd makes an entry of the device's object list something it cannot be.
func (d *Dev) genOdd(r *Rng) {
	n := len(d.Objs)
	d.Odd = &Odd{At: int64(r.pick(1, n, 1+r.n(n), 0))}
	if d.Odd.At > 0 {
		d.Odd.V = genVal(r, r.str("uint", "real", "null", "char", "bool", "enum", "date"))
	} else if r.one(2) {
		d.Odd.V = genVal(r, r.str("real", "null", "char", "bool", "double"))
	} else {
		d.Odd.V = vUint(uint32(r.pick(n+1, n+2, n+30, 65536, 1<<32-1)))
	}
}

// genObjs gives a device n objects besides its device object.
func (d *Dev) genObjs(r *Rng, n int, plain bool) {
	seen := map[Oid]bool{d.ID: true}
	str := func(k int) Val {
		s := fmt.Sprintf("%d-%d", d.ID.I, k)
		for m := r.pick(0, 0, 1, 5, 20); m > 0; m-- {
			s += r.str("a", "B", "é", " ", "9")
		}
		if r.one(20) && !plain {
			return Val{T: "ucs2", S: s}
		}
		return vStr(s)
	}
	d.Objs[0].P = []Pr{{P: propName, V: []Val{str(0)}}, {P: propDesc, V: []Val{str(1)}},
		{P: propMaxApdu, V: []Val{vUint(d.MaxApdu)}}, {P: propVendorName, V: []Val{str(2)}}, {P: propSegSup, V: []Val{vEnum(d.Seg)}}}
	for k := 0; k < n; k++ {
		o := Oid{uint32(objTypes[r.n(len(objTypes))]), uint32(r.pick(k, k, r.n(90000)))}
		if o.T == typeDevice || seen[o] || plain && o.T > 127 {
			continue
		}
		seen[o] = true
		ob := Obj{O: o, P: []Pr{{P: propName, V: []Val{str(3 + k)}}}}
		if plain || !r.one(60) {
			v := str(1000 + k)
			switch r.n(20) {
			case 0, 1:
				v = vStr("")
			case 2:
				v = ob.P[0].V[0] // the same as the name
			case 3:
				v = d.Objs[r.n(len(d.Objs))].P[0].V[0] // another object's name
			}
			ob.P = append(ob.P, Pr{P: propDesc, V: []Val{v}})
		}
		ob.P = append(ob.P, Pr{P: propUnits, V: []Val{vEnum(uint32(r.pick(0, 62, 95, 98, r.n(200))))}})
		d.Objs = append(d.Objs, ob)
	}
	if !r.one(3) { // the device object need not come first
		i := r.n(len(d.Objs))
		d.Objs[0], d.Objs[i] = d.Objs[i], d.Objs[0]
	}
}

func genObjects(p *Plan, r *Rng) {
	p.genHosts(r, hostOpt{iam: true, routers: 30, maxDevs: 2, smallApdu: r.one(3)})
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, late: r.one(3), noReply: r.one(2), reject: r.one(3), abort: r.one(3), errReply: r.one(3), slow: r.one(3), cov: r.one(3)})
	p.Net.Loss /= 4
	p.Net.Late /= 4
	ds := p.devs()
	plain := r.one(2)
	for _, d := range ds {
		n := r.pick(0, 1, 2, 5, 10, 23, 24, 25, 60, 73, 74, 100, 147)
		if r.one(25) {
			n = r.pick(255, 256, 257, 330, 520)
		}
		d.d.genObjs(r, n, plain)
		if r.one(8) {
			d.d.genOdd(r)
		}
	}
	for th, c := 0, r.rng(1, 3); th < c; th++ {
		d := ds[r.n(len(ds))]
		o := Op{ID: len(p.Ops), Th: th, Kind: "objects", Host: d.h, Net: d.net, Mac: d.mac, AtUs: int64(r.n(2000))}
		if r.one(8) {
			o.MaxA = uint32(r.pick(1, 19, 20, 21, 39, 50, 480))
		}
		p.Ops = append(p.Ops, o)
	}
	if r.one(3) {
		p.genTx(r, txOpt{kinds: []string{"rp", "wp"}, threads: 2, ops: 3, gapUs: 30000})
		for i := range p.Ops {
			if p.Ops[i].Kind != "objects" {
				p.Ops[i].Th += 20
			}
		}
	}
	p.genWin(r, "partition", "crash", "stall")
}

func (p *Plan) iamOp(r *Rng, th int) Op {
	o := Op{ID: len(p.Ops), Th: th, Kind: "iam", AtUs: int64(r.n(2000)), Str: r.str("local", "global", "remote", "unicast", "routed"),
		IAm: &IAmInfo{ID: Oid{typeDevice, uint32(r.pick(0, 1, 1234, 4194302, r.n(4194303)))}, MaxApdu: uint32(r.pick(50, 255, 256, 480, 1476, 65535)), Seg: uint32(r.n(4)), Vendor: uint32(r.pick(0, 1, 127, 128, 255, 256, 260, 65535))}}
	o.IAm.ID.I += uint32(o.ID) & 63 // keep announcements apart
	if o.IAm.ID.I > 4194303 {
		o.IAm.ID.I = 4194000 + uint32(o.ID)&63
	}
	o.Net = uint16(r.rng(1, 65534))
	d := p.devs()
	x := d[r.n(len(d))]
	o.Host = x.h
	if o.Str == "routed" {
		if x.net == 0 {
			o.Str = "unicast"
		} else {
			o.Net, o.Mac = x.net, x.mac
			o.C = int64(r.n(2)) // the length of the hardware address is left to the client
		}
	}
	if r.one(10) { // no object identifier can say this
		if r.one(2) {
			o.IAm.ID.T = uint32(r.pick(1024, 1032, 4095, 65535))
		} else {
			o.IAm.ID.I = uint32(r.pick(4194304, 4194305+r.n(1000), 1<<31, 1<<32-1))
		}
	}
	return o
}

// unsayable reports whether an I-Am cannot be encoded.
func (i *IAmInfo) unsayable() bool { return i.ID.T > 1023 || i.ID.I > 4194303 }

func (p *Plan) genMixed(r *Rng, th int) {
	switch r.n(7) {
	case 0:
		p.Ops = append(p.Ops, p.iamOp(r, th))
	case 1:
		p.Ops = append(p.Ops, p.whoisOp(r, th))
	case 2:
		p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: th, Kind: r.str("router", "netnum"), AtUs: int64(r.n(2000))})
	case 3:
		ds := p.devs()
		d := ds[r.n(len(ds))]
		p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: th, Kind: "objects", Host: d.h, Net: d.net, Mac: d.mac, AtUs: int64(r.n(2000))})
	default:
		n := len(p.Ops)
		p.genTx(r, txOpt{kinds: []string{"rp", "wp", "rpm", "wpm"}, threads: 1, ops: 3, gapUs: 20000, builds: true, nprops: 3})
		for i := n; i < len(p.Ops); i++ {
			p.Ops[i].Th = th
		}
	}
}

func genFrames(p *Plan, r *Rng) {
	p.genHosts(r, hostOpt{iam: true, routers: 60, bbmd: 20, oddPort: true, maxDevs: 2, longMac: true, smallApdu: r.one(4)})
	p.genNet(r, netOpt{loss: r.one(3), dup: r.one(3), delay: true, noReply: r.one(3)})
	for _, d := range p.devs() {
		d.d.genObjs(r, r.pick(1, 4, 12), r.one(2))
	}
	if r.one(4) {
		p.Cfg["port"] = int64(r.pick(47808, 47809, 47823, 50000))
	}
	if r.one(4) {
		p.Cfg["byip"] = 1
	}
	for th, c := 0, r.rng(1, 6); th < c; th++ {
		p.genMixed(r, th)
	}
	for i := range p.Ops {
		o := &p.Ops[i]
		if (o.Kind == "rpm" || o.Kind == "wpm") && r.one(6) {
			o.MaxA = uint32(r.pick(1, 20, 50, 60, 128, 206))
		}
		if o.Kind == "wp" && r.one(2) {
			o.S[0].P[0].V = []Val{genVal(r, writeTypes[r.n(len(writeTypes))])}
			if o.S[0].O.T == 4 || o.S[0].O.T == 5 {
				o.S[0].O.T = 2
			}
		}
	}
}

func genArgs(p *Plan, r *Rng) {
	genFrames(p, r)
	p.Cfg = map[string]int64{}
	if r.one(2) {
		p.Cfg["scribble"] = 1
	}
	if r.one(2) {
		p.Cfg["share"] = 1
		for k := r.rng(1, 4); k > 0; k-- { // the same discovery from several goroutines
			p.Ops = append(p.Ops, p.whoisOp(r, 70+k))
		}
		n := len(p.Ops)
		for i := 0; i < n; i++ {
			if o := p.Ops[i]; o.Kind == "whois" && r.one(2) {
				o.ID, o.Th = len(p.Ops), 80+i
				p.Ops = append(p.Ops, o)
			}
		}
	}
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, noReply: true, sendErr: true, errReply: true})
}

func genSockErr(p *Plan, r *Rng) {
	if r.one(6) {
		genInventory(p, r)
		p.Net.SendErr, p.Net.RecvErr = r.pick(50, 200, 500), r.pick(0, 100, 300)
		p.genWin(r, "net-down", "rx-down")
		return
	}
	p.genHosts(r, hostOpt{iam: true, routers: 30, maxDevs: 2})
	p.genNet(r, netOpt{sendErr: true, sendSlow: true, recvErr: true, loss: r.one(4), dup: r.one(4)})
	if p.Net.SendErr+p.Net.RecvErr == 0 {
		p.Net.RecvErr = r.pick(50, 300)
		p.Net.SendErr = r.pick(0, 300)
	}
	p.genTx(r, txOpt{kinds: []string{"rp", "wp", "rpm", "wpm"}, threads: r.pick(1, 4, 12), ops: r.pick(3, 6), gapUs: r.pick(3000, 300000), nprops: 2})
	for k := r.n(3); k > 0; k-- {
		p.Ops = append(p.Ops, p.whoisOp(r, 30+k))
	}
	for k := r.n(3); k > 0; k-- {
		p.Ops = append(p.Ops, p.iamOp(r, 40+k))
	}
	p.addRuns(r, 3)
	p.genWin(r, "net-down", "rx-down")
}

// addRuns starts the receive loop again on a client that has one.
func (p *Plan) addRuns(r *Rng, den int) {
	if r.one(den) {
		for k := r.pick(1, 1, 2, 4); k > 0; k-- {
			p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: 60 + k, Kind: "run", AtUs: int64(r.pick(0, 10, 100000, 3000000))})
		}
	}
}

// ---- hostile traffic

func (p *Plan) hostileFrame(r *Rng) []byte {
	id := byte(r.rng(1, 30))
	var apdu []byte
	switch r.n(16) {
	case 0, 1:
		var vs []Val
		for k := r.rng(0, 3); k > 0; k-- {
			vs = append(vs, genVal(r, nonceTypes[r.n(len(nonceTypes))]))
		}
		apdu = rpAck(id, Oid{2, virtBase}, PropRef{P: propPV, Idx: -1}, vs)
	case 2, 3:
		var it []RpmItem
		for k := r.rng(0, 3); k > 0; k-- {
			it = append(it, RpmItem{P: PropRef{P: uint32(r.n(600)), Idx: int64(r.n(4) - 1)}, V: []Val{genVal(r, nonceTypes[r.n(len(nonceTypes))])}, Err: r.one(3), Class: 2, Code: 31})
		}
		apdu = rpmAck(id, []Oid{{2, virtBase}}, [][]RpmItem{it})
	case 4:
		apdu = errorAPDU(id, byte(r.pick(12, 14, 15, 16)), uint32(r.n(8)), uint32(r.n(100)))
	case 5:
		apdu = []byte{0x20, id, byte(r.pick(15, 16, 12))}
	case 6:
		apdu = []byte{byte(r.pick(0x60, 0x70, 0x71, 0x40, 0x41)), id, byte(r.n(12)), byte(r.n(5))}
	case 7, 8:
		apdu = IAmInfo{ID: Oid{uint32(r.pick(8, 8, 8, 0, 1023)), uint32(r.u64()) & 0x3fffff}, MaxApdu: uint32(r.u64()), Seg: uint32(r.n(9)), Vendor: uint32(r.u64())}.apdu()
	case 9:
		apdu = []byte{0x10, 8, 0x0a, byte(r.u64()), byte(r.u64()), 0x1a, byte(r.u64()), byte(r.u64())}[:r.pick(2, 5, 8)]
	case 10: // a confirmed request of a peer
		apdu = []byte{byte(r.pick(0x00, 0x02, 0x08, 0x0c)), byte(r.n(8)), id, byte(r.n(30)), 0x0c, 2, 0, 0, 1, 0x19, 85}
	case 11: // segmented complex ack
		apdu = []byte{byte(r.pick(0x38, 0x3c)), id, byte(r.n(3)), byte(r.n(9)), 12, 0x0c, 2, 0, 0, 1, 0x19, 85, 0x3e, 0x44, 1, 2, 3, 4, 0x3f}
	case 12: // a bomb: a length far beyond the datagram
		l := uint32(r.pick(0xffffffff, 0x7fffffff, 0x10000000, 0x00ffffff, 0x8000, 300))
		tag := byte(r.pick(0x75, 0x65, 0x85, 0xa5, 0xb5, 0x25, 0x35, 0x55, 0xc5))
		body := []byte{tag, 255, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)}
		if r.one(3) {
			body = []byte{tag, 254, byte(l >> 8), byte(l)}
		}
		if r.one(4) {
			body = []byte{tag, byte(r.n(254))}
		}
		apdu = append([]byte{0x30, id, 12, 0x0c, 0, 0x81, 0x86, 0xa0, 0x19, 85, 0x3e}, body...)
		if r.one(2) {
			apdu = append([]byte{0x30, id, 14, 0x0c, 0, 0x81, 0x86, 0xa0, 0x1e, 0x29, 85, 0x4e}, body...)
		}
		apdu = append(apdu, r.bytes(r.n(12))...)
	case 13:
		apdu = r.bytes(r.n(40))
	case 14: // deep or unbalanced nesting
		apdu = []byte{0x30, id, byte(r.pick(12, 14)), 0x0c, 0, 0x81, 0x86, 0xa0}
		for k := r.pick(1, 5, 60, 700); k > 0; k-- {
			apdu = append(apdu, byte(r.pick(0x1e, 0x2e, 0x3e, 0x4e, 0x5e, 0x1f, 0x3f, 0x4f, 0x5f, 0x00, 0x10, 0x29, 85)))
		}
	default:
		n := npduNetMsg(nil, byte(r.pick(0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x12, 0x13, 0x13, 0x14, 0x7f, 0x80, 0x81, 0xff)), r.bytes(r.pick(0, 1, 2, 3, 4, 5, 9)))
		if r.one(3) {
			n = npduNetMsg(&NetAddr{uint16(r.u64()), r.bytes(r.n(8))}, byte(r.n(20)), r.bytes(r.n(6)))
		}
		return p.mangle(r, bvlc(byte(r.pick(0x0a, 0x0b)), n))
	}
	var src, dst *NetAddr
	if r.one(4) {
		src = &NetAddr{uint16(r.u64()), r.bytes(r.rng(1, 7))}
	}
	if r.one(6) {
		dst = &NetAddr{uint16(r.pick(0xffff, 5)), r.bytes(r.n(7))}
	}
	n := npduBytes(r.one(4), dst, src, apdu)
	b := bvlc(byte(r.pick(0x0a, 0x0a, 0x0b)), n)
	switch r.n(12) {
	case 0:
		b = bvlcFwd(Peer{[4]byte{10, 0, 9, 9}, 47808}, n)
	case 1:
		b = bvlc(byte(r.n(16)), n)
	}
	return p.mangle(r, b)
}

func (p *Plan) mangle(r *Rng, b []byte) []byte {
	switch r.n(5) {
	case 0, 1:
		return b
	case 2: // truncate, with or without a consistent length
		b = b[:r.n(len(b)+1)]
		if len(b) >= 4 && r.one(2) {
			b[2], b[3] = byte(len(b)>>8), byte(len(b))
		}
		return b
	case 3:
		k := 4
		if len(b) < 4 || r.one(5) {
			k = 0
		}
		m := mutate(append([]byte{}, b[k:]...), r)
		b = append(append([]byte{}, b[:k]...), m...)
		if k == 4 && r.one(2) {
			b[2], b[3] = byte(len(b)>>8), byte(len(b))
		}
		return b
	}
	return append(b, r.bytes(r.pick(1, 3, 20, 1400))...)
}

func (r *Rng) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u64())
	}
	return b
}

// genNetPkg makes a workload of the network package that meets hostile
// traffic and faults of all kinds.
func (p *Plan) genNetPkg(r *Rng, o netOpt) {
	if r.one(3) {
		genPoints(p, r)
	} else {
		genInventory(p, r)
	}
	p.Net = NetCfg{}
	p.genNet(r, o)
	for k := r.pick(0, 3, 20); k > 0; k-- {
		b := p.hostileFrame(r)
		p.inject(r, int64(r.n(6000000)), b[:min(len(b), 1500)])
	}
}

func genHostile(p *Plan, r *Rng) {
	if r.one(5) {
		p.genNetPkg(r, netOpt{dup: true, delay: true, mutate: true, cov: true, reject: true, abort: true})
		if p.Net.Mutate == 0 {
			p.Net.Mutate = r.pick(100, 300, 900)
		}
		return
	}
	p.genHosts(r, hostOpt{rpm: true, iam: true, routers: 30, maxDevs: 2})
	p.genNet(r, netOpt{dup: true, delay: true, mutate: true, cov: true, reject: true, abort: true})
	if p.Net.Mutate == 0 && r.one(2) {
		p.Net.Mutate = r.pick(300, 900)
	}
	for _, d := range p.devs() {
		d.d.genObjs(r, r.pick(0, 3, 12), true)
	}
	p.genTx(r, txOpt{kinds: []string{"rp", "rpm", "rpm", "wp", "wpm"}, threads: r.pick(1, 4, 10), ops: r.pick(2, 5), gapUs: r.pick(3000, 300000), nprops: r.pick(1, 4)})
	if r.one(3) {
		p.Ops = append(p.Ops, p.whoisOp(r, 30))
	}
	if r.one(3) {
		p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: 31, Kind: r.str("router", "netnum")})
	}
	if r.one(3) {
		ds := p.devs()
		d := ds[r.n(len(ds))]
		p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: 32, Kind: "objects", Host: d.h, Net: d.net, Mac: d.mac})
	}
	span := r.pick(1000, 100000, 6000000)
	for k := r.pick(0, 3, 20, 120); k > 0; k-- {
		b := p.hostileFrame(r)
		if len(b) > 1500 {
			b = b[:1500]
		}
		p.inject(r, int64(r.n(span)), b)
	}
}

func genBounded(p *Plan, r *Rng) {
	if r.one(5) {
		p.genNetPkg(r, netOpt{loss: true, dup: true, delay: true, late: true, sendErr: true, sendSlow: true, recvErr: true, noReply: true, reject: true, abort: true, errReply: true, mutate: true, slow: true, cov: true})
		p.genWin(r, "partition", "crash", "stall", "net-down", "rx-down")
		return
	}
	p.genHosts(r, hostOpt{rpm: true, iam: true, routers: 40, bbmd: 10, maxDevs: 2, smallApdu: r.one(3)})
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, late: true, sendErr: true, sendSlow: true, recvErr: true, noReply: true, reject: true, abort: true, errReply: true, mutate: true, slow: true, cov: true})
	for _, d := range p.devs() {
		d.d.genObjs(r, r.pick(0, 3, 12, 30), r.one(2))
	}
	for th, c := 0, r.pick(1, 4, 12, 30); th < c; th++ {
		p.genMixed(r, th)
	}
	for k := r.pick(0, 0, 3, 20); k > 0; k-- {
		b := p.hostileFrame(r)
		p.inject(r, int64(r.n(6000000)), b)
	}
	if r.one(6) {
		p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: 50, Kind: r.str("close", "close2"), AtUs: int64(r.n(8000000))})
	}
	p.genWin(r, "partition", "crash", "stall", "net-down", "rx-down")
}

func genRace(p *Plan, r *Rng) {
	if r.one(3) {
		genInventory(p, r)
	} else {
		p.genHosts(r, hostOpt{rpm: true, iam: true, routers: 40, bbmd: 10, maxDevs: 2})
		for _, d := range p.devs() {
			d.d.genObjs(r, r.pick(0, 3, 8), r.one(2))
		}
		for th, c := 0, r.pick(2, 4, 8); th < c; th++ {
			p.genMixed(r, th)
		}
		if r.one(3) {
			p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: 50, Kind: r.str("close", "close2"), AtUs: int64(r.n(3000000))})
		}
	}
	p.Net = NetCfg{}
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, late: true, sendErr: true, recvErr: true, noReply: true, errReply: true, mutate: r.one(4), cov: true})
	for k := r.pick(0, 0, 3, 10); k > 0; k-- {
		p.inject(r, int64(r.n(3000000)), p.hostileFrame(r))
	}
	p.addRuns(r, 6)
}

func genClose(p *Plan, r *Rng) {
	p.genHosts(r, hostOpt{rpm: true, iam: true, routers: 20, maxDevs: 2})
	for _, d := range p.devs() {
		d.d.genObjs(r, r.pick(0, 3, 8), true)
	}
	p.genNet(r, netOpt{loss: true, dup: true, delay: true, late: true, noReply: true, sendErr: r.one(4), recvErr: r.one(4)})
	for th, c := 0, r.pick(0, 1, 3, 8); th < c; th++ {
		p.genMixed(r, th)
	}
	for k := r.pick(1, 1, 2, 3); k > 0; k-- {
		p.Ops = append(p.Ops, Op{ID: len(p.Ops), Th: 50 + r.n(2), Kind: r.str("close", "close2"), A: int64(r.n(2)), AtUs: int64(r.pick(0, 10, 1000, 50000, 2000000, 6000000) + r.n(1000))})
	}
	// calls on a closed client
	if r.one(2) {
		ds := p.devs()
		d := ds[r.n(len(ds))]
		n := len(p.Ops)
		op := Op{ID: n, Th: 50, Kind: "rp", Host: d.h, Net: d.net, Mac: d.mac, AtUs: 100}
		op.S = []Spec{r.spec(n, 0, 1, d.d.Virt, false)}
		p.Ops = append(p.Ops, op, p.whoisOp(r, 50))
		p.Ops[n+1].ID = n + 1
	}
	p.addRuns(r, 6)
	p.Cfg["reopen"] = 1
	p.Cfg["badnew"] = int64(r.pick(0, 1, 1, 3))
}

// genRecycle makes a workload with more transactions than there are invoke
// ids, fast enough that answers to earlier ones are still under way when an
// id comes round again.
func (p *Plan) genRecycle(r *Rng, kinds []string) {
	o := hostOpt{iam: true, routers: 50, maxDevs: 3, rpm: false, oddPort: true}
	mode := r.pick(1, 2, 3)
	if mode == 3 {
		o.oneIP = r.one(2)
		o.routers = r.pick(0, 100, 100)
	}
	p.genHosts(r, o)
	for _, d := range p.devs() {
		d.d.HoldUs = int64(r.pick(0, 0, 200))
	}
	dl := r.pick(50, 500, 2000)
	for i := range p.Hosts {
		p.Hosts[i].DelayUs = int64(dl + r.n(20))
	}
	th := r.pick(2, 8, 16, 20, 20)
	n := r.pick(400, 700) / th
	p.Net = NetCfg{DelayMaxUs: int64(n * 2 * dl / r.pick(1, 2, 4))} // as long as it takes until an id comes round again
	if r.one(2) {
		p.Net.Late = r.pick(10, 40)
	}
	if r.one(2) || p.Net.Late == 0 {
		p.Net.Dup = r.pick(50, 200, 500)
	}
	if r.one(4) {
		p.Net.ErrReply = r.pick(30, 200)
	}
	p.Cfg["recycle"] = int64(mode)
	for i := 0; i < n; i++ {
		for k := 0; k < th; k++ {
			c := len(p.Ops)
			p.genTx(r, txOpt{kinds: kinds, threads: 1, ops: 1, nprops: 1})
			p.Ops = p.Ops[:c+1]
			p.Ops[c].Th, p.Ops[c].AtUs = k, 0
		}
	}
}
