//go:build go1.23

package main

import (
	"encoding/hex"
	"encoding/json"
	"math"
)

// ---- building blocks of plans

var nonceTypes = []string{"uint", "enum", "int", "real", "double", "char", "ucs2", "octet", "bits", "date", "time", "oid", "bool", "null"}

// genVal draws a fixed value, favouring the edges of its datatype.
func genVal(r *Rng, t string) Val {
	edgeU := []uint32{0, 1, 2, 4, 5, 127, 128, 254, 255, 256, 65534, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, math.MaxUint32}
	u := edgeU[r.n(len(edgeU))]
	if r.one(3) {
		u = uint32(r.u64()) >> uint(r.n(32))
	}
	switch t {
	case "uint", "enum":
		return Val{T: t, U: uint64(u)}
	case "int":
		e := []int32{0, 1, -1, 127, 128, -128, -129, 255, -255, 32767, 32768, -32768, -32769, 1<<23 - 1, 1 << 23, -(1 << 23), -(1 << 23) - 1, math.MaxInt32, math.MinInt32, 1000000, -1000000}
		if r.one(3) {
			return vInt(int32(uint32(r.u64())) >> uint(r.n(32)))
		}
		return vInt(e[r.n(len(e))])
	case "real":
		e := []float32{0, float32(math.Copysign(0, -1)), 1, -1, 0.1, 21.5, math.MaxFloat32, math.SmallestNonzeroFloat32, float32(math.Inf(1)), float32(math.Inf(-1))}
		if r.one(3) {
			b := uint32(r.u64())
			if f := math.Float32frombits(b); f == f {
				return Val{T: t, U: uint64(b)}
			}
		}
		return vReal(e[r.n(len(e))])
	case "double":
		e := []float64{0, 1, -1, 0.1, math.Pi, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1)}
		if r.one(3) {
			b := r.u64()
			if f := math.Float64frombits(b); f == f {
				return Val{T: t, U: b}
			}
		}
		return vDouble(e[r.n(len(e))])
	case "bool":
		return vBool(r.one(2))
	case "null":
		return vNull()
	case "char", "ucs2":
		n := r.pick(0, 1, 2, 3, 4, 5, 8, 20, 60, 251, 252, 253, 254, 255, 256, 300)
		if t == "ucs2" {
			n = r.pick(0, 1, 2, 10, 125, 126, 127, 128)
		}
		s := ""
		al := []rune("abcXYZ 019_-/éß→")
		if r.one(4) { // what text seldom starts with or contains
			odd := []rune{0xfeff, 0xfffe, 0xffff, 0, 0x1f600, 0x10ffff, 0x2028, 0x301, '\n', 0x7f, 0xd7ff, 0xe000, 0xff, 0x100}
			al = append(odd, al[:4]...)
			if n < 2 {
				n = r.pick(2, 3, 6, 40)
			}
		}
		for len(s) < n {
			c := al[r.n(len(al))]
			if t == "char" && len(s)+len(string(c)) > n {
				c = 'q'
			}
			s += string(c)
		}
		return Val{T: t, S: s}
	case "octet":
		b := make([]byte, r.pick(0, 1, 2, 4, 5, 6, 7, 16, 252, 253, 254, 255, 300))
		for i := range b {
			b[i] = byte(r.u64())
		}
		return Val{T: t, B: b}
	case "bits":
		b := make([]byte, r.pick(0, 1, 1, 2, 3, 5, 10, 14, 15))
		for i := range b {
			b[i] = byte(r.u64())
		}
		un := 0
		if len(b) > 0 {
			un = r.n(8)
			b[len(b)-1] = b[len(b)-1] >> un << un
		}
		return Val{T: t, U: uint64(un), B: b}
	case "date":
		return Val{T: t, B: []byte{byte(r.pick(0, 90, 99, 100, 126, 254, 255)), byte(r.pick(1, 12, 13, 14, 255)), byte(r.pick(1, 31, 32, 255)), byte(r.pick(1, 7, 255))}}
	case "time":
		return Val{T: t, B: []byte{byte(r.pick(0, 12, 23, 255)), byte(r.pick(0, 59, 255)), byte(r.pick(0, 59, 255)), byte(r.pick(0, 1, 99, 255))}}
	case "oid":
		return vOid(Oid{uint32(r.pick(0, 1, 8, 127, 128, 1023)), uint32(r.pick(0, 1, 4194302, 4194303, r.n(4194303)))})
	case "dt":
		return Val{T: t, B: append(genVal(r, "date").B, genVal(r, "time").B...)}
	}
	panic("harness: genVal " + t)
}

// genVirt makes the property set of a device's virtual objects.
func genVirt(r *Rng) []Pr {
	ids := []uint32{propPV, propName, propDesc, propUnits, 74, 36, 103, 44, 22, 111, 75, 81, 141, 112, 4, 512, 513, 600, 70000, 4194303, 1000, 65535, 65536, 255, 256}
	var out []Pr
	k := 0
	next := func() uint32 { k++; return ids[(k-1)%len(ids)] }
	for i := 0; i < 8; i++ {
		t := nonceTypes[r.n(len(nonceTypes)-2)] // not bool, null: they carry no identity
		n := 1
		p := Pr{P: next(), Nonce: true, W: true}
		if r.one(4) {
			n = r.rng(0, 6)
			p.Arr = r.one(2)
		}
		for j := 0; j < n; j++ {
			v := Val{T: t}
			if t == "char" && r.one(4) {
				v.U = uint64(r.pick(3, 4, 5, 252, 253, 254, 255, 256, 400))
			}
			if t == "octet" && r.one(4) {
				v.U = uint64(r.pick(5, 6, 253, 254, 255, 256, 400))
			}
			p.V = append(p.V, v)
		}
		out = append(out, p)
	}
	for i := 0; i < 8; i++ {
		t := nonceTypes[r.n(len(nonceTypes))]
		p := Pr{P: next(), W: r.one(2)}
		n := 1
		if r.one(3) {
			n = r.rng(0, 5)
			p.Arr = r.one(2)
		}
		if n > 1 && r.one(4) { // long lists
			n = r.pick(16, 17, 33, 64, 100, 128, 200, 255, 256, 257, 300)
			t = r.str("uint", "enum", "bool", "null", "int")
		}
		for j := 0; j < n; j++ {
			p.V = append(p.V, genVal(r, t))
		}
		if n == 1 && r.one(10) {
			p.V[0], p.W = Val{T: "cs", U: uint64(r.pick(3, 5)), S: r.str("é", "abc", "caf\u00e9 12", "\u00ff\u00fe", "Zone \u00b0C")}, false
		}
		if n > 1 && r.one(2) { // a list of mixed types, such as a priority array
			for j := range p.V {
				if r.one(2) {
					p.V[j] = vNull()
				}
			}
		}
		out = append(out, p)
	}
	for i := 0; i < 2; i++ {
		p := Pr{P: next()}
		for j := r.rng(1, 4); j > 0; j-- {
			p.V = append(p.V, genVal(r, "dt"))
		}
		out = append(out, p)
	}
	out = append(out, genConstructed(r)...)
	if r.one(2) {
		return out
	}
	e := r.errPair()
	out = append(out, Pr{P: next(), Err: &[2]uint32{e[0], e[1]}})
	return out
}

// genConstructed makes properties of constructed types, as clause 21 has them.
func genConstructed(r *Rng) (out []Pr) {
	val := func(t string) Val { return genVal(r, t) }
	prims := []string{"bool", "uint", "int", "real", "double", "octet", "char", "bits", "enum", "date", "time", "oid", "null"}
	k := r.n(10)
	for i := 0; i < 2; i++ {
		var p Pr
		add := func(v ...Val) { p.V = append(p.V, v...) }
		n := r.rng(1, 3)
		switch (k + i*r.rng(1, 9)) % 10 {
		case 0: // event-time-stamps
			p.P = 130
			for ; n > 0; n-- {
				switch r.n(3) {
				case 0:
					add(val("time").ctx(0))
				case 1:
					add(val("uint").ctx(1))
				default:
					add(val("dt"))
				}
			}
		case 1: // expected-, actual- and requested-shed-level
			p.P = uint32(r.pick(212, 214, 218))
			switch r.n(3) {
			case 0:
				add(val("uint").ctx(0))
			case 1:
				add(val("uint").ctx(1))
			default:
				add(val("real").ctx(2))
			}
		case 2: // log-device-object-property
			p.P = 132
			add(val("oid").ctx(0), val("enum").ctx(1))
			if r.one(2) {
				add(val("uint").ctx(2))
			}
			if r.one(2) {
				add(val("oid").ctx(3))
			}
		case 3: // subordinate-list
			p.P = 211
			for ; n > 0; n-- {
				if r.one(2) {
					add(val("oid").ctx(0))
				}
				add(val("oid").ctx(1))
			}
		case 4: // recipient-list
			p.P = 102
			for ; n > 0; n-- {
				add(val("bits"), val("time"), val("time"))
				if r.one(3) {
					add(vOpen(1), val("uint"), Val{T: "octet", B: []byte{10, 0, 0, 7, 0xba, 0xc0}}, vClose(1))
				} else {
					add(val("oid").ctx(0))
				}
				add(val("uint"), val("bool"), val("bits"))
			}
		case 5: // action
			p.P = 2
			add(vOpen(0))
			for ; n > 0; n-- {
				if r.one(2) {
					add(val("oid").ctx(0))
				}
				add(val("oid").ctx(1), val("enum").ctx(2))
				if r.one(2) {
					add(val("uint").ctx(3))
				}
				add(vOpen(4), val(prims[r.n(len(prims))]), vClose(4))
				if r.one(2) {
					add(val("uint").ctx(5))
				}
				if r.one(2) {
					add(val("uint").ctx(6))
				}
				add(val("bool").ctx(7), val("bool").ctx(8))
			}
			add(vClose(0))
		case 6: // exception-schedule
			p.P = 38
			for ; n > 0; n-- {
				switch r.n(4) {
				case 0:
					add(vOpen(0), val("date").ctx(0).hidden(), vClose(0))
				case 1:
					add(vOpen(0), vOpen(1), val("date"), val("date"), vClose(1), vClose(0))
				case 2:
					add(vOpen(0), Val{T: "octet", B: []byte{byte(r.rng(1, 12)), byte(r.rng(1, 6)), byte(r.rng(1, 7))}}.ctx(2).hidden(), vClose(0))
				default:
					add(val("oid").ctx(1))
				}
				add(vOpen(2))
				for j := r.n(4); j > 0; j-- {
					add(val("time"), val(prims[r.n(len(prims))]))
				}
				add(vClose(2), val("uint").ctx(3))
			}
		case 7: // list-of-group-members
			p.P = 53
			for ; n > 0; n-- {
				add(val("oid").ctx(0), vOpen(1))
				for j := r.rng(1, 3); j > 0; j-- {
					add(val("enum").ctx(0).hidden())
					if r.one(2) {
						add(val("uint").ctx(1).hidden())
					}
				}
				add(vClose(1))
			}
		case 8: // active-cov-subscriptions
			p.P = 152
			for ; n > 0; n-- {
				add(vOpen(0), vOpen(0), val("oid").ctx(0).hidden(), vClose(0), val("uint").ctx(1).hidden(), vClose(0),
					vOpen(1), val("oid").ctx(0).hidden(), val("enum").ctx(1).hidden())
				if r.one(2) {
					add(val("uint").ctx(2).hidden())
				}
				add(vClose(1), val("bool").ctx(2), val("uint").ctx(3))
				if r.one(2) {
					add(val("real").ctx(4))
				}
			}
		default: // something of a vendor's own
			p.P = uint32(r.pick(520, 5000, 3000000))
			for ; n > 0; n-- {
				g := r.pick(0, 1, 3, 14, 15, 200)
				add(vOpen(g))
				for j := r.n(4); j > 0; j-- {
					v := val(prims[r.n(len(prims))])
					if r.one(2) {
						v = v.ctx(r.pick(0, 1, 2, 3, 4, 7, 12, 14, 15, 16, 254)).hidden()
					}
					add(v)
				}
				add(vClose(g))
				if r.one(2) {
					add(val(prims[r.n(len(prims))]).ctx(r.pick(0, 1, 2, 5, 30)).hidden())
				}
			}
		}
		if i == 1 && out[0].P == p.P {
			continue
		}
		out = append(out, p)
	}
	return
}

func genSched(r *Rng) Sched {
	s := Sched{Policy: uint32(r.pick(0, 0, 1, 2, 3, 3, 4))}
	s.PreemptDen = uint32(r.pick(0, 2, 3, 5, 10, 30, 100, 300))
	if r.one(4) {
		s.StallDen = uint32(r.pick(20, 100, 500))
		s.StallMaxNs = int64(r.pick(1, 20, 300)) * ms
		s.MaxStalls = uint32(r.rng(1, 6))
	}
	return s
}

type hostOpt struct {
	rpm, iam  bool
	routers   int // per cent chance of a router
	bbmd      int
	oddPort   bool
	maxDevs   int
	smallApdu bool
	longMac   bool
	oneIP     bool // all the devices on one computer
}

func genDev(r *Rng, id uint32, o hostOpt) Dev {
	d := Dev{IAmInfo: IAmInfo{ID: Oid{typeDevice, id}, Seg: uint32(r.n(4)), Vendor: uint32(r.pick(0, 5, 260, 1000, 65535))}}
	d.MaxApdu = uint32(r.pick(480, 1024, 1476, 1476))
	if o.smallApdu && r.one(2) {
		d.MaxApdu = uint32(r.pick(50, 128, 206, 480))
	}
	d.HoldUs = int64(r.pick(0, 0, 0, 100, 5000, 60000))
	d.Virt = genVirt(r)
	if o.iam {
		d.IAms = []int64{int64(r.pick(0, 100, 5000, 200000))}
		d.Bcast = r.one(2)
	}
	name := Obj{O: d.ID, P: []Pr{{P: propName, V: []Val{vStr("dev")}}}}
	d.Objs = []Obj{name}
	return d
}

func (p *Plan) genHosts(r *Rng, o hostOpt) {
	if o.maxDevs == 0 {
		o.maxDevs = 3
	}
	n := r.rng(1, o.maxDevs)
	id := uint32(r.pick(0, 1, 100, 65530, 4194000, 4194285))
	for i := 0; i < n; i++ {
		h := Host{IP: [4]byte{10, 0, 0, byte(1 + i)}, Port: 47808, Kind: "dev", DelayUs: int64(r.pick(0, 50, 300, 2000, 20000))}
		if o.oddPort && r.one(4) {
			h.Port = r.pick(47809, 47817, 50000, 1024)
		}
		if i > 0 && o.oddPort && (o.oneIP || r.one(5)) { // several devices on one computer
			h.IP, h.Port = p.Hosts[0].IP, 47809+i
		}
		d := genDev(r, id, o)
		id++
		h.Dev = &d
		p.Hosts = append(p.Hosts, h)
	}
	if r.n(100) < o.routers {
		h := Host{IP: [4]byte{10, 0, 0, 50}, Port: 47808, Kind: "router", DelayUs: int64(r.pick(50, 500, 4000))}
		num := uint16(r.pick(1, 2, 255, 256, 1000, 65533))
		for k := r.rng(1, 2); k > 0; k-- {
			net := RNet{Net: num}
			num++
			for m, c := 0, r.rng(1, 3); m < c; m++ {
				mac := []byte{byte(m*37 + r.n(30))}
				if o.longMac && r.one(3) {
					mac = make([]byte, r.pick(2, 3, 6, 7))
					for q := range mac {
						mac[q] = byte(r.u64())
					}
				}
				rd := RDev{Mac: mac, Dev: genDev(r, id, o)}
				id++
				net.Devs = append(net.Devs, rd)
			}
			h.Nets = append(h.Nets, net)
		}
		p.Hosts = append(p.Hosts, h)
	}
	if k := len(p.Hosts) - 1; p.Hosts[k].Kind == "router" && r.one(4) { // a router is often a device, too
		d := genDev(r, id, o)
		id++
		p.Hosts[k].Dev = &d
	}
	if r.n(100) < o.bbmd {
		b := Host{IP: [4]byte{10, 0, 0, 60}, Port: 47808, Kind: "bbmd", DelayUs: int64(r.pick(50, 500))}
		p.Hosts = append(p.Hosts, b)
		bi := len(p.Hosts)
		for k := r.rng(1, 2); k > 0; k-- {
			h := Host{IP: [4]byte{10, 0, byte(k), 9}, Port: 47808, Kind: "dev", DelayUs: int64(r.pick(300, 4000)), Via: bi}
			d := genDev(r, id, o)
			if len(d.IAms) > 0 {
				d.Bcast = r.one(3) == false
			}
			id++
			h.Dev = &d
			p.Hosts = append(p.Hosts, h)
		}
	}
}

// devs lists every simulated device with the coordinates an operation needs.
type devRef struct {
	h   int
	net uint16
	mac []byte
	d   *Dev
}

func (p *Plan) devs() (out []devRef) {
	for i := range p.Hosts {
		h := &p.Hosts[i]
		if h.Dev != nil {
			out = append(out, devRef{i, 0, nil, h.Dev})
		}
		for j := range h.Nets {
			for k := range h.Nets[j].Devs {
				x := &h.Nets[j].Devs[k]
				out = append(out, devRef{i, h.Nets[j].Net, x.Mac, &x.Dev})
			}
		}
	}
	return
}

type netOpt struct {
	loss, dup, delay, late, sendErr, sendSlow, recvErr  bool
	noReply, reject, abort, errReply, mutate, slow, cov bool
}

func (p *Plan) genNet(r *Rng, o netOpt) {
	rate := func(ok bool, xs ...int) int {
		if !ok || r.one(2) {
			return 0
		}
		return xs[r.n(len(xs))]
	}
	c := &p.Net
	if c.DelayMaxUs = int64(r.pick(500, 5000, 100000, 900000)); r.one(8) {
		return // calm: every call has to succeed
	}
	c.Loss = rate(o.loss, 30, 100, 250)
	c.Dup = rate(o.dup, 50, 200, 500)
	c.Delay = rate(o.delay, 100, 400, 900)
	c.Late = rate(o.late, 30, 120, 250)
	c.SendErr = rate(o.sendErr, 30, 150, 350)
	c.SendSlow = rate(o.sendSlow, 30, 150)
	c.RecvErr = rate(o.recvErr, 20, 100, 300)
	c.NoReply = rate(o.noReply, 30, 150)
	c.Reject = rate(o.reject, 30, 150)
	c.Abort = rate(o.abort, 30, 150)
	c.ErrReply = rate(o.errReply, 50, 300)
	c.Mutate = rate(o.mutate, 100, 400, 800)
	c.Slow = rate(o.slow, 50, 200)
	c.Cov = rate(o.cov, 200, 600)
}

// calm returns whether the plan has no fault at all.
func (p *Plan) calm() bool {
	n := p.Net
	n.DelayMaxUs, n.UntilMs = 0, 0
	return n == NetCfg{} && len(p.Win) == 0
}

func (p *Plan) genWin(r *Rng, kinds ...string) {
	if r.one(2) {
		return
	}
	for k := r.rng(1, 3); k > 0; k-- {
		from := int64(r.n(8000))
		v := Win{Kind: kinds[r.n(len(kinds))], Host: r.n(len(p.Hosts)), From: from, To: from + int64(r.pick(20, 400, 3000, 9000))}
		if v.Kind == "net-down" || v.Kind == "rx-down" { // the client's own interface
			v.Host = 0
			if r.one(3) {
				v.To += int64(r.n(40000))
			}
		}
		p.Win = append(p.Win, v)
	}
}

// opInst is the first of the eight object instances an operation owns.
func opInst(id, k int) uint32 { return uint32(virtBase + id*8 + k) }

func instOp(i uint32) int {
	if i < virtBase {
		return -1
	}
	return int(i-virtBase) / 8
}

var objTypes = []int{0, 1, 2, 3, 4, 5, 13, 14, 19, 20, 8, 10, 15, 17, 127, 128, 512, 1023}

func (r *Rng) spec(id, k, nprops int, virt []Pr, scalarOnly bool) Spec {
	s := Spec{O: Oid{uint32(objTypes[r.n(len(objTypes))]), opInst(id, k)}}
	for i := 0; i < nprops; i++ {
		v := &virt[r.n(len(virt))]
		q := PropRef{P: v.P, Idx: -1}
		if v.Arr && r.one(2) {
			q.Idx = int64(r.n(len(v.V) + 2))
		} else if r.one(30) {
			q.Idx = int64(r.pick(0, 1, 255, 256, 70000))
		} else if r.one(25) {
			q.P = uint32(r.pick(3, 99999)) // no such property
		}
		s.P = append(s.P, q)
	}
	return s
}

var writeTypes = []string{"uint", "enum", "int", "real", "double", "char", "oid", "bool", "null"}

func (r *Rng) wspec(id, k, nprops int, virt []Pr, multi bool) Spec {
	s := Spec{O: Oid{uint32(objTypes[r.n(len(objTypes))]), opInst(id, k)}}
	for i := 0; i < nprops; i++ {
		v := &virt[r.n(len(virt))]
		q := PropRef{P: v.P, Idx: -1}
		if v.Arr && r.one(2) {
			q.Idx = int64(r.n(len(v.V) + 2))
		}
		t := writeTypes[r.n(len(writeTypes))]
		if r.one(3) {
			q.P = propPV
		}
		if !multi && q.P == propPV && (s.O.T == 4 || s.O.T == 5) {
			t = r.str("uint", "uint", "null")
		}
		q.V = []Val{genVal(r, t)}
		if r.one(2) {
			q.Pri = uint32(r.rng(1, 16))
		}
		s.P = append(s.P, q)
	}
	return s
}

type txOpt struct {
	kinds   []string
	threads int
	ops     int
	gapUs   int
	builds  bool
	nprops  int
}

// genTx adds a concurrent workload of single transactions.
func (p *Plan) genTx(r *Rng, o txOpt) {
	ds := p.devs()
	th := r.rng(1, o.threads)
	if r.one(4) {
		th = o.threads
	}
	n := r.rng(1, o.ops)
	gap := r.pick(0, 100, o.gapUs)
	for t := 0; t < th; t++ {
		for i := 0; i < n; i++ {
			d := ds[r.n(len(ds))]
			op := Op{ID: len(p.Ops), Th: t, Kind: o.kinds[r.n(len(o.kinds))], Host: d.h, Net: d.net, Mac: d.mac}
			if gap > 0 {
				op.AtUs = int64(r.n(gap))
			}
			if o.builds {
				op.Build = r.str("", "", "nolen", "newdev", "newdevid")
				if len(d.mac) > 1 && op.Build[:min(3, len(op.Build))] == "new" {
					op.Build = "" // the constructor takes one-byte addresses only
				}
			}
			np := max(1, o.nprops)
			switch op.Kind {
			case "rp":
				op.S = []Spec{r.spec(op.ID, 0, 1, d.d.Virt, false)}
			case "wp":
				op.S = []Spec{r.wspec(op.ID, 0, 1, d.d.Virt, false)}
			case "rpm":
				for k, c := 0, r.rng(1, r.pick(1, 2, 4, 7)); k < c; k++ {
					op.S = append(op.S, r.spec(op.ID, k, r.rng(1, np), d.d.Virt, false))
				}
			case "wpm":
				for k, c := 0, r.rng(1, r.pick(1, 2, 4)); k < c; k++ {
					op.S = append(op.S, r.wspec(op.ID, k, r.rng(1, np), d.d.Virt, true))
				}
			}
			if isRead(op.Kind) && p.Cfg["recycle"] == 0 {
				if s := &op.S[r.n(len(op.S))]; r.one(20) {
					s.O = Oid{typeDevice, 4194303} // whichever device it is
					for i := range s.P {
						s.P[i] = PropRef{P: uint32(r.pick(propName, propName, propDesc, 70, 62, 75)), Idx: -1}
					}
				} else if op.Kind == "rpm" && r.one(8) {
					s.P[r.n(len(s.P))] = PropRef{P: uint32(r.pick(propAll, propRequired, propOptional)), Idx: -1}
				}
			}
			if r.one(6) || p.Cfg["recycle"] == 2 && !r.one(3) || p.Cfg["recycle"] == 3 && !r.one(8) {
				p.likeEarlier(r, &op)
			}
			p.Ops = append(p.Ops, op)
		}
	}
}

// likeEarlier makes a call ask the same as an earlier one, or something else
// about the same object.
func (p *Plan) likeEarlier(r *Rng, op *Op) {
	for try := 0; try < 8 && len(p.Ops) > 0; try++ {
		j := r.n(len(p.Ops))
		if n := r.n(min(len(p.Ops), 4)); p.Cfg["recycle"] != 0 && isTx(p.Ops[n].Kind) {
			j = n // few questions: one with the same invoke id was likely the same
			q := &p.Ops[n]
			if p.Cfg["recycle"] == 3 && isTx(p.Ops[0].Kind) { // everybody is asked one thing
				q = &p.Ops[0]
				b, _ := json.Marshal(q.S)
				op.Kind, op.S, op.MaxA = q.Kind, nil, q.MaxA
				json.Unmarshal(b, &op.S)
				return
			}
			if op.Kind != q.Kind || r.one(3) {
				b, _ := json.Marshal(q.S)
				op.Kind, op.S, op.MaxA = q.Kind, nil, q.MaxA
				json.Unmarshal(b, &op.S)
				if r.one(2) { // the same question to another device
					return
				}
			}
			op.Host, op.Net, op.Mac, op.Build = q.Host, q.Net, q.Mac, q.Build
		}
		q := &p.Ops[j]
		if !isTx(q.Kind) || q.Host != op.Host || q.Net != op.Net || string(q.Mac) != string(op.Mac) || q.Kind != op.Kind && r.one(2) {
			continue
		}
		if q.Kind == op.Kind && r.one(2) {
			b, _ := json.Marshal(q.S)
			op.S = nil
			json.Unmarshal(b, &op.S)
			if isRead(op.Kind) { // a little different
				s := &op.S[r.n(len(op.S))]
				switch q := &s.P[r.n(len(s.P))]; r.n(4) {
				case 0:
					s.O.T = uint32(objTypes[r.n(len(objTypes))])
				case 1:
					q.Idx = int64(r.rng(-1, 3))
				}
			}
			return
		}
		for k := range op.S {
			if k < len(q.S) {
				op.S[k].O.I = q.S[k].O.I
				if isRead(op.Kind) {
					op.S[k].O.T = q.S[k].O.T
				}
			} else {
				op.S[k].O.I = q.S[0].O.I - q.S[0].O.I%8 + uint32(k) // virtBase is a multiple of 8
			}
		}
		return
	}
}

func (p *Plan) addIAmNoise(r *Rng) {
	for k := r.n(4); k > 0; k-- {
		i := IAmInfo{ID: Oid{typeDevice, uint32(r.n(4194303))}, MaxApdu: 480, Seg: 3, Vendor: 7}
		p.inject(r, int64(r.n(3000000)), bvlc(0x0b, npduBytes(false, nil, nil, i.apdu())))
	}
}

func (p *Plan) inject(r *Rng, at int64, b []byte) {
	p.Inj = append(p.Inj, Inj{AtUs: at, IP: [4]byte{10, 0, 0, byte(200 + r.n(40))}, Port: 47808, Hex: hex.EncodeToString(b)})
}

// genPlan derives the whole plan of a run from the property and the seed.
func genPlan(prop string, seed uint64, tier string) *Plan {
	r := newRng(seed, hashStr(prop), 0xb4c)
	p := &Plan{Prop: prop, Seed: seed, Tier: tier, Cfg: map[string]int64{}}
	p.Sched = genSched(r)
	g, ok := generators[prop]
	if !ok {
		panic("harness: no generator for " + prop)
	}
	g(p, r)
	if c := newRng(seed, hashStr(prop), 0xcd1); c.one(3) {
		p.Cfg["cidr"] = int64(c.pick(8, 12, 16, 20, 22, 23, 25, 26, 27, 28, 29, 30))
		if c.one(2) {
			p.Cfg["ifname"] = 1
		}
	}
	if c := newRng(seed, hashStr(prop), 0xc10c); c.one(3) {
		for k := c.rng(1, 4); k > 0; k-- {
			by := int64(c.pick(300, 3000, 30_000, 3600_000, 86400_000, 366*86400_000))
			by = by/2 + int64(c.u64()%uint64(by))
			if c.one(2) {
				by = -by
			}
			p.Clock = append(p.Clock, Jump{AtMs: int64(c.n(c.pick(300, 3000, 12_000, 60_000))), ByMs: by})
		}
	}
	return p
}

var generators = map[string]func(*Plan, *Rng){}

// thorough runs are larger.
func (p *Plan) scale(n int) int {
	if p.Tier == "thorough" {
		return n * 2
	}
	return n
}
