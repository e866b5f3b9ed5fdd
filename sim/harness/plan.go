//go:build go1.23

package main

import "sort"

// Rng is the harness's own deterministic generator.
type Rng struct{ s uint64 }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func newRng(parts ...uint64) *Rng {
	s := uint64(0x9e3779b97f4a7c15)
	for _, p := range parts {
		s = mix64(s ^ p + 0x9e3779b97f4a7c15)
	}
	return &Rng{s}
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *Rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}
func (r *Rng) n(n int) int { // [0,n)
	if n <= 0 {
		return 0
	}
	return int(r.u64() % uint64(n))
}
func (r *Rng) rng(a, b int) int        { return a + r.n(b-a+1) } // [a,b]
func (r *Rng) pm(p int) bool           { return r.n(1000) < p }  // per mille
func (r *Rng) one(k int) bool          { return r.n(k) == 0 }
func (r *Rng) pick(xs ...int) int      { return xs[r.n(len(xs))] }
func (r *Rng) str(xs ...string) string { return xs[r.n(len(xs))] }

// ---- the plan of one simulated run: everything the run does is derived from it

type Plan struct {
	Prop  string `json:"prop"`
	Seed  uint64 `json:"seed"`
	Tier  string `json:"tier,omitempty"`
	Sched Sched  `json:"sched"`
	Net   NetCfg `json:"net"`
	Hosts []Host `json:"hosts,omitempty"`
	Ops   []Op   `json:"ops,omitempty"`
	Inj   []Inj  `json:"inj,omitempty"`
	Win   []Win  `json:"win,omitempty"`
	Clock []Jump `json:"clock,omitempty"`

	Cfg map[string]int64 `json:"cfg,omitempty"`
}

// Jump moves the wall clock at a moment of the run.
type Jump struct {
	AtMs int64 `json:"at"`
	ByMs int64 `json:"by"`
}

type Sched struct {
	Policy     uint32 `json:"policy"`
	PreemptDen uint32 `json:"preempt,omitempty"`
	StallDen   uint32 `json:"stall,omitempty"`
	StallMaxNs int64  `json:"stallmax,omitempty"`
	MaxStalls  uint32 `json:"stalls,omitempty"`
}

// NetCfg holds per-mille probabilities of faults drawn per event.
type NetCfg struct {
	Loss, Dup, Delay, Late int   `json:",omitempty"`
	DelayMaxUs             int64 `json:",omitempty"`
	SendErr, SendSlow      int   `json:",omitempty"`
	RecvErr                int   `json:",omitempty"`
	NoReply, Reject, Abort int   `json:",omitempty"`
	ErrReply               int   `json:",omitempty"`
	Mutate                 int   `json:",omitempty"`
	Slow                   int   `json:",omitempty"` // slow device: service takes seconds
	Cov                    int   `json:",omitempty"` // device sends its own confirmed request with the same invoke id
	UntilMs                int64 `json:",omitempty"` // faults stop here (0: never)
}

// Win is a time window in which a host is unreachable or down.
type Win struct {
	Kind string `json:"k"` // partition, crash, stall
	Host int    `json:"h"`
	From int64  `json:"from"` // ms
	To   int64  `json:"to"`
}

type Host struct {
	IP        [4]byte `json:"ip"`
	Port      int     `json:"port"`
	Kind      string  `json:"kind"` // dev, router, bbmd
	DelayUs   int64   `json:"delay"`
	Dev       *Dev    `json:"dev,omitempty"`
	Nets      []RNet  `json:"nets,omitempty"`
	Via       int     `json:"via,omitempty"` // dev: 1+index of the BBMD that forwards its broadcasts
	NetNum    uint16  `json:"netnum,omitempty"`
	NmDelayUs int64   `json:"nmdelay,omitempty"` // delay of network-layer answers
}

type RNet struct {
	Net  uint16 `json:"net"`
	Devs []RDev `json:"devs,omitempty"`
}

type RDev struct {
	Mac []byte `json:"mac"`
	Dev Dev    `json:"dev"`
}

type Dev struct {
	IAmInfo
	Objs   []Obj   `json:"objs,omitempty"`
	Virt   []Pr    `json:"virt,omitempty"`  // properties of the virtual objects
	IAms   []int64 `json:"iams,omitempty"`  // delays (us) of the I-Ams answering each Who-Is; empty: none
	Bcast  bool    `json:"bcast,omitempty"` // answers Who-Is by broadcast
	HoldUs int64   `json:"hold,omitempty"`  // service time
	Odd    *Odd    `json:"odd,omitempty"`
}

// Odd is an entry of a device's object list, or its length (At is 0), that is
// not what it has to be.
type Odd struct {
	At int64 `json:"at"`
	V  Val   `json:"v"`
}

type Obj struct {
	O Oid  `json:"o"`
	P []Pr `json:"p,omitempty"`
}

// Pr is one property of a simulated object.
type Pr struct {
	P     uint32     `json:"p"`
	V     []Val      `json:"v,omitempty"`
	Arr   bool       `json:"arr,omitempty"`
	Nonce bool       `json:"nonce,omitempty"` // every read returns a fresh value
	W     bool       `json:"w,omitempty"`     // writable
	Prio  bool       `json:"prio,omitempty"`  // commandable: has a priority array
	Held  *Val       `json:"held,omitempty"`  // the device itself commands it at priority 6
	Err   *[2]uint32 `json:"err,omitempty"`   // access fails with this error
}

// Op is one client call.
type Op struct {
	ID    int      `json:"id"`
	Th    int      `json:"th"`
	AtUs  int64    `json:"at"` // delay before the call, after the previous op of the thread
	Kind  string   `json:"kind"`
	Host  int      `json:"host,omitempty"`
	Net   uint16   `json:"net,omitempty"`
	Mac   []byte   `json:"mac,omitempty"`
	Build string   `json:"build,omitempty"` // how the target address is built
	MaxA  uint32   `json:"maxa,omitempty"`
	S     []Spec   `json:"s,omitempty"`
	A     int64    `json:"a,omitempty"`
	B     int64    `json:"b,omitempty"`
	C     int64    `json:"c,omitempty"`
	D     int64    `json:"d,omitempty"`
	Str   string   `json:"str,omitempty"`
	V     *Val     `json:"v,omitempty"`
	IAm   *IAmInfo `json:"iam,omitempty"`
}

// Inj is a datagram that arrives on the client's socket unasked.
type Inj struct {
	AtUs int64   `json:"at"`
	IP   [4]byte `json:"ip"`
	Port int     `json:"port"`
	Hex  string  `json:"hex"`
}

// Fault is one fault that fired: the N-th event of flow F.
type Fault struct {
	F string `json:"f"`
	N int    `json:"n"`
	K string `json:"k"`
	V int64  `json:"v,omitempty"`
}

type Job struct {
	Prop      string      `json:"prop"`
	Seed      uint64      `json:"seed"`
	Tier      string      `json:"tier,omitempty"`
	Plan      *Plan       `json:"plan,omitempty"`
	Replay    bool        `json:"replay,omitempty"`
	Faults    []Fault     `json:"faults,omitempty"`
	Decisions [][2]uint64 `json:"decisions,omitempty"`
	Trace     bool        `json:"trace,omitempty"`
	PlanOnly  bool        `json:"plan_only,omitempty"`
	Stream    bool        `json:"stream,omitempty"` // report every fault as it fires (for runs that crash)
	Strict    bool        `json:"strict,omitempty"` // judge with a margin what cannot be measured exactly
}

type Viol struct {
	Prop string `json:"prop"`
	Sig  string `json:"sig"`
	Msg  string `json:"msg"`
}

type Result struct {
	OK         bool           `json:"ok"`
	Harness    string         `json:"harness,omitempty"` // harness trouble, not a verdict
	Viols      []Viol         `json:"viols,omitempty"`
	Plan       *Plan          `json:"plan,omitempty"`
	Faults     []Fault        `json:"faults,omitempty"`
	Decisions  [][2]uint64    `json:"decisions,omitempty"`
	Overflow   bool           `json:"overflow,omitempty"`
	Trace      []string       `json:"trace,omitempty"`
	LogHash    uint64         `json:"loghash"`
	SchedHash  uint64         `json:"schedhash"`
	HistHash   uint64         `json:"histhash"`
	SimNs      int64          `json:"simns"`
	Steps      uint64         `json:"steps"`
	Choices    uint64         `json:"choices"`
	Preempts   uint64         `json:"preempts"`
	Stalls     uint64         `json:"stalls"`
	Switches   uint64         `json:"switches"`
	Kinds      map[string]int `json:"kinds,omitempty"`
	Probes     map[string]int `json:"probes,omitempty"`
	Cov        []byte         `json:"cov,omitempty"`
	Sample     string         `json:"sample,omitempty"`
	Nontrivial bool           `json:"nontrivial"`
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
