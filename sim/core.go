//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"sync"
	"time"
)

// ---------------------------------------------------------------- randomness

// Rng is a splitmix64 generator; everything the harness decides is drawn from
// one of these, seeded by the plan.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9e3779b97f4a7c15 + 0x51ed2701} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) I64(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return int64(r.U64() % uint64(n))
}

// Range returns a value in [lo, hi].
func (r *Rng) Range(lo, hi int) int       { return lo + r.N(hi-lo+1) }
func (r *Rng) Range64(lo, hi int64) int64 { return lo + r.I64(hi-lo+1) }
func (r *Rng) P(pct int) bool             { return r.N(100) < pct }
func (r *Rng) Fork(tag uint64) *Rng       { return NewRng(r.U64() ^ tag*0x9e3779b97f4a7c15) }
func pick[T any](r *Rng, list ...T) T     { return list[r.N(len(list))] }
func shuffle[T any](r *Rng, list []T) {
	for i := len(list) - 1; i > 0; i-- {
		j := r.N(i + 1)
		list[i], list[j] = list[j], list[i]
	}
}

// -------------------------------------------------------------------- plan

// Plan is one fully determined execution: workload, fault schedule, scheduler
// seed. It is what a replay file holds.
type Plan struct {
	Prop     string           `json:"prop"`
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Sched    Sched            `json:"sched"`
	Knobs    map[string]int64 `json:"knobs,omitempty"`
	Ops      []Op             `json:"ops"`
	Faults   []Fault          `json:"faults"`
}

type Sched struct {
	Seed       uint64 `json:"seed"`
	Mode       uint32 `json:"mode"`
	YieldMean  uint32 `json:"yield_mean"`
	StallPpm   uint32 `json:"stall_ppm"`
	StallMaxNs int64  `json:"stall_max_ns"`
	PoolMiss   uint32 `json:"pool_miss"`
}

// Op is one step of the workload. Scenarios use the fields they need.
type Op struct {
	At    int64   `json:"at"` // ns after start
	Kind  string  `json:"kind"`
	Inst  int     `json:"inst,omitempty"`
	Conn  int     `json:"conn,omitempty"` // >0: shared keep-alive connection, 0: own connection
	Fmt   string  `json:"fmt,omitempty"`
	Spans []LSpan `json:"spans,omitempty"`
	Style uint64  `json:"style,omitempty"`

	Gzip    bool   `json:"gzip,omitempty"`
	Chunked bool   `json:"chunked,omitempty"`
	Chunk   int    `json:"chunk,omitempty"` // bytes per write, 0 = all at once
	Gap     int64  `json:"gap,omitempty"`   // ns between writes
	Cut     int    `json:"cut,omitempty"`   // 1..999: body is cut at this per mille
	CutMode string `json:"cut_mode,omitempty"`
	Flip    int    `json:"flip,omitempty"` // 1..999: byte at this per mille is damaged
	Bad     string `json:"bad,omitempty"`
	Per     int    `json:"per,omitempty"` // bulk: spans per trace
	Raw     []byte `json:"raw,omitempty"`

	N   int64   `json:"n,omitempty"`
	M   int64   `json:"m,omitempty"`
	D   int64   `json:"d,omitempty"`
	S   string  `json:"s,omitempty"`
	Arr []int64 `json:"arr,omitempty"`
}

type Fault struct {
	Kind string `json:"kind"`
	Node int    `json:"node,omitempty"` // broker, -1 for all
	Inst int    `json:"inst,omitempty"`
	From int64  `json:"from"`
	To   int64  `json:"to,omitempty"`
	Arg  int64  `json:"arg,omitempty"`
	S    string `json:"s,omitempty"`
}

func (p *Plan) Knob(name string, def int64) int64 {
	if v, ok := p.Knobs[name]; ok {
		return v
	}
	return def
}

// ------------------------------------------------------------------ history

type Violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

type World struct {
	Plan  *Plan
	Start int64 // simulated clock at the start of the workload
	mu    sync.Mutex
	seq   int
	hash  uint64
	log   []string
	viols []Violation

	Probes map[string]int64
	Fired  map[string]int64
	Net    *Net
	done   chan struct{}

	gcMisses, gcStmts uint64
	gcCalls           int
}

func NewWorld(p *Plan) *World {
	w := &World{Plan: p, hash: 14695981039346656037, Probes: map[string]int64{}, Fired: map[string]int64{},
		done: make(chan struct{})}
	w.Net = NewNet(w, p.Seed)
	return w
}

// Now is the simulated time since the start of the run.
func (w *World) Now() int64 { return runtime.SimNow() - w.Start }

// Log appends an event to the recorded history.
func (w *World) Log(format string, args ...any) int {
	line := fmt.Sprintf(format, args...)
	w.mu.Lock()
	w.seq++
	n := w.seq
	line = fmt.Sprintf("%12.6f #%d %s", float64(w.Now())/1e9, n, line)
	for i := 0; i < len(line); i++ {
		w.hash = (w.hash ^ uint64(line[i])) * 1099511628211
	}
	if len(w.log) < 200000 {
		w.log = append(w.log, line)
	}
	w.mu.Unlock()
	w.collect()
	return n
}

// collect runs the collector, at points that the seed determines.
func (w *World) collect() {
	st := runtime.SimStats()
	w.mu.Lock()
	w.gcCalls++
	gc := st.PoolMisses-w.gcMisses > 10000 || st.Statements-w.gcStmts > 20e6 || w.gcCalls > 30000
	if gc {
		w.gcMisses, w.gcStmts, w.gcCalls = st.PoolMisses, st.Statements, 0
	}
	w.mu.Unlock()
	if gc {
		runtime.GC()
	}
}

func (w *World) Seq() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seq++
	return w.seq
}

func (w *World) Fail(prop, kind, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	w.Log("VIOLATION %s/%s %s", prop, kind, msg)
	w.mu.Lock()
	if len(w.viols) < 50 {
		w.viols = append(w.viols, Violation{prop, kind, msg})
	}
	w.mu.Unlock()
}

func (w *World) Probe(name string, n int64) {
	w.mu.Lock()
	w.Probes[name] += n
	w.mu.Unlock()
}

func (w *World) Fire(name string) {
	w.mu.Lock()
	w.Fired[name]++
	w.mu.Unlock()
}

type Result struct {
	Violations []Violation           `json:"violations"`
	Stats      runtime.SimStatistics `json:"stats"`
	EventHash  string                `json:"event_hash"`
	SchedHash  string                `json:"sched_hash"`
	Events     int                   `json:"events"`
	SimSeconds float64               `json:"sim_seconds"`
	Probes     map[string]int64      `json:"probes"`
	Fired      map[string]int64      `json:"fired"`
	Log        []string              `json:"log,omitempty"`
	Trouble    string                `json:"trouble,omitempty"`
}

var resultOut *os.File
var wantLog bool

func (w *World) Finish() {
	st := runtime.SimStats()
	w.mu.Lock()
	if st.Stalls > 0 {
		w.Fired["clock_stall_in_code"] += int64(st.Stalls)
	}
	if st.PoolMisses > 0 {
		w.Fired["sync_pool_miss"] += int64(st.PoolMisses)
	}
	sort.SliceStable(w.viols, func(i, j int) bool { return w.viols[i].Prop < w.viols[j].Prop })
	res := Result{Violations: w.viols, Stats: st, EventHash: fmt.Sprintf("%016x", w.hash),
		SchedHash: fmt.Sprintf("%016x", st.Hash), Events: w.seq, SimSeconds: float64(w.Now()) / 1e9,
		Probes: w.Probes, Fired: w.Fired}
	if wantLog {
		res.Log = w.log
	}
	w.mu.Unlock()
	writeResult(res)
	os.Exit(0)
}

func writeResult(res Result) {
	os.SimExit = nil
	out, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "TROUBLE", err)
		os.Exit(4)
	}
	resultOut.Write(append(out, '\n'))
}

// trouble reports a defect of the harness (never a violation).
func trouble(format string, args ...any) {
	os.SimExit = nil
	fmt.Fprintf(os.Stderr, "TROUBLE "+format+"\n", args...)
	os.Exit(4)
}

func sleepUntil(w *World, at int64) {
	if d := at - w.Now(); d > 0 {
		time.Sleep(time.Duration(d))
	}
}

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)
