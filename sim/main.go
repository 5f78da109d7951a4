//go:build go1.22

// The simulator: one process is one simulated execution.
//
//	sim gen PROP SEED        prints the plan
//	sim one PROP SEED        generates the plan and runs it
//	sim run PLAN.json [-v]   runs a plan
//
// The result is one line of JSON on standard output.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"strconv"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
)

// scenario runs a plan to its end.
var scenarios = map[string]func(w *World){}

// generators derive a plan from a seed, per property.
var generators = map[string]func(r *Rng, p *Plan){}

func init() {
	scenarios["system"] = runSystem
}

func generate(prop string, seed uint64) *Plan {
	g := generators[prop]
	if g == nil {
		trouble("unknown property %s", prop)
	}
	h := uint64(0)
	for _, c := range prop {
		h = h*131 + uint64(c)
	}
	r := NewRng(seed ^ h<<32)
	p := &Plan{Prop: prop, Seed: seed, Knobs: map[string]int64{}, Ops: []Op{}, Faults: []Fault{}}
	p.Sched = genSched(r.Fork(1))
	g(r.Fork(2), p)
	// how the proxy is started must not matter
	if v := r.Fork(3); p.Scenario == "system" || p.Scenario == "kafka" || p.Scenario == "stop" || p.Scenario == "stopkafka" {
		if v.P(8) {
			p.Knobs["verbose"] = 1
		}
		if v.P(20) {
			p.Knobs["main"] = 1
		}
	}
	if v := r.Fork(4); p.Scenario == "system" && v.P(6) {
		addPause(v, p)
	}
	return p
}

// addPause inserts a long time in which no request comes. An outage of the
// agent at that moment lasts as long.
func addPause(r *Rng, p *Plan) {
	if len(p.Ops) == 0 || p.Knobs["max_sim"] != 0 {
		return
	}
	at := p.Ops[r.N(len(p.Ops))].At
	var away []Fault
	for _, f := range p.Faults {
		if f.Kind == "agent" || f.Kind == "agentlink" {
			away = append(away, f)
		}
	}
	if len(away) > 0 && r.P(70) {
		f := away[r.N(len(away))]
		at = r.Range64(f.From, f.To)
	}
	d := pick(r, r.Range64(70*sec, 900*sec), r.Range64(900*sec, 4*3600*sec))
	for i := range p.Ops {
		if p.Ops[i].At > at {
			p.Ops[i].At += d
		}
	}
	for i := range p.Faults {
		f := &p.Faults[i]
		if f.From > at {
			f.From += d
			if f.To > 0 {
				f.To += d
			}
		} else if f.To > at && (f.Kind == "agent" || f.Kind == "agentlink") {
			f.To += d
		}
	}
	p.Knobs["pause"] = d
	p.Knobs["max_sim"] = 1800*sec + d
}

func main() {
	if runtime.GOMAXPROCS(0) != 1 || os.Getenv("GOGC") != "off" {
		trouble("must run with GOMAXPROCS=1 GOGC=off")
	}
	// A run takes less than 0.9 GB. One that wants more than this ends as a
	// proxy does that runs out of memory, and not with the whole machine.
	lim := uint64(3200 << 20)
	if err := syscall.Setrlimit(2 /* RLIMIT_DATA */, &syscall.Rlimit{Cur: lim, Max: lim}); err != nil {
		trouble("%v", err)
	}
	resultOut = os.Stdout
	devnull, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		trouble("%v", err)
	}
	os.Stdout = devnull
	if len(os.Args) < 2 {
		trouble("usage")
	}
	var plan *Plan
	switch os.Args[1] {
	case "gen", "one":
		seed, err := strconv.ParseUint(os.Args[3], 10, 64)
		if err != nil {
			trouble("%v", err)
		}
		plan = generate(os.Args[2], seed)
		if os.Args[1] == "gen" {
			b, _ := json.MarshalIndent(plan, "", " ")
			resultOut.Write(append(b, '\n'))
			return
		}
		// the plan takes the same way as a replayed one
		b, _ := json.Marshal(plan)
		plan = &Plan{}
		if err := json.Unmarshal(b, plan); err != nil {
			trouble("%v", err)
		}
	case "run":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			trouble("%v", err)
		}
		plan = &Plan{}
		if err := json.Unmarshal(b, plan); err != nil {
			trouble("%v", err)
		}
	default:
		trouble("usage")
	}
	for _, a := range os.Args[2:] {
		if a == "-v" {
			wantLog = true
		}
	}
	// whatever the code logs is thrown away: a flood of messages must not flood the machine
	log.SetOutput(io.Discard)
	logrus.SetOutput(io.Discard)
	scen := scenarios[plan.Scenario]
	if scen == nil {
		trouble("unknown scenario %q", plan.Scenario)
	}
	w := NewWorld(plan)
	limit := int64(40_000_000)
	if plan.Scenario == "cache" {
		limit = 8_000_000
	}
	runtime.SimStart(runtime.SimConfig{
		Seed: plan.Sched.Seed, Mode: plan.Sched.Mode, YieldMean: plan.Sched.YieldMean,
		StallPpm: plan.Sched.StallPpm, StallMaxNs: plan.Sched.StallMaxNs, PoolMiss: plan.Sched.PoolMiss,
		StmtLimit: plan.Knob("stmt_limit", limit),
		Livelock: func() {
			w.Report("livelock", "the proxy executes code without end: %d statements without any progress of time", runtime.SimStats().Statements)
			w.Finish()
		},
	})
	w.Start = runtime.SimNow()
	clockBase = time.Now()
	go func() {
		time.Sleep(time.Duration(plan.Knob("max_sim", 1800*sec)))
		w.mu.Lock()
		w.mu.Unlock()
		w.Report("wedge", "the run did not come to its end within %d simulated seconds", plan.Knob("max_sim", 1800*sec)/sec)
		w.Finish()
	}()
	scen(w)
	w.Finish()
}

func debugf(format string, args ...any) { fmt.Fprintf(os.Stderr, format+"\n", args...) }
