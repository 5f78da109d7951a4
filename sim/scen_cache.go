//go:build go1.22

package main

import (
	"math"
	"runtime"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/cache"
	"github.com/rcrowley/go-metrics"
)

// Scenario "cache": concurrent users of the shared string cache whose buffers
// are overwritten afterwards, and a single LRU cache against a model.
//
// ops: use   by worker Conn: M lookups of strings drawn with Style; S = copy, nocopy, string
//      lrumem N strings of D bytes into a cache of size M
//      lru   N operations on a cache of size M, drawn with Style

func init() { scenarios["cache"] = runCache }

const (
	cacheLimit = 5 * 1024 * 1024
	entryExtra = 512 // generous bound of what an entry costs besides its text
)

func cacheText(r *Rng, set int) []byte {
	k := uint64(r.N(set))
	t := NewRng(k * 7919)
	n := pick(t, 1, 2, 3, 8, 17, 40, t.Range(1, 200), 64)
	if set > 1000 {
		n = pick(t, t.Range(1, 200), t.Range(500, 6000), t.Range(1, 20000))
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + t.N(26))
	}
	// texts that share long prefixes and suffixes
	s := itoa(int(k))
	if t.P(50) {
		return append(b, s...)
	}
	return append([]byte(s), b...)
}

func runCache(w *World) {
	reg := metrics.NewRegistry()
	cache.RegisterCacheMetrics(reg)
	size := func() int64 {
		g, ok := reg.Get("binary.cache.size").(metrics.Gauge)
		if !ok {
			trouble("no gauge binary.cache.size")
		}
		return g.Value()
	}
	largest := 0
	// what was handed out, and what it has to be
	type given struct{ got, want string }
	var kept []given
	type worker struct {
		ops []*Op
	}
	workers := map[int]*worker{}
	var order []int
	var lru []*Op
	for i := range w.Plan.Ops {
		op := &w.Plan.Ops[i]
		if op.Kind == "lrumem" {
			checkLRUMemory(w, op)
			continue
		}
		if op.Kind == "lru" {
			lru = append(lru, op)
			continue
		}
		if workers[op.Conn] == nil {
			workers[op.Conn] = &worker{}
			order = append(order, op.Conn)
		}
		workers[op.Conn].ops = append(workers[op.Conn].ops, op)
	}
	running := 0
	for _, c := range order {
		wk := workers[c]
		running++
		go func() {
			defer func() { running-- }()
			buf := make([]byte, 0, 64*1024)
			var mine []given
			for _, op := range wk.ops {
				sleepUntil(w, op.At)
				r := NewRng(op.Style)
				for k := int64(0); k < op.M; k++ {
					text := cacheText(r, int(op.N))
					if r.P(1) {
						text = nil
					}
					want := string(text)
					if len(text) > largest {
						largest = len(text)
					}
					var got string
					switch op.S {
					case "copy": // the buffer is used again at once
						buf = append(buf[:0], text...)
						if op.D > 0 { // a buffer of exactly this size
							buf = append(make([]byte, 0, len(text)), text...)
						}
						got = cache.StringForByteSliceCopy(buf)
						mine = append(mine, given{got, want})
						for i := range buf {
							buf[i] = '#'
						}
					case "nocopy":
						got = cache.StringForByteSliceNoCopy(text)
						mine = append(mine, given{got, want})
					default:
						got = cache.String(want)
						mine = append(mine, given{got, strings.Clone(want)})
					}
					if got != want {
						w.Report("cache", "looking up %.60q returned %.60q", want, got)
						return
					}
					w.Probe("cache_lookups", 1)
				}
				if n := size(); n > cacheLimit+int64(largest)+entryExtra {
					w.Report("cache-size", "the cache holds %d bytes, its limit is %d", n, cacheLimit)
				} else if n > cacheLimit/2 {
					w.Probe("cache_half_full", 1)
					if n > cacheLimit-20000 {
						w.Probe("cache_full", 1)
					}
				}
			}
			kept = append(kept, mine...)
		}()
	}
	for running > 0 {
		sleepNs(ms)
	}
	for _, g := range kept {
		if g.got != g.want {
			w.Report("cache", "a string handed out as %.60q is now %.60q", g.want, g.got)
			break
		}
	}
	distinct, text := map[string]bool{}, 0
	used := 0
	for _, g := range kept {
		if g.want != "" {
			used++
			if !distinct[g.want] {
				distinct[g.want] = true
				text += len(g.want)
			}
		}
	}
	one := cache.NewLRUCache(1 << 30)
	one.Set("x")
	if total := text + len(distinct)*(one.Size()-1); total < cacheLimit && len(w.viols) == 0 { // nothing was evicted
		n := int64(len(distinct))
		get := func(name string) int64 { return reg.Get(name).(metrics.Gauge).Value() }
		if c := get("binary.cache.count"); c != n {
			w.Report("cache-gauge", "the metric binary.cache.count is %d, the cache was used for %d different strings", c, n)
		}
		if c := size(); c != int64(total) {
			w.Report("cache-gauge", "the metric binary.cache.size is %d, %d strings with %d bytes are in the cache", c, n, text)
		}
		rate := reg.Get("binary.cache.hit.rate").(metrics.GaugeFloat64).Value()
		if len(order) == 1 && used > 0 {
			if want := float64(used-len(distinct)) / float64(used); rate < want-1e-6 || rate > want+1e-6 {
				w.Report("cache-gauge", "the metric binary.cache.hit.rate is %f, %d of %d lookups were hits", rate, used-len(distinct), used)
			}
		} else if used > 0 && rate > float64(used-len(distinct))/float64(used)+1e-6 {
			w.Report("cache-gauge", "the metric binary.cache.hit.rate is %f, at most %d of %d lookups were hits", rate, used-len(distinct), used)
		}
		if again := reg.Get("binary.cache.hit.rate").(metrics.GaugeFloat64).Value(); math.IsNaN(rate) || math.IsNaN(again) || math.IsInf(again, 0) {
			w.Report("cache-gauge", "the metric binary.cache.hit.rate is %f, and %f without lookups", rate, again)
		}
		w.Probe("metric_cache", 1)
	}
	for _, op := range lru {
		checkLRU(w, op)
	}
	w.Log("%d strings checked", len(kept))
}

// checkLRUMemory measures what a cache of size M really holds after N different
// strings of D bytes.
func checkLRUMemory(w *World, op *Op) {
	heap := func() int64 {
		for i := 0; i < 3; i++ {
			runtime.GC()
			sleepNs(ms)
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	before := heap()
	c := cache.NewLRUCache(int(op.M))
	for i := uint64(0); i < uint64(op.N); i++ {
		b := make([]byte, op.D)
		for k, v := 0, i^op.Style; k < len(b); k++ {
			b[k] = byte(v)
			v >>= 8
		}
		c.Set(string(b))
	}
	if n := heap() - before; n > 4*op.M+100_000 {
		w.Report("cache-size", "the LRU cache with a limit of %d bytes holds %d bytes of memory after %d strings of %d bytes", op.M, n, op.N, op.D)
	}
	w.Probe("lru_memory", 1)
	runtime.KeepAlive(c)
}

// checkLRU compares an LRU cache with a list model. How much an entry costs
// is measured, not assumed.
func checkLRU(w *World, op *Op) {
	probe := cache.NewLRUCache(1 << 30)
	probe.Set("x")
	overhead := probe.Size() - 1
	c := cache.NewLRUCache(int(op.M))
	var list []string // most recently used first
	r := NewRng(op.Style)
	sum := func() int {
		n := 0
		for _, s := range list {
			n += len(s) + overhead
		}
		return n
	}
	find := func(s string) int {
		for i := range list {
			if list[i] == s {
				return i
			}
		}
		return -1
	}
	touch := func(i int) {
		s := list[i]
		copy(list[1:i+1], list[:i])
		list[0] = s
	}
	for k := int64(0); k < op.N; k++ {
		s := string(cacheText(r, int(op.D)))
		i := find(s)
		if r.P(50) {
			got := c.Get(s)
			if i < 0 && got != "" {
				w.Report("cache", "the LRU cache still has %.40q, which had to be evicted", s)
				return
			}
			if i >= 0 && got != s {
				w.Report("cache", "the LRU cache returns %.40q for %.40q, which is one of its %d most recently used entries", got, s, len(list))
				return
			}
			if i >= 0 {
				touch(i)
			}
		} else {
			c.Set(s)
			if i >= 0 {
				touch(i)
			} else {
				for len(list) > 0 && sum() >= int(op.M) {
					list = list[:len(list)-1]
					w.Probe("lru_evictions", 1)
				}
				list = append([]string{s}, list...)
			}
		}
		w.Probe("lru_ops", 1)
		if c.Count() != len(list) {
			w.Report("cache-size", "the LRU cache has %d entries, %d fit (limit %d)", c.Count(), len(list), op.M)
			return
		}
		if c.Size() > int(op.M)+len(s)+overhead+20000 {
			w.Report("cache-size", "the LRU cache holds %d bytes, its limit is %d", c.Size(), op.M)
			return
		}
	}
}

func genCache(r *Rng, p *Plan) {
	p.Scenario = "cache"
	p.Sched.YieldMean = pick(r, uint32(1), 2, 4, 10, 40)
	p.Knobs["stmt_limit"] = 400_000_000
	if r.P(70) {
		set := int64(pick(r, 1, 2, 5, 30, 300, 3000))
		calls := 150
		if set == 3000 {
			calls = 800
		}
		for c := r.Range(1, 6); c > 0; c-- {
			at := int64(0)
			for k := r.Range(1, 4); k > 0; k-- {
				p.Ops = append(p.Ops, Op{Kind: "use", At: at, Conn: c, M: int64(r.Range(1, calls)), N: set, D: int64(r.N(2)),
					S: pick(r, "copy", "copy", "nocopy", "string"), Style: r.U64() >> 16})
				at += r.I64(3)
			}
		}
	}
	if r.P(3) {
		p.Sched.YieldMean = 0
		p.Ops = append(p.Ops, Op{Kind: "lrumem", N: r.Range64(10_000, 40_000), M: r.Range64(100_000, 300_000), D: int64(r.Range(3, 8)), Style: r.U64() >> 48})
	}
	if len(p.Ops) == 0 || r.P(40) {
		p.Ops = append(p.Ops, Op{Kind: "lru", N: int64(r.Range(10, 1500)), M: int64(pick(r, 1, 2, 60, 200, 1000, 5000, r.Range(1, 20000))),
			D: int64(pick(r, 1, 2, 5, 30, 300)), Style: r.U64() >> 16})
	}
}
