// Added to package runtime by the verification build overlay (never part of
// the shipped binary). It turns the Go scheduler of a single-P process into a
// seeded, fully deterministic simulator: one PRNG decides which goroutine runs
// next, which ready select case wins, how maps iterate and where goroutines
// yield; the clock is simulated and only moves when nothing is runnable (or
// when a stall fault says so).

package runtime

import (
	"internal/runtime/sys"
	"unsafe"
)

var (
	simOn         bool
	simRandState  uint64 // stream for select/map/math-rand
	simSchedState uint64 // stream for scheduling decisions
	simSchedMode  uint32
	simSalt       uint64
	simSaltLeft   uint32

	simYieldOn     bool
	simYieldLeft   uint32
	simYieldMean   uint32
	simStallPpm    uint32
	simStallMaxNs  int64
	simStalls      uint64
	simStallNs     uint64
	simCodeStallNs uint64

	simVictim     uint64 // goroutine that is held back
	simVictimLeft uint32
	simHoldMask   uint64
	simSiteMask   uint64 // statements at which a goroutine is held back
	simSiteSalt   uint64
	simSiteCount  [64]uint8

	simPoolMissPct uint32
	simPoolMisses  uint64

	simWallOff int64

	simHash      uint64
	simSteps     uint64
	simChoices   uint64
	simYields    uint64
	simStmts     uint64
	simStmtsMark int64 // faketime at which simStmtsLeft was last refilled
	simStmtsLeft int64 = 1 << 62
	simStmtsMax  int64 = 1 << 62
	simLivelock  func()
)

// SimConfig configures the simulated scheduler.
type SimConfig struct {
	Seed       uint64
	Mode       uint32 // 0 fifo, 1 uniform random, 2 mostly fifo, 3 random priorities, 4 one goroutine is held back, 5 held back at some statements
	YieldMean  uint32 // mean number of instrumented statements between forced yields, 0 = off
	StallPpm   uint32 // per forced yield, chance (in 1e-6) that the clock jumps while code is running
	StallMaxNs int64
	PoolMiss   uint32 // percent of sync.Pool gets that miss
	StartNanos int64  // initial simulated clock
	StmtLimit  int64  // instrumented statements without progress of the clock before Livelock is called
	Livelock   func()
}

// a run whose stalls add up to more than this is merely overloaded
const simStallBudget = 8e9

func SimStart(c SimConfig) {
	simRandState = c.Seed*0x9e3779b97f4a7c15 + 0x1234567
	simSchedState = c.Seed ^ 0xd1b54a32d192ed03
	simSchedMode = c.Mode
	simSalt = simNext(&simSchedState)
	simSaltLeft = 64
	simHoldMask = 1<<(4+simNext(&simSchedState)%7) - 1 // once in 16 .. 1024 yields
	simSiteMask = 1<<(3+simNext(&simSchedState)%7) - 1 // one statement in 8 .. 512
	simSiteSalt = simNext(&simSchedState)
	simYieldMean = c.YieldMean
	simYieldLeft = 1
	simStallPpm = c.StallPpm
	simStallMaxNs = c.StallMaxNs
	simPoolMissPct = c.PoolMiss
	if c.StartNanos > faketime {
		faketime = c.StartNanos
	}
	simStmtsMark = faketime
	simStmtsMax = c.StmtLimit
	simStmtsLeft = c.StmtLimit
	simLivelock = c.Livelock
	simHash = 14695981039346656037
	simOn = true
	simYieldOn = true
}

type SimStatistics struct {
	Hash, Steps, Choices, Yields, Statements, Stalls, StallNs, PoolMisses uint64
}

func SimStats() SimStatistics {
	return SimStatistics{simHash, simSteps, simChoices, simYields, simStmts, simStalls, simStallNs, simPoolMisses}
}

func SimNow() int64            { return faketime }
func SimSetWallOffset(d int64) { simWallOff = d }

// SimStall moves the simulated clock forward without running anything else,
// like a paused process does.
func SimStall(d int64) {
	if d > 0 {
		simStallNs += uint64(d)
		faketime += d
	}
}

// Groups of goroutines: those of one simulated process. Goroutines inherit the
// group of the one that starts them.
var simEnded [64]unsafe.Pointer

func SimGroup() unsafe.Pointer { return getg().labels }

func SimGroupEnd(p unsafe.Pointer) {
	for i := range simEnded {
		if simEnded[i] == nil {
			simEnded[i] = p
			return
		}
	}
}

// simGhost parks a goroutine that panics after the end of its process.
func simGhost() {
	gp := getg()
	if simOn && gp.labels != nil {
		for _, p := range simEnded {
			if p == gp.labels {
				gopark(nil, nil, waitReasonZero, traceBlockForever, 1)
			}
		}
	}
}

//go:nosplit
func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand() uint64 { return simNext(&simRandState) }

// SimYield is inserted before every statement of the code under test.
func SimYield() {
	if simYieldOn {
		simYieldSlow()
	}
}

func simYieldSlow() {
	simStmts++
	simStmtsLeft--
	if simStmtsLeft <= 0 {
		if faketime != simStmtsMark {
			simStmtsMark = faketime
			simStmtsLeft = simStmtsMax
		} else if f := simLivelock; f != nil {
			simLivelock = nil
			f()
		}
	}
	if simSchedMode == 5 {
		h := uint64(sys.GetCallerPC()) ^ simSiteSalt
		if v := simNext(&h); v&simSiteMask == 0 && simSiteCount[v>>58] < 100 && (simSiteSalt&1 == 0 || (getg().goid*0x9e3779b97f4a7c15^simSiteSalt)>>40&3 == 0) {
			if r := simNext(&simSchedState); r&1 == 0 {
				simSiteCount[v>>58]++
				simYields++
				if simStallPpm != 0 && simCodeStallNs < simStallBudget && r>>20&15 == 0 {
					simStalls++
					d := int64(simNext(&simSchedState) % uint64(simStallMaxNs))
					simStallNs += uint64(d)
					simCodeStallNs += uint64(d)
					timeSleep(d)
				} else if r>>30&3 != 0 {
					timeSleep(1 << (r >> 40 % 13)) // until nothing else can run, or nearly so
				} else {
					goyield()
				}
				return
			}
		}
	}
	if simYieldMean == 0 {
		return
	}
	simYieldLeft--
	if simYieldLeft != 0 {
		return
	}
	simYieldLeft = 1 + uint32(simNext(&simSchedState)%uint64(2*simYieldMean))
	simYields++
	if simStallPpm != 0 && simCodeStallNs < simStallBudget && simNext(&simSchedState)%1000000 < uint64(simStallPpm) {
		simStalls++
		d := int64(simNext(&simSchedState) % uint64(simStallMaxNs))
		simStallNs += uint64(d)
		simCodeStallNs += uint64(d)
		if simNext(&simSchedState)&1 == 0 {
			faketime += d
		} else { // only this goroutine pauses
			timeSleep(d)
			return
		}
	}
	if simSchedMode == 4 && simVictimLeft == 0 {
		// hold this goroutine back while the others go on
		if r := simNext(&simSchedState); r&simHoldMask == 0 {
			if r>>40&3 != 0 { // until nothing else can run
				timeSleep(1 << (r >> 42 % 13))
				return
			}
			simVictim = getg().goid
			simVictimLeft = 1 + uint32(r>>16)%(16<<((r>>12)%10))
		}
	}
	goyield()
}

// simPoolMiss is called by sync.Pool.Get.
//
//go:linkname simPoolMiss
func simPoolMiss() bool {
	if simOn && simPoolMissPct != 0 && simNext(&simRandState)%100 < uint64(simPoolMissPct) {
		simPoolMisses++
		return true
	}
	return false
}

// simPick chooses which of the n goroutines queued on pp runs next.
func simPick(pp *p, h, n uint32) uint32 {
	simSteps++
	k := uint32(0)
	if n > 1 {
		simChoices++
		switch simSchedMode {
		case 1:
			k = uint32(simNext(&simSchedState) % uint64(n))
		case 2:
			r := simNext(&simSchedState)
			if r&7 == 0 {
				k = uint32((r >> 8) % uint64(n))
			}
		case 4, 5:
			if r := simNext(&simSchedState); r&15 == 0 {
				k = uint32((r >> 8) % uint64(n))
			}
			if simVictimLeft > 0 {
				simVictimLeft--
				if pp.runq[(h+k)%uint32(len(pp.runq))].ptr().goid == simVictim {
					k = (k + 1) % n
				}
			}
		case 3:
			simSaltLeft--
			if simSaltLeft == 0 {
				r := simNext(&simSchedState)
				simSaltLeft = 1 + uint32(r%256)
				simSalt = r
			}
			best := uint64(0)
			for i := uint32(0); i < n; i++ {
				s := pp.runq[(h+i)%uint32(len(pp.runq))].ptr().goid ^ simSalt
				if p := simNext(&s); p >= best {
					best = p
					k = i
				}
			}
		}
	}
	return k
}
