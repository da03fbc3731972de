// Deterministic simulation support, added to package runtime by the build
// overlay of /verif (never part of a shipped build).
//
// In simulation mode every goroutine of the current synctest bubble is kept
// in one queue owned by the simulator instead of the P run queues, and the
// simulator decides who runs next, where a running goroutine is preempted,
// which ready select case wins, which of several timers due at the same
// instant fires first and what every map's random seed is. All decisions come
// from one PRNG, and the ones that differ from the default (first in queue,
// no preemption, source order) are recorded so that a run can be replayed and
// minimised.

package runtime

import "unsafe"

const (
	simMaxQ   = 1 << 14
	simMaxRec = 1 << 18
)

// SimConfig configures one simulated run.
type SimConfig struct {
	Seed      uint64 // scheduling decisions
	MapSeed   uint64 // map hash seeds and iteration order, other runtime randomness
	Policy    int    // 0 fifo, 1 random, 2 sticky random, 3 PCT-like priorities
	Preempt   uint32 // mean number of statements between preemptions; 0: none
	Changes   uint32 // PCT: mean number of statements between priority changes
	SelRandom bool   // permute select cases
	HotOnly   bool   // preempt only in files with concurrency in them
	StepLimit uint64 // statements per run before the run is declared stuck

	Replay   bool
	Preempts []uint64 // replay: steps (1-based) at which to preempt
	Choices  []uint64 // replay: choice index<<24 | value
}

// SimStats is what one run did.
type SimStats struct {
	Steps, Choices, Switches, Preempted, Goroutines uint64
	Hash                                            uint64
	Overflow                                        bool
}

type simStateT struct {
	q  [simMaxQ]guintptr
	qn int

	on     bool // a run is in progress
	limit  bool // the step limit was hit
	replay bool

	cfg   SimConfig
	rng   uint64
	mrng  uint64
	steps uint64
	hot   uint64 // steps that may be preempted
	next  uint64 // step of the next preemption
	cp    uint64 // choice points passed
	sw    uint64
	pre   uint64
	ids   uint64
	hash  uint64
	over  bool

	lastRun uint64 // simid that ran last

	recP  [simMaxRec]uint64
	recPn int
	recC  [simMaxRec]uint64
	recCn int
	repP  int
	repC  int
}

var sim simStateT

// simSites counts, per statement site, how often it was reached.
var simSites [1 << 15]uint32

// SimLimitHook, when set, is called (on the goroutine that ran too far) once
// the step limit of a run is exceeded. It must not return.
var SimLimitHook func()

//go:nosplit
func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simMine(gp *g) bool { return sim.on && gp.bubble != nil }

// SimStart begins a run: decisions made from now on for bubbled goroutines
// follow cfg.
func SimStart(cfg *SimConfig) {
	s := &sim
	if poolcleanup != nil { // what earlier runs left in a sync.Pool
		mp := acquirem()
		poolcleanup()
		poolcleanup()
		releasem(mp)
	}
	s.cfg = *cfg
	s.qn = 0
	s.rng = cfg.Seed*0x2545f4914f6cdd1d + 0x1234567
	s.mrng = cfg.MapSeed*0x2545f4914f6cdd1d + 0x7654321
	s.hot = 0
	s.steps, s.cp, s.sw, s.pre, s.ids, s.lastRun = 0, 0, 0, 0, 0, 0
	s.hash = 0xcbf29ce484222325
	s.recPn, s.recCn, s.repP, s.repC = 0, 0, 0, 0
	s.over, s.limit = false, false
	s.replay = cfg.Replay
	s.next = 0
	if !s.replay {
		simArm()
	}
	s.on = true
}

// SimStop ends the run.
func SimStop() SimStats {
	s := &sim
	s.on = false
	s.cfg.Preempts, s.cfg.Choices = nil, nil
	return SimStats{Steps: s.steps, Choices: s.cp, Switches: s.sw, Preempted: s.pre, Goroutines: s.ids, Hash: s.hash, Overflow: s.over}
}

// SimTrace returns the decisions of the run that differ from the default.
func SimTrace() (preempts, choices []uint64) {
	preempts = append(preempts, sim.recP[:sim.recPn]...)
	choices = append(choices, sim.recC[:sim.recCn]...)
	return
}

// SimSiteCounts returns the statement hit counters.
func SimSiteCounts() []uint32 { return simSites[:] }

// SimSteps returns the number of statements executed so far in this run.
func SimSteps() uint64 { return sim.steps }

// SimSelf returns the simulator's id of the current goroutine.
func SimSelf() uint64 { return getg().simid }

// SimBubble runs f in a new bubble; it panics if f returns while goroutines
// started in the bubble are still blocked.
func SimBubble(f func()) { synctestRun(f) }

// SimWait waits until every other goroutine of the bubble is blocked.
func SimWait() { synctestWait() }

// SimLive returns the number of goroutines of the current bubble, the root
// and the caller included.
func SimLive() int {
	b := getg().bubble
	if b == nil {
		return 0
	}
	return b.total
}

// SimGoroutine describes one live bubbled goroutine.
type SimGoroutine struct {
	ID      uint64
	Wait    string
	Created string
}

// SimBlocked lists the goroutines of the current bubble other than the root
// and the caller.
func SimBlocked() []SimGoroutine {
	b := getg().bubble
	me := getg()
	var out []SimGoroutine
	for _, gp := range allgs {
		if gp.bubble != b || gp == me || gp == b.root || gp == b.main || readgstatus(gp) == _Gdead {
			continue
		}
		name := ""
		if f := findfunc(gp.startpc); f.valid() {
			name = funcname(f)
		}
		out = append(out, SimGoroutine{gp.simid, gp.waitreason.String(), name})
	}
	return out
}

//go:nosplit
func simArm() {
	s := &sim
	if s.cfg.Preempt == 0 {
		s.next = ^uint64(0)
		return
	}
	// uniform on [1, 2*mean-1] keeps the mean and stays integer-only
	s.next = s.hot + 1 + simNext(&s.rng)%uint64(2*s.cfg.Preempt-1)
}

// SimYC is the preemption point inserted before every statement of files
// that contain no concurrency.
func SimYC(site uint32) { simY(site, !sim.cfg.HotOnly) }

// SimY is the preemption point inserted before every other statement of the
// code under test.
func SimY(site uint32) { simY(site, true) }

// SimAfter is a preemption point after the operation that gave v.
func SimAfter[T any](v T, site uint32) T {
	simY(site, true)
	return v
}

func simY(site uint32, hot bool) {
	gp := getg()
	if !sim.on || gp.bubble == nil {
		return
	}
	s := &sim
	s.steps++
	gp.simsite = site
	simSites[site&(1<<15-1)]++
	if s.steps > s.cfg.StepLimit && !s.limit {
		s.limit = true
		if h := SimLimitHook; h != nil {
			h()
		}
		throw("simulation step limit")
	}
	if !hot {
		return
	}
	s.hot++
	if s.replay {
		if s.repP >= len(s.cfg.Preempts) || s.cfg.Preempts[s.repP] > s.hot {
			return
		}
		for s.repP < len(s.cfg.Preempts) && s.cfg.Preempts[s.repP] <= s.hot {
			s.repP++
		}
	} else {
		if s.hot < s.next {
			return
		}
		simArm()
	}
	if s.qn == 0 {
		return
	}
	simRecP(s.hot)
	s.pre++
	if s.cfg.Policy == 3 {
		// a priority change point: the running goroutine drops behind
		gp.simprio = simNext(&s.rng) >> 1 >> (s.pre & 31)
	}
	mcall(gosched_m)
}

//go:nosplit
func simRecP(v uint64) {
	if sim.recPn < simMaxRec {
		sim.recP[sim.recPn] = v
		sim.recPn++
	} else {
		sim.over = true
	}
}

//go:nosplit
func simRecC(i, v uint64) {
	if sim.recCn < simMaxRec {
		sim.recC[sim.recCn] = i<<24 | v
		sim.recCn++
	} else {
		sim.over = true
	}
}

// simChoose passes a choice point with n alternatives; want is what the
// policy would take (ignored in replay).
//
//go:nosplit
func simChoose(n, want uint64) uint64 {
	s := &sim
	i := s.cp
	s.cp++
	v := want
	if s.replay {
		v = 0
		for s.repC < len(s.cfg.Choices) && s.cfg.Choices[s.repC]>>24 < i {
			s.repC++
		}
		if s.repC < len(s.cfg.Choices) && s.cfg.Choices[s.repC]>>24 == i {
			v = (s.cfg.Choices[s.repC] & (1<<24 - 1)) % n
			s.repC++
		}
	}
	if v != 0 {
		simRecC(i, v)
	}
	return v
}

// simPut makes a bubbled goroutine runnable.
//
//go:nosplit
//go:nowritebarrierrec
func simPut(gp *g) {
	if sim.qn == simMaxQ {
		throw("simulation run queue full")
	}
	sim.q[sim.qn].set(gp)
	sim.qn++
}

// simGet picks the bubbled goroutine to run next, or returns nil.
//
//go:nosplit
func simGet() *g {
	s := &sim
	if s.qn == 0 {
		return nil
	}
	k := 0
	if s.qn > 1 {
		var want uint64
		if !s.replay {
			switch s.cfg.Policy {
			case 1:
				want = simNext(&s.rng) % uint64(s.qn)
			case 2:
				if simNext(&s.rng)%4 == 0 {
					want = simNext(&s.rng) % uint64(s.qn)
				}
			case 3:
				var best uint64
				for i := 0; i < s.qn; i++ {
					if p := s.q[i].ptr().simprio; p > best {
						best, want = p, uint64(i)
					}
				}
			}
		}
		k = int(simChoose(uint64(s.qn), want))
	}
	gp := s.q[k].ptr()
	for i := k + 1; i < s.qn; i++ {
		s.q[i-1] = s.q[i]
	}
	s.qn--
	if gp.simid != s.lastRun {
		s.sw++
		s.lastRun = gp.simid
		s.hash = (s.hash ^ (gp.simid<<32 | uint64(gp.simsite))) * 0x100000001b3
	}
	return gp
}

// simNewG is called for every goroutine created in a bubble.
//
//go:nosplit
func simNewG(gp *g) {
	gp.simid, gp.simsite, gp.simprio = 0, 0, 0
	if sim.on && gp.bubble != nil {
		sim.ids++
		gp.simid = sim.ids
		gp.simprio = 1<<62 | simNext(&sim.rng)>>2
	}
}

// simSelect replaces the random permutation step of selectgo.
//
//go:nosplit
func simSelect(norder int) uint32 {
	if norder == 0 {
		return 0
	}
	var want uint64
	if !sim.replay && sim.cfg.SelRandom {
		want = simNext(&sim.rng) % uint64(norder+1)
	}
	return uint32(uint64(norder) - simChoose(uint64(norder+1), want))
}

// simTimer orders timers that are due at the same instant.
//
//go:nosplit
func simTimer() uint32 {
	var want uint64
	if !sim.replay && sim.cfg.Policy != 0 {
		want = simNext(&sim.rng) & 3
	}
	return uint32(simChoose(4, want))
}

//go:nosplit
func simRand() uint64 { return simNext(&sim.mrng) }

var _ unsafe.Pointer
