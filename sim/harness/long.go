package main

import (
	"fmt"
	"runtime"
	"time"
)

// sample is what the application holds and has done when everything has
// settled after a phase.
type sample struct {
	goroutines, fds, heap    int
	updates, renders, writes int
	bytes, reads, ioctls     int
	dur                      time.Duration
}

// heapStep is by how much the heap must grow in every phase to count: well
// above what the harness itself may keep.
const heapStep = 1 << 10

// maxPhases is how many phases there are when something has grown in each of
// the phases of a scenario: short writes and the like, and what the scheduler
// happens to do, make counts vary, and a few of them may well be in order.
const maxPhases = 18

// long runs the same operations again and again, in one run of the application
// or in one run each, and checks that nothing grows from phase to phase.
func (a *appRun) long() {
	rc, s, k := a.rc, a.sc, a.rc.k
	all := make([]sample, 0, maxPhases)
	var last sample
	count := func() sample {
		return sample{updates: a.updates, renders: a.renders, writes: k.nwrite, bytes: k.outBytes, reads: k.nread, ioctls: k.nioctl}
	}
	phases := s.Phases
	for n := 0; n < phases; n++ {
		if s.Again {
			a.again()
			a.launch()
			a.wait(settleTime)
			last = sample{writes: k.nwrite, bytes: k.outBytes, reads: k.nread, ioctls: k.nioctl}
		}
		t, from := rc.now(), len(rc.log)
		for i := range s.Ops {
			op := &s.Ops[i]
			a.wait(us(op.After))
			if a.doneF {
				return
			}
			a.do(op)
		}
		a.wait(settleTime)
		if a.doneF || a.caused {
			return
		}
		if s.Again {
			k.push(inSeg{b: []byte(quitKeys), gap: true})
			a.wait(settleTime)
			if !a.doneF {
				return // another property's business
			}
		}
		runtime.SimWait()
		if a.inProgress() > 0 {
			return
		}
		// what the harness remembers does not count
		a.insts, a.seen, a.named, a.typed = nil, nil, nil, nil
		rc.log = append(make([]ev, 0, 2000), rc.log[max(from, len(rc.log)-100):]...)
		c := count()
		all = append(all, sample{
			goroutines: len(runtime.SimBlocked()), fds: k.openFds(), heap: heap(), dur: rc.now() - t,
			updates: c.updates - last.updates, renders: c.renders - last.renders, writes: c.writes - last.writes,
			bytes: c.bytes - last.bytes, reads: c.reads - last.reads, ioctls: c.ioctls - last.ioctls,
		})
		last = c
		rc.ev("sample", all[n].goroutines, all[n].updates, fmt.Sprint(all[n].fds, all[n].renders, all[n].writes, all[n].bytes, all[n].reads, all[n].ioctls))
		if n == s.Phases-1 && grown(all) != nil {
			phases = maxPhases
		}
	}
	rc.probe("checked")
	if x := grown(all); x != nil {
		what := "the same activity in one run"
		if s.Again {
			what = "the same run of an application"
		}
		if x.step > 1 { // bytes are never exactly the same
			rc.bad("P35", x.code, "%s, %d times over: %s every time", what, len(all), x.name)
			return
		}
		vs := []int{}
		for _, v := range all[1:] {
			vs = append(vs, x.of(v))
		}
		rc.bad("P35", x.code, "%s, %d times over: %s every time: %v", what, len(all), x.name, vs)
	}
}

// growth is something that must not grow by at least step in every phase.
type growth struct {
	code, name string
	step       int
	of         func(sample) int
}

var growths = []growth{
	{"goroutines", "there are more goroutines", 1, func(x sample) int { return x.goroutines }},
	{"descriptors", "more descriptors are open", 1, func(x sample) int { return x.fds }},
	{"memory", "more memory is in use", heapStep, func(x sample) int { return x.heap }},
	{"updates", "more messages are handled", 1, func(x sample) int { return x.updates }},
	{"renders", "more frames are drawn", 1, func(x sample) int { return x.renders }},
	{"writes", "more is written to the terminal", 1, func(x sample) int { return x.writes }},
	{"bytes", "more is written to the terminal", 1, func(x sample) int { return x.bytes }},
	{"reads", "the terminal is read more often", 1, func(x sample) int { return x.reads }},
	{"ioctls", "the terminal is asked more often", 1, func(x sample) int { return x.ioctls }},
}

// grown returns what has grown in every phase but the first, if anything has.
func grown(all []sample) *growth {
next:
	for i := range growths {
		x := &growths[i]
		for n := 2; n < len(all); n++ {
			if x.of(all[n]) < x.of(all[n-1])+x.step {
				continue next
			}
		}
		return x
	}
	return nil
}

// again makes a run ready to be launched again.
func (a *appRun) again() {
	a.in, a.gen, a.lastGen, a.drawn = "", 0, 0, -1
	a.inited, a.updates, a.renders, a.frame, a.frameRes = false, 0, 0, nil, 0
	a.lastSize, a.sizes, a.insts = nil, 0, nil
	a.causes, a.caused, a.causeT = map[string]bool{}, false, 0
	a.err, a.model, a.busy = nil, nil, 0
}

func heap() int {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// genLong makes a phase of operations to be repeated.
func genLong(r *rng, s *AppSc, o specOpts) {
	s.Phases = r.in(7, 9)
	s.Again = r.p(30)
	s.Graceful = false
	s.K.ShortReads, s.K.ShortWrites, s.K.EINTR = pick(r, 0, 0, s.K.ShortReads), pick(r, 0, 0, s.K.ShortWrites), pick(r, 0, 0, s.K.EINTR)
	s.SlowPct = 0
	s.W, s.H = min(s.W, 30), min(s.H, 10) // thousands of frames are drawn
	s.Ops = nil
	for n := r.in(1, 5); n > 0; n-- {
		op := Op{After: pick(r, 0, 0, 1, 1000, 50000)}
		switch r.n(5) {
		case 0, 1:
			op.Kind, op.Key = "key", r.n(o.specs)
		case 2:
			op.Kind, op.W, op.H = "resize", r.in(0, 40), r.in(0, 12)
		case 3:
			in := genBytes(r)
			op.Kind, op.In = "input", &in[0]
		case 4:
			op.Kind, op.Dur = "stall", pick(r, 1000, 100000)
		}
		reps := pick(r, 1, 1, 3, 12)
		if op.In != nil && len(op.In.S) > 20 {
			reps = min(reps, 3) // every byte may be an event of its own
		}
		for ; reps > 0; reps-- {
			s.Ops = append(s.Ops, op)
		}
	}
}
