package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/muesli/termenv"
)

// Sched configures the scheduler for one run.
type Sched struct {
	Seed      uint64
	MapSeed   uint64
	Policy    int
	Preempt   uint32
	Changes   uint32
	SelRandom bool
	HotOnly   bool

	Replay   bool     `json:",omitempty"`
	Preempts []uint64 `json:",omitempty"`
	Choices  []uint64 `json:",omitempty"`
}

// Scenario is everything about a run except the schedule. Exactly one of the
// pointers is set.
type Scenario struct {
	Prop  string
	Seed  uint64   // kernel decisions, frame contents
	App   *AppSc   `json:",omitempty"`
	Term  *TermSc  `json:",omitempty"`
	Lay   *LaySc   `json:",omitempty"`
	View  *ViewSc  `json:",omitempty"`
	Share *ShareSc `json:",omitempty"`
}

// Viol is one violated property.
type Viol struct {
	Prop string
	Code string
	Msg  string
}

// Outcome is the result of one run.
type Outcome struct {
	Viols   []Viol
	Stats   runtime.SimStats
	SimTime time.Duration
	Faults  map[string]int
	Probes  map[string]int
	Trace   []string
	Trivial bool // nothing the property is about happened
	Digest  uint64
}

// runCtx is the state of the run in progress.
type runCtx struct {
	sc    *Scenario
	k     *kernel
	start time.Time

	viols  []Viol
	log    []ev
	probes map[string]int
	digest uint64
	stuck  bool // something hangs that cannot be ended

	end time.Duration // simulated time when the run ended

	profile termenv.Profile

	app *appRun
}

// ev is one entry of the recorded history.
type ev struct {
	t    time.Duration
	kind string
	a, b int
	s    string
}

var cur *runCtx

// y is a preemption point in harness code.
func y() { runtime.SimY(0) }

func (rc *runCtx) now() time.Duration { return time.Since(rc.start) }

func (rc *runCtx) ev(kind string, a, b int, s string) int {
	t := rc.now()
	h := rc.digest
	mix := func(v uint64) { h = (h ^ v) * 0x100000001b3 }
	mix(uint64(t))
	for i := 0; i < len(kind); i++ {
		mix(uint64(kind[i]))
	}
	mix(uint64(a))
	mix(uint64(b))
	for i := 0; i < len(s); i++ {
		mix(uint64(s[i]))
	}
	rc.digest = h
	rc.log = append(rc.log, ev{t, kind, a, b, s})
	return len(rc.log) - 1
}

// reportAs makes a check report a suspected violation of another property, to
// look into it.
var reportAs = os.Getenv("SIM_AS")

func (rc *runCtx) bad(prop, code, f string, a ...any) {
	if reportAs != "" && reportAs == prop+"/"+code {
		prop = job.Prop
	}
	if prop != job.Prop {
		rc.probes["other:"+prop+"/"+code]++
		rc.ev("suspect", 0, 0, prop+"/"+code)
		return
	}
	if len(rc.viols) < 200 {
		rc.viols = append(rc.viols, Viol{prop, code, fmt.Sprintf(f, a...)})
		rc.ev("violation", 0, 0, prop+"/"+code)
	}
}

func (rc *runCtx) probe(name string) { rc.probes[name]++ }

type simPanic struct{ what string }

// setup prepares kernel and environment for a run on a w x h terminal.
func (rc *runCtx) setup(cfg KernelCfg, w, h int, term, colorterm string) {
	for _, e := range []string{"NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "CI", "TERM_PROGRAM", "GOOGLE_CLOUD_SHELL", "COLORFGBG", "WT_SESSION"} {
		os.Unsetenv(e)
	}
	os.Setenv("TERM", term)
	os.Setenv("COLORTERM", colorterm)
	rc.k = newKernel(rc, cfg, w, h, rc.sc.Seed)
	rc.k.install()
	rc.findProfile()
}

const stepLimit = 200_000_000

// execute runs one scenario under one schedule.
func execute(sc *Scenario, sd *Sched) (out Outcome) {
	rc := &runCtx{sc: sc, probes: map[string]int{}, digest: 0xcbf29ce484222325}
	cur = rc
	limit := uint64(stepLimit)
	if sc.App != nil && sc.App.Phases > 0 {
		limit *= 2
	}
	runtime.SimStart(&runtime.SimConfig{Seed: sd.Seed, MapSeed: sd.MapSeed, Policy: sd.Policy, Preempt: sd.Preempt,
		Changes: sd.Changes, SelRandom: sd.SelRandom, HotOnly: sd.HotOnly, StepLimit: limit,
		Replay: sd.Replay, Preempts: sd.Preempts, Choices: sd.Choices})
	runtime.SimBubble(func() {
		rc.start = time.Now()
		switch {
		case sc.App != nil:
			runApp(rc)
		case sc.Term != nil:
			runTerm(rc)
		case sc.Lay != nil:
			runLay(rc)
		case sc.View != nil:
			runViews(rc)
		case sc.Share != nil:
			runShare(rc)
		}
		rc.end = rc.now()
		if len(rc.viols) > 0 || rc.stuck { // goroutines may be left: the run cannot be unwound
			finish(rc, runtime.SimStop())
		}
	})
	return outcome(rc, runtime.SimStop())
}

func outcome(rc *runCtx, st runtime.SimStats) Outcome {
	out := Outcome{Viols: rc.viols, Stats: st, SimTime: rc.end, Probes: rc.probes, Digest: rc.digest}
	if rc.k != nil {
		out.Faults = rc.k.faults
	}
	out.Trivial = rc.trivial()
	return out
}

func (rc *runCtx) trace() []string {
	var out []string
	log := rc.log
	if len(log) > 400 {
		out = append(out, fmt.Sprintf("... %d earlier entries left out", len(log)-400))
		log = log[len(log)-400:]
	}
	for _, e := range log {
		out = append(out, fmt.Sprintf("%-12v %-10s %d %d %s", e.t, e.kind, e.a, e.b, e.s))
	}
	if rc.k != nil && len(rc.k.stderr) > 0 {
		out = append(out, "standard error:", string(rc.k.stderr))
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func goroutines() string {
	var b strings.Builder
	for _, g := range runtime.SimBlocked() {
		fmt.Fprintf(&b, "[%d %s: %s] ", g.ID, g.Created, g.Wait)
	}
	return b.String()
}

// genSched derives a schedule configuration from a seed.
func genSched(seed uint64) Sched {
	r := newRng(seed, 0x5ced)
	s := Sched{Seed: r.next() >> 1, MapSeed: r.next() >> 1}
	s.Policy = pick(r, 0, 1, 1, 2, 3, 3)
	s.Preempt = uint32(pick(r, 0, 0, 2, 4, 10, 30, 100, 400))
	s.SelRandom = r.p(80)
	s.HotOnly = r.p(80)
	return s
}

// trivial says whether nothing the property is about happened in the run.
func (rc *runCtx) trivial() bool {
	any := func(names ...string) bool {
		for _, n := range names {
			if rc.probes[n] > 0 {
				return false
			}
		}
		return true
	}
	a := rc.app
	if a == nil {
		return any("checked")
	}
	switch rc.sc.Prop {
	case "P01":
		for _, in := range a.insts {
			if in.returnsMsg() && in.ends > 0 {
				return false
			}
		}
		return true
	case "P02", "P04":
		return len(a.insts) == 0
	case "P03":
		return any("sequence_step")
	case "P05":
		return a.updates < 2
	case "P06", "P07", "P08", "P13":
		return any("returned")
	case "P09":
		return !a.causes["panic"]
	case "P10":
		return any("settled")
	case "P11":
		return any("frame_compared", "checked")
	case "P12":
		return any("inputs_compared")
	case "P33":
		return any("name_compared")
	case "P14":
		return any("tick_fired")
	}
	return any("checked")
}

// valid says whether the harness can run a (minimised) scenario faithfully.
func (sc *Scenario) valid() bool {
	switch {
	case sc.App != nil:
		return sc.App.valid()
	case sc.Term != nil:
		return sc.Term.valid()
	case sc.Lay != nil:
		return sc.Lay.valid()
	case sc.View != nil:
		return sc.View.valid()
	case sc.Share != nil:
		return sc.Share.valid()
	}
	return false
}

func (s *AppSc) valid() bool {
	ok := (s.Phases == 0 || s.Phases >= 7) && s.Phases <= 40 && s.W >= 0 && s.H >= 0 && s.W <= 300 && s.H <= 100 && s.Upd >= 0 && s.Draw >= 0 && s.CtxAt >= 0
	var spec func(c *CSpec)
	spec = func(c *CSpec) {
		if c.Dur < 0 || c.Dur > 10_000_000_000_000 || c.Then < 0 {
			ok = false
		}
		for i := range c.Kids {
			spec(&c.Kids[i])
		}
	}
	if s.Init != nil {
		spec(s.Init)
	}
	for i := range s.Specs {
		spec(&s.Specs[i])
	}
	for _, o := range s.Ops {
		if o.In != nil && !o.In.valid() || o.Kind == "input" && o.In == nil {
			ok = false
		}
		if o.Key < 0 || o.Key > 12 || o.W < 0 || o.H < 0 || o.After < 0 || o.Dur < 0 {
			ok = false
		}
	}
	for _, b := range s.Bytes {
		ok = ok && b.valid()
	}
	if s.Wid != nil {
		ok = ok && s.Wid.Settle >= 0
		for _, it := range s.Wid.W {
			if it.X < 0 || it.Y < 0 || it.W < 0 || it.H < 0 || it.Hold < 0 || it.FPS < 0 || it.Start < 0 || it.T == "throbber" && it.FPS < 5000 {
				ok = false
			}
		}
	}
	return ok
}

func (in *Input) valid() bool {
	for _, c := range in.Cuts {
		if c < 6 {
			return false
		}
	}
	return in.N >= 0 && in.X >= 0 && in.Y >= 0 && in.After >= 0
}
