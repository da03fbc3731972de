// The simulation worker: runs scenarios against the real code under the
// simulated runtime and reports what it saw. Built by cmd/simctl.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
)

// Job is what the driver asks a worker to do.
type Job struct {
	Mode  string // search, try
	Prop  string
	Tier  string
	Seed  uint64 // base seed
	From  int
	Step  int
	Until int   // runs
	MS    int64 // wall-clock budget in milliseconds; 0: none
	Twice int   // the first Twice runs are done twice and compared

	Cases []Case // mode try: run these until one violates Prop (with Code)
	Code  string
	Trace bool
}

// Case is one scenario with one schedule.
type Case struct {
	Scenario Scenario
	Sched    Sched
}

// Report is what a worker answers, one JSON value per line.
type Report struct {
	Start   *int    `json:",omitempty"` // about to run this index
	Viol    *Found  `json:",omitempty"`
	Done    *Totals `json:",omitempty"`
	Error   string  `json:",omitempty"`
	Restart bool    `json:",omitempty"` // go on after the last Start index in a new process
}

// Found is a violation.
type Found struct {
	Index    int
	Case     Case
	Viol     Viol
	All      []Viol
	Trace    []string
	Preempts []uint64
	Choices  []uint64
	Overflow bool
	Digest   uint64
}

// Totals is what a batch covered.
type Totals struct {
	Runs, Nontrivial int
	Steps, Switches  uint64
	MaxSteps         uint64 // of one run
	Preempted        uint64
	SimTime          float64
	Hashes           []uint64 // of schedule and history, non-trivial runs only
	Scheds           []uint64 // of schedules
	Faults, Probes   map[string]int
	Sites            []uint32
	Samples          []string
	Twice, Nondet    int
	Differ           string // the first difference between two executions of one run
}

var (
	realOut *bufio.Writer
	job     Job
	current struct {
		index int
		c     Case
	}
	totals = Totals{Faults: map[string]int{}, Probes: map[string]int{}}
	hashes = map[uint64]bool{}
	scheds = map[uint64]bool{}
)

// count adds a run to the totals.
func count(out *Outcome) {
	t := &totals
	t.Runs++
	t.Steps += out.Stats.Steps
	t.MaxSteps = max(t.MaxSteps, out.Stats.Steps)
	t.Switches += out.Stats.Switches
	t.Preempted += out.Stats.Preempted
	t.SimTime += out.SimTime.Seconds()
	scheds[out.Stats.Hash] = true
	for k, v := range out.Faults {
		t.Faults[k] += v
	}
	for k, v := range out.Probes {
		t.Probes[k] += v
	}
	if out.Stats.Steps > 0 && !out.Trivial {
		t.Nontrivial++
		hashes[out.Stats.Hash^out.Digest] = true
	}
}

func emitTotals() {
	t := &totals
	if job.Mode == "search" {
		for h := range hashes {
			t.Hashes = append(t.Hashes, h)
		}
		for h := range scheds {
			t.Scheds = append(t.Scheds, h)
		}
		t.Sites = append(t.Sites, runtime.SimSiteCounts()...)
		for len(t.Sites) > 0 && t.Sites[len(t.Sites)-1] == 0 {
			t.Sites = t.Sites[:len(t.Sites)-1]
		}
	}
	emit(Report{Done: t})
}

func emit(r Report) {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	realOut.Write(b)
	realOut.WriteByte('\n')
	realOut.Flush()
}

// finish reports the violations of the run in progress and ends the process.
func finish(rc *runCtx, st runtime.SimStats) {
	syscallSimOff()
	var hit *Viol
	for i := range rc.viols {
		if v := &rc.viols[i]; job.Code == "" || v.Code == job.Code {
			hit = v
			break
		}
	}
	o := outcome(rc, st)
	count(&o)
	emitTotals()
	if hit == nil { // the run cannot be unwound: go on in a new process
		emit(Report{Restart: true})
		os.Exit(0)
	}
	p, c := runtime.SimTrace()
	emit(Report{Viol: &Found{Index: current.index, Case: current.c, Viol: *hit, All: rc.viols, Trace: rc.trace(),
		Preempts: p, Choices: c, Overflow: st.Overflow, Digest: rc.digest}})
	os.Exit(0)
}

// harnessError ends the process: the simulation itself is at fault.
func harnessError(what string) {
	if cur != nil && len(cur.viols) > 0 { // the harness may well be confused
		finish(cur, runtime.SimStop())
	}
	syscallSimOff()
	emit(Report{Error: fmt.Sprintf("run %d: %s", current.index, what)})
	os.Exit(0)
}

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	realOut = bufio.NewWriter(os.Stdout)
	in, err := io.ReadAll(os.Stdin)
	if err == nil {
		err = json.Unmarshal(in, &job)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: bad job:", err)
		os.Exit(3)
	}
	runtime.SimLimitHook = func() {
		rc := cur
		rc.bad(job.Prop, "endless", "the code under test executed more than %d statements in one run without ending", stepLimit)
		finish(rc, runtime.SimStop())
	}
	debug.SetMemoryLimit(2 << 30)
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	run := func(c *Case) Outcome {
		current.c = *c
		out := execute(&c.Scenario, &c.Sched)
		count(&out)
		return out
	}
	begin := time.Now()
	switch job.Mode {
	case "search":
		n := 0
		for i := job.From; i < job.Until; i += job.Step {
			if job.MS > 0 && time.Since(begin).Milliseconds() > job.MS {
				break
			}
			current.index = i
			idx := i
			emit(Report{Start: &idx})
			c := genCase(job.Prop, job.Tier, job.Seed, i)
			o := run(&c)
			if n < job.Twice {
				o2 := run(&c)
				totals.Twice++
				if o.Digest != o2.Digest || o.Stats.Hash != o2.Stats.Hash || o.Stats.Steps != o2.Stats.Steps {
					// Nothing in the simulation does this: the code under test
					// carries state from one run to the next.
					if totals.Nondet++; totals.Nondet == 1 {
						totals.Differ = fmt.Sprintf("run %d: %x/%x/%d, then %x/%x/%d", i, o.Digest, o.Stats.Hash, o.Stats.Steps, o2.Digest, o2.Stats.Hash, o2.Stats.Steps)
					}
				}
			}
			if n < 1 {
				b, _ := json.Marshal(c.Scenario)
				if len(b) > 1500 {
					b = append(b[:1500:1500], "..."...)
				}
				totals.Samples = append(totals.Samples, string(b))
			}
			n++
			if n%40 == 0 {
				runtime.GC()
			}
		}
	case "try":
		for i := range job.Cases {
			current.index = i
			idx := i
			emit(Report{Start: &idx})
			if job.Cases[i].Scenario.valid() {
				run(&job.Cases[i])
			}
			runtime.GC()
		}
	case "gen": // print the scenario of one index
		c := genCase(job.Prop, job.Tier, job.Seed, job.From)
		b, _ := json.MarshalIndent(c, "", " ")
		realOut.Write(b)
		realOut.WriteByte('\n')
		realOut.Flush()
		return
	}
	emitTotals()
}
