package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// search runs the seeds of one property.
type search struct {
	bin, prop, tier string
	seed            uint64
	known           []Finding
	fatal           string
	found           *Found
	knownHit        map[string]int

	mu       sync.Mutex
	tot      Totals
	hashes   map[uint64]bool
	scheds   map[uint64]bool
	sites    []uint64
	restarts int
	took     time.Duration
	procs    *procs
	shrunk   int
	from     int // first run
}

func newSearch(bin, prop, tier string, seed uint64, known []Finding) *search {
	return &search{bin: bin, prop: prop, tier: tier, seed: seed, known: known, knownHit: map[string]int{},
		tot:    Totals{Faults: map[string]int{}, Probes: map[string]int{}},
		hashes: map[uint64]bool{}, scheds: map[uint64]bool{}}
}

func newProcs() *procs { return &procs{all: map[*exec.Cmd]bool{}} }

const chunk = 1500 // runs per process

// run searches for the given time, or until something is found.
func (s *search) run(d time.Duration) {
	start := time.Now()
	end := start.Add(d)
	s.procs = newProcs()
	var wg sync.WaitGroup
	for w := 0; w < *jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.worker(w, end)
		}()
	}
	wg.Wait()
	s.took += time.Since(start)
	if s.fatal == "" && s.found == nil && s.tot.Runs == 0 {
		s.fatal = "nothing was run"
	}
}

func (s *search) worker(w int, end time.Time) {
	i := w + s.from
	limit := *maxRun
	if limit == 0 {
		limit = 1 << 40
	}
	for i < limit {
		left := time.Until(end).Milliseconds()
		if left <= 0 {
			return
		}
		job := &Job{Mode: "search", Prop: s.prop, Tier: s.tier, Seed: s.seed, From: i, Step: *jobs,
			Until: min(limit, i+chunk**jobs), MS: left, Twice: 2}
		res := work(s.bin, job, s.procs)
		if res.stopped {
			return
		}
		s.mu.Lock()
		s.add(res.totals)
		switch {
		case res.fatal != "":
			if s.fatal == "" {
				s.fatal = res.fatal
			}
		case res.viol != nil && s.isKnown(&res.viol.Viol):
			res.restart = true
		case res.viol != nil:
			if s.found == nil || res.viol.Index < s.found.Index {
				s.found = res.viol
			}
		}
		stop := s.fatal != "" || s.found != nil
		if res.restart {
			s.restarts++
		}
		s.mu.Unlock()
		if stop {
			s.procs.killAll()
			return
		}
		if res.restart {
			i = res.last + *jobs
		} else {
			for i < job.Until {
				i += *jobs
			}
		}
	}
}

func (s *search) isKnown(v *Viol) bool {
	for _, k := range s.known {
		if k.Replay == "" && k.Property == v.Prop && k.Code == v.Code && strings.Contains(v.Msg, k.Match) {
			s.knownHit[k.Code+"\x00"+k.Match]++
			return true
		}
	}
	return false
}

func (s *search) add(t *Totals) {
	if t == nil {
		return
	}
	a := &s.tot
	a.Runs += t.Runs
	a.Nontrivial += t.Nontrivial
	a.Steps += t.Steps
	a.MaxSteps = max(a.MaxSteps, t.MaxSteps)
	a.Switches += t.Switches
	a.Preempted += t.Preempted
	a.SimTime += t.SimTime
	a.Twice += t.Twice
	a.Nondet += t.Nondet
	if a.Differ == "" {
		a.Differ = t.Differ
	}
	for k, v := range t.Faults {
		a.Faults[k] += v
	}
	for k, v := range t.Probes {
		a.Probes[k] += v
	}
	for _, h := range t.Hashes {
		s.hashes[h] = true
	}
	for _, h := range t.Scheds {
		s.scheds[h] = true
	}
	for len(s.sites) < len(t.Sites) {
		s.sites = append(s.sites, 0)
	}
	for i, n := range t.Sites {
		s.sites[i] += uint64(n)
	}
	if len(a.Samples) < 3 {
		a.Samples = append(a.Samples, t.Samples...)
	}
}

// try runs the cases one after another and returns the first violation with
// the given code.
func (s *search) try(cases []Case, code string) *Found {
	for len(cases) > 0 {
		res := work(s.bin, &Job{Mode: "try", Prop: s.prop, Tier: s.tier, Seed: s.seed, Cases: cases, Code: code}, s.procs)
		if res.fatal != "" || res.stopped {
			return nil
		}
		if res.viol != nil && res.viol.Viol.Code == code {
			if res.viol.crash {
				res.viol.Case = cases[res.viol.Index]
			}
			return res.viol
		}
		if res.viol == nil && !res.restart {
			return nil
		}
		cases = cases[res.last+1:]
	}
	return nil
}

// again runs what a replay file says.
func (s *search) again(rf *ReplayFile) *Found {
	s.procs = newProcs()
	if rf.Sequence == nil {
		return s.try([]Case{*rf.Case}, rf.Code)
	}
	j := *rf.Sequence
	res := work(s.bin, &j, s.procs)
	s.fatal = res.fatal
	if res.viol != nil && res.viol.Viol.Code == rf.Code && res.viol.Index == rf.Index {
		return res.viol
	}
	return nil
}

// minimise turns what was found into a confirmed, small replay file.
func (s *search) minimise(deadline time.Time) *ReplayFile {
	f := s.found
	s.procs = newProcs()
	if f.crash {
		f.Case = genCase(s.bin, s.prop, s.tier, s.seed, f.Index)
	}
	rf := &ReplayFile{Property: s.prop, Code: f.Viol.Code, Message: f.Viol.Msg, Seed: s.seed, Tier: s.tier, Index: f.Index, Crash: f.crash}
	fill := func(g *Found) {
		rf.Message, rf.Digest, rf.Trace, rf.Stderr, rf.Crash = g.Viol.Msg, g.Digest, g.Trace, g.stderr, g.crash
	}
	alone := s.try([]Case{f.Case}, f.Viol.Code)
	if alone == nil {
		rf.Sequence = &Job{Mode: "search", Prop: s.prop, Tier: s.tier, Seed: s.seed, From: f.from, Step: *jobs, Until: f.Index + 1, Twice: 2}
		g := s.again(rf)
		if g == nil {
			s.fatal = fmt.Sprintf("run %d violated %s (%s), but does not do so again: the simulation is not deterministic", f.Index, f.Viol.Code, f.Viol.Msg)
			return nil
		}
		fill(g)
		return rf
	}
	best := alone
	best.Case = f.Case
	mid := time.Now().Add(time.Until(deadline) * 2 / 3)
	if !best.crash || f.Viol.Code != "endless" { // which takes the watchdog to tell
		best = s.shrinkScenario(best, mid)
		best, rf.Minimised = s.shrinkSchedule(best, deadline)
	}
	final := s.try([]Case{best.Case}, f.Viol.Code) // in a fresh process
	if final == nil {
		best = alone
		best.Case = f.Case
		rf.Minimised = false
		if final = s.try([]Case{best.Case}, f.Viol.Code); final == nil {
			s.fatal = fmt.Sprintf("run %d violated %s (%s) only sometimes: the simulation is not deterministic", f.Index, f.Viol.Code, f.Viol.Msg)
			return nil
		}
	}
	rf.Case = &best.Case
	fill(final)
	return rf
}

// first evaluates candidates in parallel and returns the first one (in the
// order given) that still fails.
func (s *search) first(n int, eval func(int) *Found) (int, *Found) {
	for lo := 0; lo < n; lo += *jobs {
		hi := min(n, lo+*jobs)
		res := make([]*Found, hi-lo)
		var wg sync.WaitGroup
		for i := lo; i < hi; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				res[i-lo] = eval(i)
			}()
		}
		wg.Wait()
		for i, r := range res {
			if r != nil {
				return lo + i, r
			}
		}
	}
	return -1, nil
}

// shrinkScenario drops and simplifies parts of the scenario while some
// schedule still shows the violation.
func (s *search) shrinkScenario(best *Found, deadline time.Time) *Found {
	code := best.Viol.Code
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		dec := json.NewDecoder(strings.NewReader(string(best.Case.Scenario)))
		dec.UseNumber()
		var root any
		if dec.Decode(&root) != nil {
			return best
		}
		n := len(simplify(root))
		for at := 0; at < n && time.Now().Before(deadline); {
			// evaluate the next candidates
			m := min(*jobs*2, n-at)
			cands := simplify(root)
			docs := make([]json.RawMessage, m)
			for i := range docs {
				undo := cands[at+i]()
				docs[i], _ = json.Marshal(root)
				undo()
			}
			i, f := s.first(m, func(i int) *Found {
				var cs []Case
				tries := uint64(6)
				if code == "endless" {
					tries = 2
				}
				for v := range tries {
					sd := best.Case.Sched
					switch {
					case v == 1: // the simplest schedule
						sd = Sched{Seed: sd.Seed, MapSeed: sd.MapSeed}
					case v > 1:
						sd.Seed = sd.Seed + v*0x9e3779b9
						sd.MapSeed = sd.MapSeed + v*0x7f4a7c15
					}
					cs = append(cs, Case{docs[i], sd})
				}
				g := s.try(cs, code)
				return g
			})
			if f == nil {
				at += m
				continue
			}
			s.shrunk++
			progress = true
			cands[at+i]()
			best = f
			b, _ := json.Marshal(root)
			best.Case.Scenario = b
			n = len(simplify(root))
			at += i
		}
	}
	return best
}

// simplify lists single simplifications of a JSON document. Each applies
// itself in place and returns how to undo it.
func simplify(root any) []func() func() {
	var out []func() func()
	type parent func(v any)
	var walk func(v any, set parent, depth int)
	walk = func(v any, set parent, depth int) {
		switch x := v.(type) {
		case map[string]any:
			ks := make([]string, 0, len(x))
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if depth == 0 && (k == "Prop" || k == "Seed") {
					continue
				}
				walk(x[k], func(n any) { x[k] = n }, depth+1)
			}
		case []any:
			for size := len(x); size >= 1; size /= 2 {
				for lo := 0; lo < len(x); lo += size {
					if size < len(x) || len(x) > 0 {
						a, b := lo, min(len(x), lo+size)
						out = append(out, func() func() {
							n := append(append([]any{}, x[:a]...), x[b:]...)
							set(n)
							return func() { set(x) }
						})
					}
				}
			}
			for i := range x {
				// a command may take the place of the one it is part of
				if m, ok := x[i].(map[string]any); ok {
					if kids, ok := m["Kids"].([]any); ok {
						for _, k := range kids {
							out = append(out, func() func() {
								old := x[i]
								x[i] = k
								return func() { x[i] = old }
							})
						}
					}
				}
				walk(x[i], func(n any) { x[i] = n }, depth+1)
			}
		case json.Number:
			n, err := x.Int64()
			if err != nil || n == 0 {
				return
			}
			c := []int64{0}
			if n > 1 {
				c = append(c, 1)
			}
			if n > 3 {
				c = append(c, n/2)
			}
			if n > 2 {
				c = append(c, n-1)
			}
			for _, k := range c {
				out = append(out, func() func() {
					set(json.Number(fmt.Sprint(k)))
					return func() { set(x) }
				})
			}
		case bool:
			if x {
				out = append(out, func() func() { set(false); return func() { set(true) } })
			}
		}
	}
	walk(root, func(any) {}, 0)
	return out
}

// shrinkSchedule reduces the schedule to the decisions that matter.
func (s *search) shrinkSchedule(best *Found, deadline time.Time) (*Found, bool) {
	if best.crash || best.Overflow {
		return best, false
	}
	code := best.Viol.Code
	fixed := func(p, c []uint64) Case {
		sd := best.Case.Sched
		sd.Replay, sd.Preempts, sd.Choices = true, p, c
		return Case{best.Case.Scenario, sd}
	}
	p, c := best.Preempts, best.Choices
	ref := s.try([]Case{fixed(p, c)}, code)
	if ref == nil {
		return best, false
	}
	ref.Case = fixed(p, c)
	best = ref
	if g := s.try([]Case{fixed(nil, nil)}, code); g != nil {
		g.Case = fixed(nil, nil)
		return g, true
	}
	reduce := func(list []uint64, with func([]uint64) Case, set func([]uint64)) {
		for size := (len(list) + 1) / 2; size >= 1 && time.Now().Before(deadline); {
			type part struct{ lo, hi int }
			var parts []part
			for lo := 0; lo < len(list); lo += size {
				parts = append(parts, part{lo, min(len(list), lo+size)})
			}
			less := func(i int) []uint64 {
				return append(append([]uint64{}, list[:parts[i].lo]...), list[parts[i].hi:]...)
			}
			i, g := -1, (*Found)(nil)
			for at := 0; at < len(parts) && g == nil && time.Now().Before(deadline); at += *jobs {
				m := min(*jobs, len(parts)-at)
				i, g = s.first(m, func(i int) *Found { return s.try([]Case{with(less(at + i))}, code) })
				i += at
			}
			if g != nil {
				list = less(i)
				g.Case = with(list)
				best = g
				set(list)
				continue
			}
			if size == 1 {
				break
			}
			size /= 2
		}
	}
	for round := 0; round < 2; round++ {
		reduce(p, func(l []uint64) Case { return fixed(l, c) }, func(l []uint64) { p = l })
		reduce(c, func(l []uint64) Case { return fixed(p, l) }, func(l []uint64) { c = l })
	}
	return best, true
}

// evidence writes what the run of the check covered.
func (s *search) evidence(start time.Time, built time.Duration, viols int) {
	t := &s.tot
	hours := s.took.Hours()
	perHour := func(n int) int { return int(float64(n) / max(hours, 1e-9)) }
	var sites []struct {
		F    string `json:"f"`
		File string `json:"file"`
		L    int    `json:"l"`
	}
	if b, err := os.ReadFile(filepath.Join(*outDir, "sites.json")); err == nil {
		_ = json.Unmarshal(b, &sites)
	}
	type cov struct{ hit, all int }
	byFile := map[string]*cov{}
	hit := 0
	for i, x := range sites {
		if i == 0 {
			continue
		}
		c := byFile[x.File]
		if c == nil {
			c = &cov{}
			byFile[x.File] = c
		}
		c.all++
		if i < len(s.sites) && s.sites[i] > 0 {
			c.hit++
			hit++
		}
	}
	if f := os.Getenv("SIM_UNREACHED"); f != "" { // a list for the developer
		var b strings.Builder
		for i, x := range sites {
			if i > 0 && (i >= len(s.sites) || s.sites[i] == 0) {
				fmt.Fprintf(&b, "%s:%d %s\n", x.File, x.L, x.F)
			}
		}
		_ = os.WriteFile(f, []byte(b.String()), 0o644)
	}
	files := map[string]string{}
	for f, c := range byFile {
		if c.hit > 0 {
			files[f] = fmt.Sprintf("%d of %d statements", c.hit, c.all)
		}
	}
	samples := []any{}
	for _, x := range t.Samples {
		var v any
		if json.Unmarshal([]byte(x), &v) != nil {
			v = x
		}
		samples = append(samples, v)
	}
	if len(samples) > 3 {
		samples = samples[:3]
	}
	kn := map[string]int{}
	for k, n := range s.knownHit {
		kn[strings.ReplaceAll(k, "\x00", ": ")] = n
	}
	doc := map[string]any{
		"property": s.prop, "tier": s.tier, "seed": s.seed, "level": "exploration",
		"wall_s":     time.Since(start).Seconds(),
		"violations": viols,
		"coverage": map[string]any{
			"evaluations":         t.Runs,
			"distinct_nontrivial": len(s.hashes),
			"rule":                rules[s.prop] + " Distinct means a different hash of the sequence of scheduling decisions together with the recorded history.",
			"samples":             samples,

			"nontrivial_runs":            t.Nontrivial,
			"distinct_schedules":         len(s.scheds),
			"seeds":                      t.Runs - t.Twice,
			"runs_per_hour":              perHour(t.Runs),
			"seeds_per_hour":             perHour(t.Runs - t.Twice),
			"search_s":                   s.took.Seconds(),
			"build_s":                    built.Seconds(),
			"workers":                    *jobs,
			"simulated_seconds":          t.SimTime,
			"statements_simulated":       t.Steps,
			"statements_in_longest_run":  t.MaxSteps,
			"context_switches":           t.Switches,
			"forced_preemptions":         t.Preempted,
			"determinism_checked_runs":   t.Twice,
			"determinism_differences":    t.Nondet,
			"determinism_difference":     t.Differ,
			"faults_fired":               t.Faults,
			"probes":                     t.Probes,
			"known_findings_hit":         kn,
			"worker_restarts":            s.restarts,
			"statements_reached":         hit,
			"statements_instrumented":    len(sites) - 1,
			"statements_reached_by_file": files,
			"components":                 components,
		},
		"assumptions": assumptions,
	}
	b, err := json.MarshalIndent(doc, "", " ")
	must(err)
	must(os.MkdirAll(*evid, 0o755))
	must(os.WriteFile(filepath.Join(*evid, s.prop+".json"), append(b, '\n'), 0o644))
}

const appRule = "A case is a pseudo-random application (commands, timers, batches, sequences, slow code), terminal size and kind, sequence of keys, resizes and faults tied to times or to the n-th write, read, update or render, and a schedule (policy, preemption rate, select order, map seeds). "

var rules = map[string]string{
	"P01": appRule + "Non-trivial: at least one command returned a message.",
	"P02": appRule + "Non-trivial: at least one command was created.",
	"P03": appRule + "Non-trivial: a member of a sequence other than the first was started.",
	"P04": appRule + "Non-trivial: at least one command was created.",
	"P05": appRule + "Non-trivial: at least two updates.",
	"P06": appRule + "Non-trivial: the run returned and was checked against its causes.",
	"P07": appRule + "Non-trivial: the run returned and its result was checked.",
	"P08": appRule + "Non-trivial: the run returned and the terminal was checked.",
	"P09": appRule + "Non-trivial: application code panicked.",
	"P10": appRule + "Non-trivial: the application was checked after everything had settled.",
	"P11": "A case is a history of frames (text, wide and control characters, colours, attributes), resizes and short, slow or failing writes, drawn either by a whole application or by a terminal object alone. Non-trivial: a frame was compared with the simulated screen.",
	"P12": appRule + "The input is a random sequence of key presses, mouse, focus and paste events. Non-trivial: the run ended normally and all events were compared.",
	"P33": appRule + "The input is that of P12, with pasted names of keys. Non-trivial: the names of key or mouse events seen by the model were compared.",
	"P13": appRule + "Non-trivial: the run returned and what it left was checked.",
	"P14": appRule + "Non-trivial: a timer fired.",
	"P15": "A case is a set of layouts and areas split repeatedly by several goroutines under a random schedule and random map seeds. Non-trivial: two results of the same split were compared.",
	"P16": "A case is a set of layouts and areas split under random map seeds and schedules. Non-trivial: the rectangles of a split were checked.",
	"P34": "A case is a set of layouts and areas split under random map seeds and schedules. Non-trivial: the rectangles of a split were checked.",
	"P35": "A case is a phase of random operations (keys, resizes, pastes, mouse events, slow writes, commands) repeated seven to nine times in one run of an application, or in a run of its own each time, under a random schedule; a violation is a growth with every repetition after the first. Non-trivial: all phases ended and were compared.",
	"P17": "A case is an application that shows random widgets with random content in changing areas, driven by keys and resizes under a random schedule. Non-trivial: a widget was rendered and the cells around it were checked.",
	"P18": "A case is an application with an input field driven by typed and pasted input in random pieces, and resizes. Non-trivial: the text was compared with the editor model.",
	"P19": "A case is an application with a list driven by keys, item changes and resizes. Non-trivial: a drawn list was compared with the model.",
	"P20": "A case is an application with several throbbers started any number of times under a random schedule. Non-trivial: the frames of a throbber were checked.",
	"P21": "A case is a pool of texts, widgets and states, made of one another, that several goroutines draw, measure, change copies of and derive others from, preempted anywhere. Non-trivial: a drawing was compared with that of the same value in a world of its own.",
	"P22": "A case is a sequence of operations on one to three terminals with fixed viewports on one screen, with short, slow and interrupted writes, a growing window and another program writing to the screen. Non-trivial: a frame was compared with the simulated screen.",
	"P30": "A case is an application that shows texts, lines, spans and paragraphs of random content, wrapped or not, through resizes and scrolling, under a random schedule. Non-trivial: the rows shown were compared with the text.",
	"P31": "A case is an application that shows texts, paragraphs, lists, tabs, blocks, popups, gauges and input fields composed of random layers of styles, with keys, scrolling and resizes under a random schedule. Non-trivial: the style of every character and blank cell shown was compared with the composition of its layers.",
	"P32": "A case is an application that shows gauges, scroll bars, tabs, blocks, popups and fillers with random states in changing areas, driven by keys and resizes under a random schedule. Non-trivial: what was drawn was compared with the state.",
}

var components = map[string]string{
	"real code":      "all of the repository outside examples/, its dependencies (cancelreader, termenv, x/term, x/sys wrappers, uniseg, casso port), the Go runtime's channels, select, mutexes, timers and context",
	"replaced":       "choice of the goroutine to run, preemption, select order, map seeds and the clock (Go runtime, patched by overlay); system calls on terminal descriptors, pipes and epoll (simulated kernel); signal delivery (simulated); the terminal itself (simulated screen and keyboard)",
	"not simulated":  "other platforms' code (Windows, BSD select/kqueue), real terminals' rendering of ambiguous-width characters",
	"worker process": "GOMAXPROCS=1; one bubble per run; fresh process every 1500 runs",
}

var assumptions = []string{
	"A clean search is evidence, not proof: seeds are sampled.",
	"The terminal behaves like xterm with the character widths of the uniseg library.",
	"Preemption happens between statements of the repository's code and inside runtime operations that block, not between single memory accesses; unsynchronised accesses within one statement are not split.",
	"Linux/amd64 code paths.",
}
