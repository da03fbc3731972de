package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The types below mirror those of the worker (sim/harness).

type Job struct {
	Mode  string
	Prop  string
	Tier  string
	Seed  uint64
	From  int
	Step  int
	Until int
	MS    int64
	Twice int
	Cases []Case `json:",omitempty"`
	Code  string `json:",omitempty"`
}

type Case struct {
	Scenario json.RawMessage
	Sched    Sched
}

type Sched struct {
	Seed      uint64
	MapSeed   uint64
	Policy    int
	Preempt   uint32
	Changes   uint32
	SelRandom bool
	HotOnly   bool
	Replay    bool     `json:",omitempty"`
	Preempts  []uint64 `json:",omitempty"`
	Choices   []uint64 `json:",omitempty"`
}

type Viol struct{ Prop, Code, Msg string }

type Found struct {
	Index    int
	Case     Case
	Viol     Viol
	All      []Viol
	Trace    []string
	Preempts []uint64
	Choices  []uint64
	Overflow bool
	Digest   uint64

	crash  bool
	stderr string
	from   int // first index run in the same process
}

type Totals struct {
	Runs, Nontrivial int
	Steps, Switches  uint64
	MaxSteps         uint64 // of one run
	Preempted        uint64
	SimTime          float64
	Hashes           []uint64
	Scheds           []uint64
	Faults, Probes   map[string]int
	Sites            []uint32
	Samples          []string
	Twice, Nondet    int
	Differ           string
}

type Report struct {
	Start   *int
	Viol    *Found
	Done    *Totals
	Error   string
	Restart bool
}

// result is how a worker process ended.
type result struct {
	viol    *Found
	totals  *Totals
	last    int // index last started
	started bool
	restart bool
	fatal   string // harness trouble
	stopped bool
}

const watchdog = 90 * time.Second

// procs lets a search be stopped.
type procs struct {
	mu   sync.Mutex
	all  map[*exec.Cmd]bool
	stop bool
}

func (p *procs) killAll() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.stop = true
	for c := range p.all {
		_ = c.Process.Kill()
	}
}

// work runs one worker process to its end.
func work(bin string, job *Job, p *procs) (res result) {
	in, err := json.Marshal(job)
	if err != nil {
		return result{fatal: err.Error()}
	}
	cmd := exec.Command(bin)
	cmd.Stdin = bytes.NewReader(in)
	var errb capped
	cmd.Stderr = &errb
	out, err := cmd.StdoutPipe()
	if err != nil {
		return result{fatal: err.Error()}
	}
	cmd.Dir = "/"
	cmd.Env = []string{"HOME=/nonexistent", "GOTRACEBACK=single", "PATH=/usr/bin:/bin", "SIM_AS=" + os.Getenv("SIM_AS")}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if p != nil {
		p.mu.Lock()
		if p.stop {
			p.mu.Unlock()
			return result{stopped: true}
		}
	}
	err = cmd.Start()
	if p != nil {
		if err == nil {
			p.all[cmd] = true
		}
		p.mu.Unlock()
		defer func() {
			p.mu.Lock()
			delete(p.all, cmd)
			p.mu.Unlock()
		}()
	}
	if err != nil {
		return result{fatal: err.Error()}
	}
	hung := false
	dog := time.AfterFunc(watchdog, func() {
		hung = true
		_ = cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(2 * time.Second)
		_ = cmd.Process.Kill()
	})
	sc := bufio.NewReaderSize(out, 1<<20)
	for {
		line, err := sc.ReadBytes('\n')
		if len(line) > 1 {
			var r Report
			if e := json.Unmarshal(line, &r); e != nil {
				if err == nil {
					res.fatal = fmt.Sprintf("bad report %q: %v", trunc(string(line), 200), e)
				}
			}
			dog.Reset(watchdog)
			if r.Start != nil {
				res.last, res.started = *r.Start, true
			}
			if r.Viol != nil {
				res.viol = r.Viol
				res.viol.from = job.From
			}
			if r.Done != nil {
				res.totals = r.Done
			}
			if r.Error != "" {
				res.fatal = r.Error
			}
			res.restart = res.restart || r.Restart
		}
		if err != nil {
			break
		}
	}
	err = cmd.Wait()
	dog.Stop()
	if p != nil {
		p.mu.Lock()
		stopped := p.stop
		p.mu.Unlock()
		if stopped {
			res.stopped = true
			return
		}
	}
	if err == nil || res.viol != nil || res.fatal != "" {
		if err == nil && res.viol == nil && res.totals == nil && !res.restart && res.fatal == "" {
			res.fatal = "the worker ended without a report: " + errb.String()
		}
		return
	}
	text := errb.String()
	switch {
	case hung:
		res.viol = &Found{Index: res.last, Viol: Viol{job.Prop, "endless", "a run makes no progress: code under test is in an endless loop"}, crash: true, stderr: trunc(text, 3000), from: job.From}
	case !res.started:
		res.fatal = fmt.Sprintf("the worker failed: %v: %s", err, text)
	default:
		what, mine := crashOf(text)
		if what == "" || mine {
			res.fatal = fmt.Sprintf("the worker failed in run %d: %v: %s", res.last, err, text)
			return
		}
		res.viol = &Found{Index: res.last, Viol: Viol{job.Prop, "crash", "the process crashes: " + what}, crash: true, stderr: trunc(text, 3000), from: job.From}
	}
	return
}

// crashOf extracts the reason of a crash and tells whether it happened in the
// harness rather than in the code under test.
func crashOf(text string) (what string, mine bool) {
	lines := strings.Split(text, "\n")
	i := 0
	for ; i < len(lines); i++ {
		if strings.HasPrefix(lines[i], "panic: ") || strings.HasPrefix(lines[i], "fatal error: ") {
			what = lines[i]
			break
		}
	}
	if what == "" {
		return "", false
	}
	if strings.Contains(what, "boom in") || strings.Contains(what, "main.simPanic") {
		return what, false
	}
	if strings.Contains(what, "all goroutines are asleep") {
		return what, true
	}
	for ; i < len(lines); i++ {
		l := lines[i]
		if l == "" || l[0] == '\t' || !strings.Contains(l, "(") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "goroutine ") || strings.HasPrefix(l, "[signal") {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "internal/") || strings.HasPrefix(l, "sync.") || strings.HasPrefix(l, "sync/") {
			continue
		}
		if strings.HasPrefix(l, "main.(*appRun).crash(") { // the application panics on purpose
			return what, false
		}
		if strings.HasPrefix(l, "main.") {
			return what, true
		}
		return what, false
	}
	return what, strings.HasPrefix(what, "fatal error") && !strings.Contains(what, "concurrent map") && !strings.Contains(what, "out of memory") && !strings.Contains(what, "unlock of unlocked")
}

type capped struct {
	head, tail []byte
}

func (c *capped) Write(p []byte) (int, error) {
	n := len(p)
	if room := 20000 - len(c.head); room > 0 {
		k := min(room, len(p))
		c.head = append(c.head, p[:k]...)
		p = p[k:]
	}
	c.tail = append(c.tail, p...)
	if len(c.tail) > 20000 {
		c.tail = append([]byte(nil), c.tail[len(c.tail)-10000:]...)
	}
	return n, nil
}

func (c *capped) String() string {
	if len(c.tail) > 0 {
		return string(c.head) + "\n...\n" + string(c.tail)
	}
	return string(c.head)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func genCase(bin, prop, tier string, seed uint64, i int) Case {
	in, _ := json.Marshal(&Job{Mode: "gen", Prop: prop, Tier: tier, Seed: seed, From: i})
	cmd := exec.Command(bin)
	cmd.Stdin = bytes.NewReader(in)
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	must(err)
	var c Case
	must(json.NewDecoder(bytes.NewReader(out)).Decode(&c))
	return c
}
