// simctl drives the simulation: it builds the worker from /repo's working
// tree, searches seeds in parallel, minimises and stores what it finds,
// replays stored violations and writes the evidence.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"
)

var (
	repo   = flag.String("repo", "/repo", "repository")
	verif  = flag.String("verif", "/verif", "this directory")
	outDir = flag.String("out", "", "build directory (default: .build below -verif)")
	evid   = flag.String("evidence", "", "evidence directory (default: evidence below -verif)")
	jobs   = flag.Int("j", min(8, runtime.NumCPU()), "parallel workers")
	secs   = flag.Int("secs", 0, "seconds to search (default: by tier)")
	maxRun = flag.Int("runs", 0, "number of seeds (default: by time)")
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: simctl [flags] build | check PROPERTY TIER | replay FILE | show PROPERTY TIER INDEX")
	os.Exit(3)
}

func main() {
	flag.Parse()
	if *outDir == "" {
		*outDir = filepath.Join(*verif, ".build")
	}
	if *evid == "" {
		*evid = filepath.Join(*verif, "evidence")
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 63); err == nil {
			seed = v
		} else {
			seed = 0
			for _, c := range s {
				seed = seed*31 + uint64(c)
			}
			seed >>= 2
		}
	}
	a := flag.Args()
	if len(a) == 0 {
		usage()
	}
	switch {
	case a[0] == "build" && len(a) == 1:
		build()
	case a[0] == "check" && len(a) == 3:
		os.Exit(check(a[1], a[2], seed))
	case a[0] == "replay" && len(a) == 2:
		os.Exit(replay(a[1]))
	case a[0] == "show" && len(a) == 4:
		n, err := strconv.Atoi(a[3])
		must(err)
		b, _ := json.MarshalIndent(genCase(build(), a[1], a[2], seed, n), "", " ")
		fmt.Println(string(b))
	default:
		usage()
	}
}

// Finding is an entry of known_findings.json.
type Finding struct {
	Property string `json:"property"`
	Code     string `json:"code"`  // violation code
	Match    string `json:"match"` // text the message contains
	What     string `json:"what"`
	Replay   string `json:"replay"` // or the input that fails, which the search keeps clear of
}

// ReplayFile is what a violation is stored as.
type ReplayFile struct {
	Property string
	Code     string
	Message  string
	Seed     uint64 // VERIF_SEED of the search
	Tier     string
	Index    int
	// Case is the minimised scenario with its minimised schedule. When the
	// violation depends on the runs before it in the same process, Sequence
	// says which seeds to run instead.
	Case      *Case    `json:",omitempty"`
	Sequence  *Job     `json:",omitempty"`
	Crash     bool     `json:",omitempty"`
	Digest    uint64   // of the recorded history
	Minimised bool     // the schedule too
	Trace     []string // the recorded history
	Stderr    string   `json:",omitempty"`
}

func check(prop, tier string, seed uint64) int {
	start := time.Now()
	budget := 28
	if tier == "thorough" {
		budget = 600
	} else if tier != "quick" {
		usage()
	}
	if *secs > 0 {
		budget = *secs
	}
	var known []Finding
	if b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json")); err == nil {
		var f struct{ Findings []Finding }
		must(json.Unmarshal(b, &f))
		known = f.Findings
	}
	bin := build()
	built := time.Since(start)
	s := newSearch(bin, prop, tier, seed, known)
	end := time.Now().Add(time.Duration(budget) * time.Second)
	s.run(time.Until(end))
	var rf *ReplayFile
	for try := 1; s.found != nil && s.fatal == ""; try++ {
		if rf = s.minimise(time.Now().Add(40 * time.Second)); rf != nil {
			break
		}
		if try == 4 {
			break
		}
		// What was found cannot be repeated: look for something that can.
		fmt.Fprintln(os.Stderr, "simctl:", s.fatal)
		s.from = s.found.Index + 1
		s.found, s.fatal = nil, ""
		s.run(max(5*time.Second, time.Until(end)))
		if s.found == nil && s.fatal == "" {
			s.fatal = "a violation was found that cannot be repeated"
		}
	}
	if s.fatal != "" {
		fmt.Fprintln(os.Stderr, "simctl:", s.fatal)
		return 3
	}
	if s.tot.Nondet > 0 {
		fmt.Fprintf(os.Stderr, "simctl: %d of %d runs went differently the second time: the code carries state from one run to the next (%s)\n", s.tot.Nondet, s.tot.Twice, s.tot.Differ)
	}
	for _, k := range known {
		if k.Property == prop {
			if k.Replay != "" {
				var kf ReplayFile
				b, err := os.ReadFile(filepath.Join(*verif, k.Replay))
				must(err)
				must(json.Unmarshal(b, &kf))
				fatal := s.fatal
				if s.again(&kf) != nil {
					s.knownHit[k.Code+"\x00"+k.Replay]++
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
				s.fatal = fatal
				continue
			}
			if s.knownHit[k.Code+"\x00"+k.Match] > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			}
		}
	}
	rc := 0
	viols := 0
	if rf != nil {
		viols = 1
		path := filepath.Join(*evid, prop+".replay.json")
		must(os.MkdirAll(*evid, 0o755))
		b, err := json.MarshalIndent(rf, "", " ")
		must(err)
		must(os.WriteFile(path, append(b, '\n'), 0o644))
		fmt.Printf("%s/%s: %s\n", prop, rf.Code, rf.Message)
		for _, l := range tail(rf.Trace, 40) {
			fmt.Println("  " + l)
		}
		if rf.Stderr != "" {
			fmt.Println(rf.Stderr)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		rc = 1
	}
	s.evidence(start, built, viols)
	return rc
}

func tail(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	must(err)
	var rf ReplayFile
	must(json.Unmarshal(b, &rf))
	s := newSearch(build(), rf.Property, rf.Tier, rf.Seed, nil)
	got := s.again(&rf)
	if got == nil {
		if s.fatal != "" {
			fmt.Fprintln(os.Stderr, "simctl:", s.fatal)
			return 3
		}
		fmt.Printf("not reproduced: property=%s %s\n", rf.Property, rf.Code)
		return 0
	}
	for _, l := range got.Trace {
		fmt.Println(l)
	}
	if got.stderr != "" {
		fmt.Println(got.stderr)
	}
	exact := "the recorded history is identical"
	if got.Digest != rf.Digest {
		exact = "the recorded history differs"
	}
	fmt.Printf("%s/%s: %s (%s)\nVIOLATION property=%s replay=%s\n", rf.Property, got.Viol.Code, got.Viol.Msg, exact, rf.Property, file)
	return 1
}

func join(m map[string]int) string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s=%d", k, v))
	}
	return strings.Join(out, " ")
}
