package main

import "github.com/metafates/bento"

func hashStr(s string) uint64 {
	h := uint64(0xcbf29ce484222325)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// genCase derives the i-th case of a property from the base seed.
func genCase(prop, tier string, seed uint64, i int) Case {
	r := newRng(seed, hashStr(prop), uint64(i), 0xca5e)
	c := Case{Scenario: Scenario{Prop: prop, Seed: r.next() >> 1}, Sched: genSched(r.next())}
	switch prop {
	case "P15", "P16", "P34":
		c.Sched.HotOnly = false // the solver starts no goroutines and takes no locks
		c.Scenario.Lay = genLay(prop, r)
	case "P17", "P18", "P19", "P20", "P30", "P31", "P32":
		c.Scenario.App = genWid(prop, r)
	case "P21":
		c.Sched.HotOnly = false
		c.Scenario.Share = genShare(r)
	case "P22":
		c.Scenario.View = genViews(r)
	case "P11":
		if r.p(70) {
			c.Scenario.Term = genTerm(r)
		} else {
			c.Scenario.App = genApp(prop, r)
		}
	default:
		c.Scenario.App = genApp(prop, r)
	}
	return c
}

// durs are the command durations; equal ones are frequent on purpose.
func dur(r *rng) int {
	return pick(r, 0, 0, 1, 10, 1000, 1000, 1000, 2000, 5000, 20000, 100000, 500000)
}

type specOpts struct {
	panics, quits, blocks bool
	depth                 int
	seq, batch, tick      int // weights
	specs                 int
}

func genSpec(r *rng, o specOpts, depth int) CSpec {
	w := []struct {
		k string
		n int
	}{
		{"msg", 30}, {"nilmsg", 4}, {"nil", 3}, {"tick", o.tick},
	}
	add := func(k string, n int) {
		w = append(w, struct {
			k string
			n int
		}{k, n})
	}
	if depth < o.depth {
		add("batch", o.batch)
		add("rawbatch", o.batch/2)
		add("seq", o.seq)
	}
	if o.blocks {
		add("block", 5)
	}
	if o.panics {
		add("panic", 5)
		add("tickpanic", 2)
	}
	if o.quits {
		add("quit", 3)
	}
	tot := 0
	for _, x := range w {
		tot += x.n
	}
	p := r.n(tot)
	k := ""
	for _, x := range w {
		if p < x.n {
			k = x.k
			break
		}
		p -= x.n
	}
	sp := CSpec{Kind: k}
	switch k {
	case "batch", "rawbatch", "seq":
		n := r.in(0, 5)
		if depth == 0 && r.p(3) || depth == 1 && r.p(2) { // a whole lot
			n = r.in(10, pick(r, 20, 70, 140))
			o.depth, o.specs = 1, 0
		}
		for ; n > 0; n-- {
			sp.Kids = append(sp.Kids, genSpec(r, o, depth+1))
		}
	default:
		sp.Dur = dur(r)
		if depth < 2 && o.depth > 1 && r.p(2) {
			sp.Dur = pick(r, 1234567, 3000000, 12000000)
		}
		if depth < 2 && r.p(1) || k == "tick" && depth == 0 && r.p(3) { // minutes to years
			sp.Dur = pick(r, 61_000_000, 305_000_000, 3_600_000_001, 90_000_000_000, 900_000_000_000, 10_000_000_000_000)
		}
		if k == "tick" && r.p(20) {
			sp.Ns = pick(r, 1, 999, r.n(1000))
			if sp.Dur == 0 && r.p(30) {
				sp.Ns = -pick(r, 1, 1000000, 1<<40) // over before it begins
			}
		}
		if (k == "msg" || k == "tick") && r.p(25) && o.specs > 0 {
			sp.Then = 1 + r.n(o.specs)
		}
	}
	return sp
}

func genApp(prop string, r *rng) *AppSc {
	s := &AppSc{W: r.in(1, 24), H: r.in(1, 7), K: KernelCfg{StdinTTY: r.p(80)}, Ctx: pick(r, "", "cancel", "cancel", "custom"), End: "quit"}
	if r.p(10) {
		s.W = pick(r, 0, 80)
		s.H = pick(r, 0, 24)
	}
	switch r.n(5) {
	case 0:
		s.Term, s.ColorTerm = "xterm-256color", "truecolor"
	case 1:
		s.Term = "xterm-256color"
	case 2:
		s.Term = "xterm"
	case 3:
		s.Term = "dumb"
	case 4:
		s.Term = "screen-256color"
	}
	s.Paste = r.p(30)
	o := specOpts{depth: 3, seq: 10, batch: 10, tick: 12, blocks: true, specs: r.in(1, 5)}
	s.Graceful = r.p(80)
	// how fast things are
	slow := r.n(10)
	switch {
	case slow < 5: // no delays at all
	case slow < 8:
		s.Upd, s.Draw = pick(r, 0, 10, 1000, 30000), pick(r, 0, 10, 1000, 20000)
		s.SlowPct = pick(r, 0, 20, 50)
		s.K.WriteDelay = pick(r, 0, 0, 5, 300)
	default:
		s.K.WriteDelay = pick(r, 5, 100, 3000)
	}
	if r.p(40) {
		s.K.ShortWrites = pick(r, 10, 60)
	}
	if r.p(30) {
		s.K.ShortReads = pick(r, 30, 90)
	}
	if r.p(30) {
		s.K.EINTR = pick(r, 5, 30)
	}
	s.K.SigDelay = r.p(50)
	nops := r.in(0, 6)
	resizes := 10 // weight
	keys := 40
	switch prop {
	case "P03":
		o.seq, o.batch, o.tick = 60, 20, 12
	case "P04":
		o.batch = 30
		s.Graceful = true
		if r.p(70) {
			s.Upd, s.Draw, s.K.WriteDelay = 0, 0, 0
		}
	case "P01", "P02":
		s.Graceful = r.p(85)
	case "P14":
		o.tick = 80
	case "P10":
		resizes, keys = 60, 10
		s.Graceful = true
		nops = r.in(0, 8)
	case "P11":
		resizes, keys = 15, 40
		s.Frame = r.in(1, 2)
		s.Graceful = true
	case "P35":
		o.blocks = false
		if r.p(10) {
			s.W, s.H = 60, 20
		} else if s.W > 30 || s.H > 10 {
			s.W, s.H = 30, 10
		}
	case "P12", "P33":
		nops = r.in(0, 2)
		resizes, keys = 50, 0
		s.Graceful = false
		if s.W*s.H > 300 && r.p(90) {
			s.W, s.H = 40, 3
		}
		s.Bytes = genBytes(r)
		if total := len(s.Bytes); s.W*s.H > 300 && total > 8 {
			s.Bytes = s.Bytes[:8]
		}
		s.Init = nil
	}
	if prop == "P05" || prop == "P10" {
		s.Frame = r.n(2)
	}
	for i := 0; i < o.specs; i++ {
		s.Specs = append(s.Specs, genSpec(r, o, 0))
	}
	if prop != "P12" && prop != "P33" && r.p(60) {
		sp := genSpec(r, o, 0)
		s.Init = &sp
	}
	for i := 0; i < nops; i++ {
		op := Op{After: pick(r, 0, 0, 0, 1, 1000, 1000, 5000, 50000, 200000)}
		if r.p(25) {
			op.On = pick(r, "write", "update", "render", "init", "read")
			op.N = r.in(1, pick(r, 2, 6, 20))
			if op.On == "init" {
				op.N = 1
			}
		}
		switch p := r.n(resizes + keys + 8); {
		case p < keys:
			op.Kind, op.Key = "key", r.n(o.specs)
		case p < resizes+keys:
			op.Kind, op.W, op.H = "resize", r.in(0, 30), r.in(0, 9)
			if r.p(30) {
				op.W, op.H = s.W, s.H
			} else if r.p(3) {
				op.W, op.H = wideOrTall(r)
			}
		case p < resizes+keys+4:
			op.Kind, op.On = "check", ""
		default:
			op.Kind, op.Dur = "stall", pick(r, 1000, 100000, 2000000)
		}
		s.Ops = append(s.Ops, op)
	}
	if prop == "P04" {
		for i := range s.Ops {
			if s.Ops[i].Kind == "stall" && r.p(70) {
				s.Ops[i].Kind = "check"
				s.Ops[i].On = ""
			}
		}
	}
	switch prop {
	case "P35":
		genLong(r, s, o)
	case "P06", "P07", "P08", "P13", "P09":
		genEnd(prop, r, s, o)
	case "P01", "P02", "P05", "P03":
		if !s.Graceful {
			s.End = pick(r, "quit", "cancel")
			if s.Ctx == "" {
				s.End = "quit"
			}
		}
	}
	return s
}

// genEnd adds the ways in which a run may end.
func genEnd(prop string, r *rng, s *AppSc, o specOpts) {
	s.Graceful = r.p(15)
	if s.Ctx == "" && r.p(60) {
		s.Ctx = "cancel"
	}
	s.Second = prop == "P13" || r.p(10)
	where := func(op Op) Op {
		if r.p(60) {
			op.On = pick(r, "write", "update", "render", "init", "read")
			op.N = r.in(1, pick(r, 2, 6, 15))
			if op.On == "init" {
				op.N = 1
			}
		} else {
			op.After = pick(r, 0, 0, 1, 1000, 100000)
		}
		return op
	}
	cause := func() {
		k := r.n(10)
		if prop == "P09" && r.p(70) {
			k = 8
		}
		switch k {
		case 0, 1:
			if s.Ctx == "" {
				s.Ctx = "cancel"
			}
			s.Ops = append(s.Ops, where(Op{Kind: "cancel"}))
			s.End = "cancel"
		case 2:
			s.Ctx, s.CtxAt = "timeout", pick(r, 0, 0, 1, 1000, 5000, 200000)
		case 3:
			s.Ops = append(s.Ops, where(Op{Kind: "inerr"}))
			s.End = "inerr"
		case 4:
			s.Ops = append(s.Ops, where(Op{Kind: "outfail"}))
			s.End = "outfail"
		case 5:
			s.Ops = append(s.Ops, where(Op{Kind: "outtemp"}))
			s.End = "outtemp"
		case 6:
			sp := genSpec(r, specOpts{depth: 3, seq: 10, batch: 10, quits: true, blocks: true, tick: 4}, 0)
			if r.p(60) {
				sp = CSpec{Kind: "quit", Dur: dur(r)}
			}
			if r.p(50) {
				s.Init = &sp
			} else {
				s.Specs = append(s.Specs, sp)
				s.Ops = append(s.Ops, Op{After: pick(r, 0, 0, 1000), Kind: "key", Key: len(s.Specs) - 1})
			}
		case 7:
			switch r.n(5) {
			case 0:
				s.K.OpenFail, s.K.StdinTTY = true, false
			case 1:
				s.K.FailIoctl = r.in(1, 8)
			case 2:
				s.K.FailPipe = 1
			case 3:
				s.K.FailWrite = r.in(1, 12)
			case 4:
				s.K.FailWrite = r.in(1, 12)
				s.K.FailTemp = true
			}
		case 8:
			if prop == "P07" { // what a panic returns is another property's business
				break
			}
			if r.p(40) {
				s.PanicIn, s.PanicN = pick(r, "init", "update", "render"), r.in(1, pick(r, 1, 2, 5))
				if s.PanicIn == "init" {
					s.PanicN = 1
				}
				break
			}
			for n := r.in(1, 3); n > 0; n-- {
				sp := genSpec(r, specOpts{depth: 3, seq: 15, batch: 15, panics: true, blocks: true, tick: 4}, 0)
				if r.p(40) {
					sp = pick(r, CSpec{Kind: "panic", Dur: dur(r)}, CSpec{Kind: "tickpanic", Dur: dur(r)})
				}
				switch r.n(3) {
				case 0:
					sp = CSpec{Kind: "seq", Kids: []CSpec{{Kind: "msg"}, sp, {Kind: "msg"}}}
				case 1:
					sp = CSpec{Kind: "seq", Kids: []CSpec{{Kind: "batch", Kids: []CSpec{{Kind: "panic", Dur: dur(r)}, sp, {Kind: "msg", Dur: dur(r)}}}, {Kind: "msg"}}}
				}
				if r.p(40) {
					s.Init = &sp
				} else {
					s.Specs = append(s.Specs, sp)
					s.Ops = append(s.Ops, Op{After: pick(r, 0, 0, 1000), Kind: "key", Key: len(s.Specs) - 1})
				}
			}
		case 9:
			s.Ops = append(s.Ops, where(Op{Kind: "eof"}))
			if s.Ctx == "" || r.p(50) {
				sp := CSpec{Kind: "quit", Dur: pick(r, 200000, 1000000)}
				s.Init = &sp
			}
			s.End = "cancel"
		}
	}
	cause()
	if r.p(40) {
		cause()
	}
	if r.p(15) {
		cause()
	}
	if r.p(30) { // input nobody reads in time
		for n := r.in(1, 40); n > 0; n-- {
			s.Ops = append(s.Ops, Op{Kind: "key", Key: r.n(len(s.Specs))})
		}
	}
	// shuffle the operations
	for i := len(s.Ops) - 1; i > 0; i-- {
		j := r.n(i + 1)
		s.Ops[i], s.Ops[j] = s.Ops[j], s.Ops[i]
	}
}

var texts = []string{"a", "hello", "x", "ab cd", " ", "é世🙂", "q", "~", "[", "O", "M", "世界", "\ufffd", "0;1", "A", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"}

func genBytes(r *rng) []Input {
	var out []Input
	n := r.in(1, pick(r, 3, 10, 60))
	burst := r.p(60)
	mix := r.n(4)
	for i := 0; i < n; i++ {
		in := Input{}
		if !burst && r.p(50) || r.p(10) {
			in.After = pick(r, 0, 1, 1000, 50000)
		}
		p := r.n(100)
		switch mix {
		case 1: // mostly text
			if r.p(70) {
				p = 0
			}
		case 2: // mostly mouse
			if r.p(70) {
				p = 72
			}
		case 3: // mostly special keys
			if r.p(70) {
				p = 40
			}
		}
		switch {
		case p < 25:
			in.Kind = "text"
			for j := r.in(1, pick(r, 1, 3, 12)); j > 0; j-- {
				in.S += pick(r, texts...)
			}
		case p < 35:
			in.Kind, in.N = "ctrl", r.n(33)
		case p < 50:
			in.Kind, in.N = "seq", r.n(len(keySeqs))
		case p < 57:
			in.Kind, in.N = "altseq", r.n(len(keySeqs))
			if keySeqs[in.N].k.Type == bento.KeyF20 { // alt+f20 ends the run
				in.N = 0
			}
		case p < 62:
			in.Kind, in.S = "alt", pick(r, "a", "世", "Z", "é", "~", "1", "+", "]", "?", "😀")
		case p < 65:
			in.Kind, in.N = "altctrl", r.n(33)
		case p < 70:
			in.Kind = "esc"
		case p < 80:
			in.Kind, in.N, in.X, in.Y, in.R = "mouse", r.n(256), r.n(pick(r, 10, 300, 5000)), r.n(pick(r, 10, 300)), r.p(50)
		case p < 85:
			in.Kind, in.N, in.X, in.Y = "x10", r.n(128), r.n(pick(r, 90, 223)), r.n(pick(r, 90, 223))
		case p < 88:
			in.Kind = "focus"
		case p < 91:
			in.Kind = "blur"
		case p < 92:
			in.Kind, in.N = "byte", r.n(len(junk))
		case p < 94:
			in.Kind, in.N = "csi", r.n(300)
		default:
			in.Kind = "paste"
			if r.p(25) { // what a key is called
				in.S = pick(r, "q", "[", "]", " ", "up", "enter", "ctrl+c", "alt+q", "esc", "runes", "\r", "\x03")
				break
			}
			for j := r.in(0, pick(r, 2, 10, 80)); j > 0; j-- {
				in.S += pick(r, append(texts, "\n", "\r", "\t", "\x1b[A", "\x1b", "\x00", "\x1b[200~", "\x7f", "\x1b[201")...)
				if r.p(3) {
					in.S += string(rune(junkRune + r.n(len(junk))))
				}
			}
			if r.p(4) { // a whole file
				in.Rep = pick(r, 1<<10, 1<<12, 1<<14, 1<<16, 1<<17) / (len(in.S) + 1)
			}
			l := len(in.S)*max(1, in.Rep) + 12
			at := 5 // a start marker in pieces cannot be told from an escape key
			for j := r.n(5); j > 0 && l > 1; j-- {
				at += 1 + r.n(l/2+1)
				in.Cuts = append(in.Cuts, at)
			}
		}
		out = append(out, in)
	}
	return out
}
