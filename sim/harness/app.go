package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/metafates/bento"
)

// AppSc is a scenario that runs whole applications.
type AppSc struct {
	W, H      int
	Term      string
	ColorTerm string
	K         KernelCfg
	Ctx       string // "", cancel, timeout, custom
	CtxAt     int    // timeout in microseconds
	Upd       int    // microseconds an update takes
	Draw      int    // microseconds a render takes
	SlowPct   int    // percentage of updates and renders that are slow (0: all)
	Init      *CSpec
	Specs     []CSpec // commands started by the keys A, B, ...
	Ops       []Op
	Graceful  bool   // wait until everything has settled before the end
	End       string // quit, quitcmd, cancel, ...
	Second    bool   // run another application on the terminal afterwards
	Paste     bool   // the terminal starts with bracketed paste on
	Bytes     []Input
	PanicIn   string // init, update, render: panics at the n-th call
	PanicN    int
	Frame     int    // frame style
	Typed     bool   // bytes typed after the end
	Wid       *WidSc `json:",omitempty"` // the model is made of widgets
	Phases    int    `json:",omitempty"` // repeat the operations this many times
	Again     bool   `json:",omitempty"` // ... in a run of its own each time
}

// CSpec describes a command.
type CSpec struct {
	Kind string  // msg, nilmsg, nil, tick, batch, rawbatch, seq, block, panic, quit, tickpanic
	Dur  int     `json:",omitempty"` // microseconds
	Ns   int     `json:",omitempty"` // nanoseconds more, for ticks
	Then int     `json:",omitempty"` // spec+1 whose command the update returns for the message
	Kids []CSpec `json:",omitempty"`
}

// Op is something that happens to the application.
type Op struct {
	After int    // microseconds after the previous timed operation
	On    string `json:",omitempty"` // instead: at the N-th write, update, render, read
	N     int    `json:",omitempty"`
	Kind  string // key, resize, cancel, eof, inerr, outfail, outtemp, stall, check
	Key   int    `json:",omitempty"`
	W     int    `json:",omitempty"`
	H     int    `json:",omitempty"`
	Dur   int    `json:",omitempty"`
	In    *Input `json:",omitempty"`
}

// inst is one command handed to the runtime.
type inst struct {
	id     int
	kind   string
	dur    time.Duration
	then   int
	parent *inst
	kids   []*inst

	made      time.Duration
	handed    bool
	handedT   time.Duration
	starts    int
	startT    time.Duration
	startSeq  int
	ends      int
	endT      time.Duration
	endSeq    int
	delivered int
	delT      time.Duration
	delSeq    int
	ts        time.Duration // time stamp given to a tick's callback
	tsCalls   int
	release   chan struct{}
}

func (in *inst) leaf() bool {
	switch in.kind {
	case "batch", "rawbatch", "seq":
		return false
	}
	return true
}

// returnsMsg says whether the command returns one of our messages.
func (in *inst) returnsMsg() bool { return in.kind == "msg" || in.kind == "tick" }

type (
	msgStruct struct {
		ID  int
		pad *[16 << 10]byte // worth noticing when it is kept
	}
	msgSlice []int
	msgErr   struct{ ID int }
	msgFunc  func() int
)

func (e msgErr) Error() string { return fmt.Sprint("message ", e.ID) }

func wrapMsg(id int) bento.Msg {
	switch id % 5 {
	case 0:
		return msgStruct{ID: id}
	case 1:
		return &msgStruct{ID: id, pad: new([16 << 10]byte)}
	case 2:
		return msgSlice{id}
	case 3:
		return msgErr{id}
	default:
		return msgFunc(func() int { return id })
	}
}

func unwrapMsg(m bento.Msg) (int, bool) {
	switch m := m.(type) {
	case msgStruct:
		return m.ID, true
	case *msgStruct:
		return m.ID, true
	case msgSlice:
		return m[0], true
	case msgErr:
		return m.ID, true
	case msgFunc:
		return m(), true
	}
	return 0, false
}

// appRun is the state of one application run.
type appRun struct {
	rc    *runCtx
	sc    *AppSc
	insts []*inst
	seen  []bento.Msg // input messages, in order
	named []string    // their names when they came

	in       string // call of application code in progress
	gen      int
	lastGen  int // generation of the model last returned to the application
	drawn    int // generation last rendered, -1: none
	inited   bool
	updates  int
	renders  int
	frame    *frame
	frameRes int // resizes seen when the frame was rendered
	lastSize *bento.WindowSizeMsg
	sizes    int

	causes   map[string]bool
	causeT   time.Duration
	caused   bool
	cancel   context.CancelFunc
	done     chan struct{}
	doneF    bool
	doneT    time.Duration
	err      error
	model    bento.Model
	busy     time.Duration // upper bound of time the application was kept busy
	ctx      context.Context
	force    bool // quit at the next window size message
	stopAll  chan struct{}
	escaped  any
	second   bool
	settling bool
	wid      *widRun
	typed    []bento.Key // keys typed into widgets
}

type model struct {
	a   *appRun
	gen int
}

func us(n int) time.Duration { return time.Duration(n) * time.Microsecond }

// cause notes that something happened because of which the run must end.
func (a *appRun) cause(what string) {
	if a.doneF {
		return
	}
	a.causes[what] = true
	if !a.caused {
		a.caused, a.causeT = true, a.rc.now()
	}
}

// ---- application code ----

func (a *appRun) enter(what string) {
	y()
	if a.in != "" {
		a.rc.bad("P05", "overlap", "%s is called while %s is in progress", what, a.in)
	}
	if a.doneF {
		a.rc.bad("P13", "call-after-return", "%s is called after the run has returned", what)
	}
	if !a.inited && what != "init" {
		a.rc.bad("P05", "before-init", "%s is called before init", what)
	}
	a.in = what
}

func (a *appRun) leave() { a.in = ""; y() }

func (a *appRun) slow(d int) {
	if d > 0 && (a.sc.SlowPct == 0 || a.rc.k.r.p(a.sc.SlowPct)) {
		time.Sleep(us(d))
	}
}

func (a *appRun) maybePanic(where string, n int) {
	if a.sc.PanicIn == where && n == a.sc.PanicN && !a.second {
		a.rc.ev("panic", 0, 0, where)
		a.cause("panic")
		a.rc.probe("panic_" + where)
		a.in = ""
		a.boom("boom in "+where, n+int(a.rc.sc.Seed%7))
	}
}

func (m model) Init() bento.Cmd {
	a := m.a
	if a.inited {
		a.rc.bad("P05", "init-again", "init is called a second time")
	}
	a.enter("init")
	a.inited = true
	a.rc.ev("init", 0, 0, "")
	a.trigger("init", 1)
	a.maybePanic("init", 1)
	var c bento.Cmd
	if !a.second && a.sc.Init != nil {
		c = a.root(a.sc.Init)
	}
	if a.wid != nil {
		c = a.wid.init()
	}
	a.leave()
	return c
}

func (m model) Update(msg bento.Msg) (bento.Model, bento.Cmd) {
	a := m.a
	a.updates++
	a.enter("update")
	if m.gen != a.lastGen {
		a.rc.bad("P05", "stale-model", "update %d is called on model %d, but the latest is %d", a.updates, m.gen, a.lastGen)
	}
	if a.updates > 1 && a.drawn != m.gen {
		a.rc.bad("P05", "no-draw", "model %d was never drawn before the next message", m.gen)
	}
	seq := a.rc.ev("update", m.gen, 0, msgName(msg))
	if ws, ok := msg.(bento.WindowSizeMsg); ok {
		a.lastSize = &ws
		a.sizes++
	} else {
		a.checkScreen("before the next message", false)
	}
	a.trigger("update", a.updates)
	a.slow(a.sc.Upd)
	a.maybePanic("update", a.updates)
	cmd := a.handle(msg, seq)
	a.gen++
	a.lastGen = a.gen
	a.leave()
	return model{a, a.gen}, cmd
}

func (m model) Render(area bento.Rect, buf *bento.Buffer) {
	a := m.a
	a.renders++
	a.enter("render")
	if m.gen != a.lastGen {
		a.rc.bad("P05", "stale-draw", "model %d is drawn, but the latest is %d", m.gen, a.lastGen)
	}
	a.drawn = m.gen
	a.rc.ev("render", area.Width, area.Height, "")
	a.trigger("render", a.renders)
	a.slow(a.sc.Draw)
	a.maybePanic("render", a.renders)
	if ba := buf.Area(); ba != area {
		a.rc.bad("P10", "render-area", "render area %v, buffer area %v", area, ba)
	}
	if a.wid != nil {
		a.wid.render(area, buf)
	} else {
		paint(newRng(a.rc.sc.Seed, uint64(m.gen), 0xf4a3e), a.sc.Frame, m.gen, area, buf)
	}
	a.frame = capture(area, buf)
	a.frameRes = a.rc.k.vt.resizes
	a.leave()
}

func msgName(msg bento.Msg) string {
	if id, ok := unwrapMsg(msg); ok {
		return fmt.Sprintf("message %d", id)
	}
	switch m := msg.(type) {
	case bento.KeyMsg:
		return fmt.Sprintf("key %q", trunc(m.String()))
	case bento.WindowSizeMsg:
		return fmt.Sprintf("size %dx%d", m.Width, m.Height)
	case bento.BatchMsg:
		return "batch"
	case bento.MouseMsg:
		return "mouse " + m.String()
	}
	return fmt.Sprintf("%T", msg)
}

func trunc(s string) string {
	if len(s) > 40 {
		return s[:40] + "..."
	}
	return s
}

func (a *appRun) handle(msg bento.Msg, seq int) bento.Cmd {
	if msg == nil {
		a.rc.bad("P01", "nil-message", "update is called with a nil message")
		return nil
	}
	if a.wid != nil {
		return a.wid.update(msg)
	}
	if id, ok := unwrapMsg(msg); ok {
		if id < 0 || id >= len(a.insts) {
			a.rc.bad("P01", "invented", "message %d was never sent", id)
			return nil
		}
		in := a.insts[id]
		in.delivered++
		if in.delivered > 1 {
			a.rc.bad("P01", "twice", "message %d is passed to update %d times", id, in.delivered)
			return nil
		}
		if in.ends == 0 {
			a.rc.bad("P01", "invented", "message %d is passed to update before its command returned", id)
		}
		in.delT, in.delSeq = a.rc.now(), seq
		if in.then > 0 && in.then <= len(a.sc.Specs) && len(a.insts) < a.most() && !a.settling {
			return a.root(&a.sc.Specs[in.then-1])
		}
		return nil
	}
	switch m := msg.(type) {
	case bento.KeyMsg:
		a.saw(m)
		if (a.sc.Bytes != nil || a.sc.Phases > 0) && !a.second {
			if m.Type == bento.KeyF20 && m.Alt {
				return a.quitCmd()
			}
			if a.sc.Phases == 0 {
				return nil
			}
		}
		if m.Type != bento.KeyRunes {
			a.rc.bad("P12", "key", "key %v was never pressed", m)
			return nil
		}
		var cmds []bento.Cmd
		for _, r := range m.Runes {
			switch {
			case r == 'Q' && a.sc.Phases == 0:
				cmds = append(cmds, a.quitCmd())
			case !a.second && r >= 'A' && int(r-'A') < len(a.sc.Specs):
				cmds = append(cmds, a.root(&a.sc.Specs[r-'A']))
			}
		}
		if len(cmds) == 1 {
			return cmds[0]
		}
		return bento.Batch(cmds...)
	case bento.WindowSizeMsg:
		if a.force {
			return a.quitCmd()
		}
	case bento.MouseMsg, bento.FocusMsg, bento.BlurMsg:
		a.saw(m)
		if a.sc.Bytes == nil {
			a.rc.bad("P12", "invented", "%T, but nothing of the kind was sent", msg)
		}
	case bento.QuitMsg:
		// may or may not be shown to the model
	default:
		if t := fmt.Sprintf("%T", msg); !strings.HasPrefix(t, "bento.") {
			a.rc.bad("P01", "invented", "a %s is passed to update, but no command returned one", t)
		} else if strings.Contains(t, "unknown") {
			a.saw(msg)
		}
	}
	return nil
}

// most is the number of commands from which on none lead to others.
func (a *appRun) most() int {
	if a.sc.Phases > 0 {
		return 40
	}
	return 150
}

func (a *appRun) quitCmd() bento.Cmd {
	return func() bento.Msg {
		y()
		a.cause("quit")
		a.rc.ev("quit", 0, 0, "")
		return bento.QuitMsg{}
	}
}

// ---- commands ----

// root builds the command of a spec and notes that it is handed over now.
func (a *appRun) root(sp *CSpec) bento.Cmd {
	in, c := a.build(sp, nil)
	if in != nil {
		a.hand(in)
	}
	return c
}

func (a *appRun) hand(in *inst) {
	in.handed, in.handedT = true, a.rc.now()
	a.rc.ev("handed", in.id, 0, in.kind)
	for _, k := range in.kids {
		a.hand(k)
	}
}

func (a *appRun) build(sp *CSpec, parent *inst) (*inst, bento.Cmd) {
	if sp.Kind == "nil" || len(a.insts) > 500 || a.sc.Phases > 0 && len(a.insts) > 2*a.most() {
		return nil, nil
	}
	in := &inst{id: len(a.insts), kind: sp.Kind, dur: us(sp.Dur), then: sp.Then, parent: parent, made: a.rc.now()}
	a.insts = append(a.insts, in)
	sub := func() (cs []bento.Cmd) {
		for i := range sp.Kids {
			k, c := a.build(&sp.Kids[i], in)
			if k != nil {
				in.kids = append(in.kids, k)
			}
			cs = append(cs, c)
		}
		return
	}
	switch sp.Kind {
	case "batch":
		cs := sub()
		if in.id%3 == 0 { // the caller uses its list again
			_ = bento.Batch(cs...)
		}
		c := bento.Batch(cs...)
		switch kids := in.kids; len(kids) {
		case 0: // no command at all
			in.kind = "collapsed"
			return nil, c
		case 1: // the command itself
			in.kind, in.kids = "collapsed", nil
			kids[0].parent = parent
			return kids[0], c
		}
		return in, c
	case "seq":
		return in, bento.Sequence(sub()...)
	case "rawbatch":
		cs := sub()
		return in, func() bento.Msg {
			a.begin(in)
			a.finished(in)
			return bento.BatchMsg(cs)
		}
	case "tick", "tickpanic":
		// the wrapper tells when the runtime runs it
		d := in.dur + time.Duration(sp.Ns)
		in.dur = max(0, d)
		tick := bento.Tick(d, func(ts time.Time) bento.Msg {
			in.tsCalls++
			in.ts = ts.Sub(a.rc.start)
			a.rc.ev("fired", in.id, int(in.ts/1000), "")
			y()
			if in.kind == "tickpanic" {
				a.crash(in)
			}
			return wrapMsg(in.id)
		})
		return in, func() bento.Msg {
			a.begin(in)
			m := tick()
			a.finished(in)
			return m
		}
	case "block":
		in.release = make(chan struct{})
		return in, func() bento.Msg {
			a.begin(in)
			select {
			case <-in.release:
			case <-a.stopAll:
			}
			a.finished(in)
			return nil
		}
	case "panic":
		return in, func() bento.Msg {
			a.begin(in)
			a.sleep(in.dur)
			a.crash(in)
			return nil
		}
	case "quit":
		return in, func() bento.Msg {
			a.begin(in)
			a.sleep(in.dur)
			a.finished(in)
			a.cause("quit")
			a.rc.ev("quit", in.id, 0, "")
			return bento.Quit()
		}
	case "nilmsg":
		return in, func() bento.Msg {
			a.begin(in)
			a.sleep(in.dur)
			a.finished(in)
			return nil
		}
	default:
		in.kind = "msg"
		return in, func() bento.Msg {
			a.begin(in)
			a.sleep(in.dur)
			a.finished(in)
			return wrapMsg(in.id)
		}
	}
}

func (a *appRun) sleep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
	y()
}

func (a *appRun) begin(in *inst) {
	in.starts++
	seq := a.rc.ev("start", in.id, 0, in.kind)
	if in.starts > 1 {
		a.rc.bad("P02", "twice", "command %d (%s) is executed %d times", in.id, in.kind, in.starts)
		return
	}
	in.startT, in.startSeq = a.rc.now(), seq
	if !in.handed {
		a.rc.bad("P02", "early", "command %d is executed before it was handed over", in.id)
	}
	y()
}

func (a *appRun) finished(in *inst) {
	in.ends++
	in.endT = a.rc.now()
	in.endSeq = a.rc.ev("end", in.id, 0, in.kind)
	y()
}

func (a *appRun) crash(in *inst) {
	in.ends++
	in.endT = a.rc.now()
	in.endSeq = a.rc.ev("panic", in.id, 0, in.kind)
	a.cause("panic")
	a.rc.probe("panic_command")
	a.boom(fmt.Sprintf("boom in command %d", in.id), in.id+int(a.rc.sc.Seed%7))
}

// boom panics, with any kind of value.
func (a *appRun) boom(text string, n int) {
	switch n % 9 {
	case 0:
		panic(text)
	case 1:
		panic(errors.New(text))
	case 2:
		panic(fmt.Errorf("%s: %w", text, context.Canceled))
	case 3:
		panic(fmt.Errorf("%s: %w", text, io.EOF))
	case 4:
		panic(fmt.Errorf("%s: %w", text, bento.ErrKilled))
	case 5:
		var m map[string]int
		m[text] = 1
	case 6:
		panic(n)
	case 7:
		var none []int
		_ = none[n]
	}
	panic(simPanic{text})
}

// ---- the world ----

// trigger runs the operations tied to the n-th event of a kind.
func (a *appRun) trigger(on string, n int) {
	if a.second {
		return
	}
	for i := range a.sc.Ops {
		if op := &a.sc.Ops[i]; op.On == on && op.N == n {
			a.rc.probe("trigger_" + on)
			a.do(op)
		}
	}
}

func (a *appRun) do(op *Op) {
	k := a.rc.k
	a.rc.ev("op", op.Key, op.Dur, fmt.Sprintf("%s %dx%d", op.Kind, op.W, op.H))
	switch op.Kind {
	case "key":
		k.push(inSeg{b: []byte{byte('A' + op.Key)}})
	case "input":
		k.push(op.In.segs()...)
		for _, m := range op.In.want() {
			if key, ok := m.(bento.KeyMsg); ok {
				a.typed = append(a.typed, bento.Key(key))
			}
		}
	case "resize":
		k.resize(op.W, op.H)
	case "cancel":
		if a.cancel != nil {
			a.cause("cancel")
			a.cancel()
		}
	case "eof":
		k.inEOF = true
		k.wake()
	case "inerr":
		k.inErr = syscall.EIO
		k.wake()
	case "outfail":
		k.outErr = syscall.EIO
	case "outtemp":
		k.outTemp++
	case "stall":
		k.outStall = us(op.Dur)
		a.busy += us(op.Dur)
	}
}

func (a *appRun) zeroDelay() bool {
	s := a.sc
	if s.Upd > 0 || s.Draw > 0 || s.K.WriteDelay > 0 {
		return false
	}
	for _, op := range s.Ops {
		if op.Kind == "stall" {
			return false
		}
	}
	return true
}

// bound is how long a run may take to end after its cause.
func (a *appRun) bound() time.Duration {
	if a.zeroDelay() {
		return time.Second
	}
	per := us(a.sc.Upd + a.sc.Draw + 12*a.sc.K.WriteDelay)
	return 2*time.Second + time.Duration(len(a.insts)+len(a.sc.Ops)+60)*per + a.busy
}

// quitKeys is alt+f20.
const quitKeys = "\x1b\x1b[34~"

const settleTime = 90 * time.Second

// long is what a command takes that takes really long, in microseconds.
const long = 60_000_000

// settle is how long it takes until all commands are over.
func (a *appRun) settle() time.Duration {
	d := settleTime
	var spec func(c *CSpec)
	spec = func(c *CSpec) {
		if c.Dur >= long {
			d += us(c.Dur)
		}
		for i := range c.Kids {
			spec(&c.Kids[i])
		}
	}
	if a.sc.Init != nil {
		spec(a.sc.Init)
	}
	for i := range a.sc.Specs {
		spec(&a.sc.Specs[i])
	}
	return d
}

// wait sleeps for d or until the run has returned or, once a cause has
// occurred, the bound is over.
func (a *appRun) wait(d time.Duration) {
	if a.doneF {
		return
	}
	select {
	case <-a.done:
	case <-time.After(d):
	}
}

func runApp(rc *runCtx) {
	s := rc.sc.App
	a := &appRun{rc: rc, sc: s, drawn: -1, causes: map[string]bool{}, stopAll: make(chan struct{})}
	rc.app = a
	rc.setup(s.K, s.W, s.H, s.Term, s.ColorTerm)
	rc.k.vt.bracketed = s.Paste
	if s.Wid != nil {
		a.wid = newWidRun(a, s.Wid)
	}
	if s.Phases > 0 {
		if !s.Again {
			a.launch()
			a.wait(settleTime)
		}
		a.long()
		if !s.Again && !a.doneF {
			rc.k.push(inSeg{b: []byte(quitKeys), gap: true})
		}
		a.await()
		a.after()
		return
	}
	a.launch()

	for i := range s.Ops {
		op := &s.Ops[i]
		if op.On != "" {
			continue
		}
		a.wait(us(op.After))
		if a.doneF {
			break
		}
		if op.Kind == "check" {
			a.wait(settleTime)
			a.settled()
			continue
		}
		a.do(op)
	}
	for i := range s.Bytes {
		in := &s.Bytes[i]
		a.wait(us(in.After))
		if a.doneF {
			break
		}
		sg := in.segs()
		if n := len(sg); n > 0 && in.Kind == "blur" && i+1 < len(s.Bytes) && strings.ContainsAny(s.Bytes[i+1].bytes()[:min(1, len(s.Bytes[i+1].bytes()))], "ABCDabcd") {
			sg[n-1].gap = true // ESC [ O A is a key of its own
		}
		rc.k.push(sg...)
	}
	if s.Bytes != nil && !a.doneF {
		a.wait(settleTime)
		rc.k.push(inSeg{b: []byte(quitKeys), gap: true})
	}
	if a.wid != nil && !a.doneF {
		a.wait(us(s.Wid.Settle) + a.bound())
		a.wid.final()
		if s.Graceful {
			a.settled()
		}
		rc.k.push(inSeg{b: []byte(quitKeys), gap: true})
	} else if s.Graceful {
		a.settling = true                             // commands no longer lead to others
		for n := -1; n != len(a.insts) && !a.doneF; { // keys may still be pressed
			n = len(a.insts)
			a.wait(a.settle())
		}
		a.settled()
		a.accounting()
	}
	if !a.doneF && !a.caused && s.Bytes == nil && a.wid == nil {
		switch s.End {
		case "quit":
			rc.k.push(inSeg{b: []byte("Q")})
		case "cancel":
			a.do(&Op{Kind: "cancel"})
		case "inerr":
			a.do(&Op{Kind: "inerr"})
		case "outfail":
			a.do(&Op{Kind: "outfail"})
			rc.k.push(inSeg{b: []byte("~")})
		case "outtemp":
			a.do(&Op{Kind: "outtemp"})
			rc.k.push(inSeg{b: []byte("~")})
		}
	}
	a.await()
	a.after()
}

// launch starts the application.
func (a *appRun) launch() {
	rc, s := a.rc, a.sc
	ctx := context.Background()
	app := bento.NewApp(model{a, 0})
	switch s.Ctx {
	case "cancel":
		if s.Again && a.ctx != nil { // all runs have the same
			ctx = a.ctx
		} else {
			ctx, a.cancel = context.WithCancel(ctx)
		}
		app = app.WithContext(ctx)
	case "timeout":
		ctx, a.cancel = context.WithTimeout(ctx, us(s.CtxAt))
		app = app.WithContext(ctx)
		context.AfterFunc(ctx, func() { a.cause("cancel") })
	case "custom":
		c := &customCtx{Context: ctx, done: make(chan struct{})}
		a.cancel = func() {
			if c.err == nil {
				c.err = context.Canceled
				close(c.done)
			}
		}
		app = app.WithContext(c)
		ctx = c
	}
	a.ctx = ctx
	a.done = make(chan struct{})
	rc.k.stderr = nil
	a.doneF = false
	rc.k.dead = false
	go func() {
		defer func() {
			a.doneF, a.doneT = true, rc.now()
			rc.k.dead = true
			if r := recover(); r != nil {
				a.escaped = r
				st := string(debug.Stack())
				if f := panicFrame(st); !a.causes["panic"] && strings.HasPrefix(f, "main.") {
					harnessError("panic in the harness: " + st)
				}
			}
			if !a.causes["panic"] && len(rc.k.stderr) > 0 {
				if f := panicFrame(string(rc.k.stderr)); strings.HasPrefix(f, "main.") {
					harnessError("panic in the harness: " + string(rc.k.stderr))
				}
			}
			rc.ev("returned", 0, 0, fmt.Sprint(a.err, " ", a.escaped))
			close(a.done)
		}()
		a.model, a.err = app.Run()
	}()
}

// panicFrame is the function in which a panic with the given stack occurred.
func panicFrame(stack string) string {
	_, rest, ok := strings.Cut(stack, "\npanic(")
	if !ok {
		return ""
	}
	for _, l := range strings.Split(rest, "\n")[1:] {
		if l == "" || l[0] == '\t' || strings.HasPrefix(l, "runtime.") {
			continue
		}
		return l
	}
	return ""
}

type customCtx struct {
	context.Context
	done chan struct{}
	err  error
}

func (c *customCtx) Done() <-chan struct{} { return c.done }
func (c *customCtx) Err() error            { return c.err }

// await waits until the run has returned, forcing an end if nothing else does.
func (a *appRun) await() {
	k := a.rc.k
	for step := 0; !a.doneF; step++ {
		b := a.bound()
		if a.caused {
			left := a.causeT + b - a.rc.now()
			if left > 0 {
				a.wait(left)
				continue
			}
			break
		}
		a.wait(b)
		if a.doneF || a.caused {
			continue
		}
		switch step {
		case 0:
			if !k.inEOF && k.inErr == nil {
				k.push(inSeg{b: []byte("Q")})
			}
		case 1:
			if a.cancel != nil {
				a.do(&Op{Kind: "cancel"})
			}
		case 2:
			a.force = true
			a.do(&Op{Kind: "resize", W: k.w + 1, H: k.h_})
		default:
			a.rc.ev("stuck", 0, 0, goroutines())
			a.rc.stuck = true
			a.rc.bad("P06", "hang", "nothing makes the run end; goroutines: %s", goroutines())
			a.unended()
			return
		}
	}
	if !a.doneF {
		a.rc.stuck = true
		a.rc.ev("stuck", 0, 0, goroutines())
		a.rc.bad("P06", "hang", "%v after %v the run has not returned; goroutines: %s", a.rc.now()-a.causeT, keys(a.causes), goroutines())
		a.unended()
	}
}

// unended checks what must hold even if the run fails to end.
func (a *appRun) unended() {
	if a.causes["panic"] {
		a.rc.bad("P09", "runs-on", "application code panicked, but the run does not end")
	}
	if a.caused {
		a.restored("when the run should have returned")
	}
}

func keys(m map[string]bool) []string { return sortedKeys(m) }
