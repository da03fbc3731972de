package main

import (
	"context"
	"errors"
	"fmt"
	"os/signal"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/metafates/bento"
)

// settled checks what must hold whenever nothing has happened for a while.
func (a *appRun) settled() {
	if a.doneF || a.caused {
		return
	}
	k := a.rc.k
	a.rc.probe("settled")
	if k.sizeFailed {
		return
	}
	if a.lastSize == nil {
		a.rc.bad("P10", "no-size", "the model was never told the size of the terminal")
	} else if a.lastSize.Width != k.w || a.lastSize.Height != k.h_ {
		a.rc.bad("P10", "size-stale", "the model was last told %dx%d, the terminal is %dx%d", a.lastSize.Width, a.lastSize.Height, k.w, k.h_)
	}
	if a.frame == nil {
		a.rc.bad("P10", "no-frame", "nothing was drawn")
		return
	}
	if f := a.frame.area; f.Width != k.w || f.Height != k.h_ {
		a.rc.bad("P10", "frame-stale", "the model renders into %dx%d, the terminal is %dx%d", f.Width, f.Height, k.w, k.h_)
		return
	}
	// a command that is run again and again may have ended right now
	for n, w := 0, k.nwrite; n < 20 && !a.doneF; n++ {
		runtime.SimWait()
		if k.writing == 0 {
			break
		}
		a.wait(137 * time.Millisecond)
		if n == 19 && k.nwrite != w {
			return
		}
	}
	if a.doneF || a.caused {
		return
	}
	if d := a.frame.diff(k.vt); d != "" {
		a.rc.bad("P10", "screen-stale", "the screen is not the last frame: %s", d)
	}
	a.checkScreen("after everything has settled", true)
}

// checkScreen compares the screen with the last frame. Before the end, the
// comparison is made only when no resize is on its way.
func (a *appRun) checkScreen(when string, final bool) {
	k := a.rc.k
	v := k.vt
	if v.ctrl > 0 {
		a.rc.bad("P11", "control", "%d control characters of the application's text reached the terminal", v.ctrl)
	}
	if len(v.unknown) > 0 {
		a.rc.bad("P11", "garbage", "the terminal received sequences it does not understand: %q", v.unknown[0])
	}
	if a.frame == nil || k.outFailed {
		return
	}
	if !final && (v.cleared != v.resizes || a.frame.area.Width != v.w || a.frame.area.Height != v.h || a.frameRes != v.resizes) {
		return
	}
	if a.frame.area.Width != v.w || a.frame.area.Height != v.h {
		return
	}
	a.rc.probe("frame_compared")
	if !v.altOn {
		a.rc.bad("P11", "no-alt", "the alternate screen is not shown while the application runs")
		return
	}
	if d := a.frame.diff(v); d != "" {
		a.rc.bad("P11", "screen", "%s, the screen is not the frame that was drawn: %s", when, d)
	}
}

// accounting checks, after a run in which everything has settled and nothing
// has ended it, that every command and message was dealt with.
func (a *appRun) accounting() {
	if a.doneF || a.caused {
		return
	}
	rc := a.rc
	rc.probe("accounted")
	zero := a.zeroDelay()
	for _, in := range a.insts {
		if in.parent == nil && in.handed {
			a.expect(in, in.handedT, zero)
		}
	}
	for _, in := range a.insts {
		if !in.leaf() || in.ends == 0 || !in.returnsMsg() {
			continue
		}
		if in.delivered == 0 {
			rc.bad("P01", "lost", "the message of command %d (%s, returned at %v) never reached update", in.id, in.kind, in.endT)
			if zero {
				rc.bad("P04", "lost", "the message of command %d (%s, returned at %v) is never handled", in.id, in.kind, in.endT)
			}
			if in.kind == "tick" {
				rc.bad("P14", "lost", "the message of tick command %d (created %v for %v) is never delivered", in.id, in.made, in.dur)
			}
			continue
		}
		if zero && in.delT != in.endT {
			rc.bad("P04", "late-message", "command %d (%s) returned at %v, its message was handled at %v", in.id, in.kind, in.endT, in.delT)
			if in.kind == "tick" {
				rc.bad("P14", "late-message", "tick command %d fired at %v, its message was handled at %v", in.id, in.ts, in.delT)
			}
		}
		if in.delT > in.endT+a.bound() {
			rc.bad("P04", "late-message", "command %d (%s) returned at %v, its message was handled at %v", in.id, in.kind, in.endT, in.delT)
		}
	}
}

// expect checks that a command was executed from t on, and returns when it
// was over (ok false: never).
func (a *appRun) expect(in *inst, t time.Duration, zero bool) (end time.Duration, ok bool) {
	rc := a.rc
	if in.leaf() || in.kind == "rawbatch" {
		if in.starts == 0 {
			rc.bad("P02", "lost", "command %d (%s), handed over at %v, is never executed", in.id, in.kind, in.handedT)
			if zero {
				rc.bad("P04", "never", "command %d (%s), due at %v, is never executed", in.id, in.kind, t)
			}
			if in.kind == "tick" {
				rc.bad("P14", "lost", "tick command %d is never executed", in.id)
			}
			if in.parent != nil && in.parent.kind == "seq" {
				rc.bad("P03", "skipped", "command %d of sequence %d is never executed, though those before it are over", in.id, in.parent.id)
			}
			return 0, false
		}
		if zero && in.startT != t {
			rc.bad("P04", "late-start", "command %d (%s), due at %v, is executed at %v", in.id, in.kind, t, in.startT)
		}
		if !zero && in.startT > t+a.bound() {
			rc.bad("P04", "late-start", "command %d (%s), due at %v, is executed at %v", in.id, in.kind, t, in.startT)
		}
		if in.kind != "rawbatch" {
			if in.ends == 0 {
				if in.kind != "block" {
					rc.bad("P14", "stuck", "command %d (%s, %v) started at %v never ends", in.id, in.kind, in.dur, in.startT)
				}
				return 0, false
			}
			return in.endT, true
		}
		t = in.startT
	}
	rc.probe("container_" + in.kind)
	switch in.kind {
	case "batch", "rawbatch":
		end, ok = t, true
		for _, k := range in.kids {
			e, o := a.expect(k, t, zero)
			if k.leaf() {
				ok = ok && o
				end = max(end, e)
			}
		}
		if in.parent == nil || in.parent.kind != "seq" {
			// a batch that is not sequenced is over at once for others
			return end, ok
		}
	case "seq":
		at := t
		for _, k := range in.kids {
			e, o := a.expect(k, at, zero)
			if k.kind == "seq" {
				continue // a nested sequence runs on its own
			}
			if !o {
				return 0, false
			}
			if !zero {
				e = max(e, at)
			}
			at = e
		}
		end, ok = t, true
	}
	return end, ok
}

// order checks the sequencing rules over the whole history.
func (a *appRun) order() {
	rc := a.rc
	for _, sq := range a.insts {
		if sq.kind != "seq" {
			continue
		}
		for i := 1; i < len(sq.kids); i++ {
			next, prev := sq.kids[i], sq.kids[i-1]
			s := firstStart(next)
			if s < 0 {
				continue
			}
			rc.probe("sequence_step")
			for _, m := range members(prev) {
				if m.ends == 0 || m.endSeq > s {
					rc.bad("P03", "overlap", "command %d of sequence %d starts before command %d (%s) before it is over", next.id, sq.id, m.id, m.kind)
					continue
				}
				if m.parent == sq && m.returnsMsg() && (m.delivered == 0 || m.delSeq > s) {
					// its message must be the next one handled
					for _, e := range rc.log[s:] {
						if e.kind == "update" {
							if e.s != fmt.Sprintf("message %d", m.id) {
								rc.bad("P03", "handover", "command %d of sequence %d starts before the message of command %d before it was handed over", next.id, sq.id, m.id)
							}
							break
						}
					}
				}
			}
		}
		last := -1
		var lastIn *inst
		for _, k := range sq.kids {
			if k.leaf() && k.returnsMsg() && k.delivered > 0 {
				if k.delSeq < last {
					rc.bad("P03", "message-order", "in sequence %d the message of command %d is handled before that of command %d", sq.id, k.id, lastIn.id)
				}
				last, lastIn = k.delSeq, k
			}
		}
	}
}

// firstStart is when a member of a sequence started (position in the log).
func firstStart(in *inst) int {
	if in.leaf() || in.kind == "rawbatch" {
		if in.starts > 0 {
			return in.startSeq
		}
		return -1
	}
	f := -1
	for _, k := range in.kids {
		if s := firstStart(k); s >= 0 && (f < 0 || s < f) {
			f = s
		}
	}
	return f
}

// members lists the commands that must be over before the next member of a
// sequence starts.
func members(in *inst) []*inst {
	switch {
	case in.leaf():
		return []*inst{in}
	case in.kind == "seq":
		return nil
	}
	var out []*inst
	for _, k := range in.kids {
		if k.leaf() {
			out = append(out, k)
		}
	}
	return out
}

func (a *appRun) ticks() {
	for _, in := range a.insts {
		if in.kind != "tick" || in.starts == 0 {
			continue
		}
		if in.tsCalls > 1 {
			a.rc.bad("P14", "twice", "the function of tick command %d is called %d times", in.id, in.tsCalls)
		}
		if in.tsCalls > 0 {
			a.rc.probe("tick_fired")
			due := in.made + in.dur
			if in.ts < due || in.ends > 0 && in.endT < due {
				a.rc.bad("P14", "early", "tick command %d, created at %v for %v, fired with time %v at %v", in.id, in.made, in.dur, in.ts, in.endT)
			} else if in.ts > due {
				a.rc.bad("P14", "timestamp", "tick command %d, created at %v for %v, is given the time %v", in.id, in.made, in.dur, in.ts)
			}
			if w := max(due, in.startT); in.endT > w {
				a.rc.bad("P14", "late", "tick command %d, due at %v, ends at %v", in.id, w, in.endT)
			}
		}
	}
}

// after checks what must hold once the run has returned (or is stuck).
func (a *appRun) after() {
	rc, k, s := a.rc, a.rc.k, a.sc
	a.order()
	a.ticks()
	if !a.doneF {
		return
	}
	rc.probe("returned")
	if a.ctx != nil && a.ctx.Err() != nil {
		a.causes["cancel"] = true
	}
	if a.escaped != nil {
		rc.bad("P09", "escaped", "the panic %q leaves Run", fmt.Sprint(a.escaped))
	}
	if k.outFailed {
		a.causes["write"] = true
	}
	if k.inFailed {
		a.causes["read"] = true
	}
	for c := range a.causes {
		rc.probe("cause_" + c)
	}
	if len(a.causes) > 1 {
		rc.probe("several_causes")
	}
	a.result()
	a.restored("when the run returned")
	if s.Bytes != nil {
		a.inputs()
		a.names()
	}
	a.leftovers()
}

// result checks what Run returned.
func (a *appRun) result() {
	rc, k := a.rc, a.rc.k
	setup := k.openFailed || k.faults["pipe_fail"] > 0 || k.getFailed || k.setFailed > 0 || k.sizeFailed
	panicked := a.causes["panic"]
	err := a.err
	killed := errors.Is(err, bento.ErrKilled)
	io := errors.Is(err, syscall.EIO) || errors.Is(err, syscall.EAGAIN) || errors.Is(err, syscall.ENXIO) || errors.Is(err, syscall.EMFILE)
	switch {
	case panicked && len(a.causes) == 1 && err == nil:
		rc.bad("P09", "no-error", "application code panicked, but the run returns no error")
	case panicked:
	case err == nil && !a.causes["quit"]:
		rc.bad("P07", "success", "the run ended because of %v (setup failed: %v), but returns no error", keys(a.causes), setup)
	case err == nil && (k.sizeFailed || k.setFailed > 0) && a.caused && a.causeT > k.ioctlFailT+a.bound():
		rc.bad("P07", "ignored", "a terminal operation failed at %v, but the application runs on until %v and then returns no error", k.ioctlFailT, a.causeT)
	case err == nil && k.outFailed:
		rc.bad("P07", "success-write", "a write failed, but the run returns no error")
	case err != nil && len(a.causes) == 1 && a.causes["quit"] && !setup:
		rc.bad("P07", "quit-error", "the application quit, but the run returns the error %v", err)
	case err != nil && len(a.causes) == 0 && !setup:
		rc.bad("P07", "no-cause", "the run returns the error %v, but nothing happened", err)
	case killed && !a.causes["cancel"]:
		rc.bad("P07", "killed", "the run reports %v, but its context was not cancelled; what happened: %v", err, keys(a.causes))
	case err != nil && !a.causes["cancel"] && !io:
		rc.bad("P07", "unwrapped", "the error %v does not wrap what went wrong (%v)", err, keys(a.causes))
	case err != nil && a.causes["cancel"] && !killed && !io:
		rc.bad("P07", "not-killed", "the context was cancelled, but the run returns the error %v", err)
	}
	if !panicked && a.inited && a.drawn >= 0 {
		m, ok := a.model.(model)
		if setup && !ok {
			return
		}
		if !ok || m.gen != a.lastGen {
			g := -1
			if ok {
				g = m.gen
			}
			rc.bad("P05", "final-model", "the run returns model %d, the last update returned %d", g, a.lastGen)
			rc.bad("P07", "final-model", "the run returns model %d, the last update returned %d", g, a.lastGen)
		}
	}
}

// restored checks that the terminal is as it was found.
func (a *appRun) restored(when string) {
	rc, k := a.rc, a.rc.k
	if k.termios != k.orig && k.setFailed == 0 {
		rc.bad("P08", "termios", "%s the line settings are not those from before", when)
	}
	if k.outErr != nil {
		return
	}
	failed := strings.Join(k.failedOut, "")
	v := k.vt
	if v.altOn && !strings.Contains(failed, "1049l") {
		rc.bad("P08", "alt-screen", "%s the alternate screen is still shown", when)
	}
	if !v.cursorOn && !strings.Contains(failed, "?25h") {
		rc.bad("P08", "cursor", "%s the cursor is hidden", when)
	}
	if v.bracketed && k.nwrite > 0 && !strings.Contains(failed, "2004l") {
		rc.bad("P08", "paste", "%s bracketed paste is on", when)
	}
	if !v.altOn && !a.causes["panic"] && len(k.failedOut) == 0 {
		for y := range v.main {
			for x := range v.main[y] {
				if v.main[y][x] != k.shadow[y][x] {
					rc.bad("P08", "content", "%s the normal screen has %v at (%d,%d), it had %v", when, v.main[y][x], x, y, k.shadow[y][x])
					return
				}
			}
		}
	}
	if v.cur != (vstyle{}) && len(k.failedOut) == 0 {
		rc.bad("P08", "style", "%s text is written in the style %+v", when, v.cur)
	}
}

func (a *appRun) inProgress() int {
	n := 0
	for _, in := range a.insts {
		if in.starts > in.ends {
			n++
			for p := in.parent; p != nil; p = p.parent {
				if p.kind == "seq" {
					n++
					break
				}
			}
		}
	}
	return n
}

// leftovers checks that nothing of the run is left, and that another
// application can use the terminal.
func (a *appRun) leftovers() {
	rc, k, s := a.rc, a.rc.k, a.sc
	runtime.SimWait()
	if n, may := len(runtime.SimBlocked()), a.inProgress(); n > may {
		rc.bad("P13", "goroutines", "%d goroutines are left (%d commands are executing): %s", n, may, goroutines())
	}
	if signal.SimWanted(syscall.SIGWINCH) {
		rc.bad("P13", "signal", "the application is still registered for window changes")
	}
	if n := k.openFds(); n > 0 {
		rc.bad("P13", "descriptors", "%d descriptors are left open", n)
	}
	// what is typed from now on belongs to whoever reads next
	k.in, k.inEOF, k.inErr = nil, false, nil
	k.outErr, k.outTemp, k.outStall = nil, 0, 0
	k.cfg = KernelCfg{StdinTTY: k.cfg.StdinTTY}
	upd, ren := a.updates, a.renders
	k.push(inSeg{b: []byte("xyQ")})
	k.resize(k.w, k.h_)
	time.Sleep(3 * time.Second)
	if k.afterR > 0 || len(k.in) != 1 {
		rc.bad("P13", "reads", "the application still reads from the terminal after the run has returned")
	}
	if k.afterW > 0 {
		rc.bad("P13", "writes", "the application still writes to the terminal after the run has returned")
	}
	if a.updates != upd || a.renders != ren {
		rc.bad("P13", "calls", "the model is still called after the run has returned")
	}
	if rc.stuck {
		return
	}
	if s.Second && len(rc.viols) == 0 && a.escaped == nil {
		rc.probe("second_run")
		b := &appRun{rc: rc, sc: &AppSc{W: k.w, H: k.h_}, drawn: -1, causes: map[string]bool{}, second: true, stopAll: a.stopAll}
		rc.app = b
		k.termios, k.failedOut, k.outFailed, k.setFailed = k.orig, nil, false, 0
		k.vt = newVT(k.w, k.h_)
		k.shadow = regrid(k.vt.main, k.w, k.h_)
		b.launch()
		b.wait(10 * time.Second)
		switch {
		case !b.doneF:
			rc.bad("P13", "second-hangs", "another application started on the terminal does not see its input")
			rc.stuck = true
			return
		case b.err != nil:
			rc.bad("P13", "second-fails", "another application started on the terminal fails: %v", b.err)
		case b.renders == 0 || b.updates == 0:
			rc.bad("P13", "second-idle", "another application started on the terminal does nothing")
		}
		b.restored("when a second run returned")
		rc.app = a
	}
	close(a.stopAll)
	if a.cancel != nil {
		a.cancel()
	}
	time.Sleep(a.settle())
	runtime.SimWait()
	if n := len(runtime.SimBlocked()); n > 0 {
		rc.bad("P13", "goroutines-late", "%d goroutines are left after all commands are over: %s", n, goroutines())
		rc.stuck = true
	}
	for _, in := range a.insts {
		if in.starts > 1 {
			rc.bad("P02", "twice", "command %d is executed %d times", in.id, in.starts)
		}
	}
	if k.afterW > 0 && k.h.app == a && !s.Second {
		rc.bad("P13", "writes", "the application still writes to the terminal after the run has returned")
	}
}

var _ = context.Canceled
