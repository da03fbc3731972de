package main

import (
	"errors"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/metafates/bento"
	"github.com/rivo/uniseg"
)

// TermSc is a scenario that drives a terminal directly: a history of frames,
// resizes and clears over a terminal that is slow, writes short and fails.
type TermSc struct {
	W, H      int
	Term      string
	ColorTerm string
	K         KernelCfg
	Alt       bool
	Fixed     bool // a fixed viewport instead of the whole screen
	VX, VY    int
	VW, VH    int
	Steps     []TStep
}

// TStep is one step of the history.
type TStep struct {
	Kind   string  // draw, panic, resize, clear, midresize, fail
	Layers []Layer `json:",omitempty"`
	W, H   int     `json:",omitempty"`
	X, Y   int     `json:",omitempty"`
	After  int     `json:",omitempty"` // microseconds after which a midresize happens
}

// Layer is one piece of a frame. Layers with the same seed are identical.
type Layer struct {
	Kind string // words, fill, style, cell, skip
	Seed uint64
}

// wideOrTall is a window larger than the usual ones in one direction.
func wideOrTall(r *rng) (int, int) {
	if r.p(60) {
		return r.in(200, 300), r.in(1, 2)
	}
	return r.in(1, 3), r.in(50, 100)
}

func genTerm(r *rng) *TermSc {
	s := &TermSc{W: r.in(1, 16), H: r.in(1, 5), K: KernelCfg{StdinTTY: true}, Alt: r.p(70)}
	if r.p(5) {
		s.W, s.H = 80, 24
	}
	if r.p(3) {
		s.W, s.H = wideOrTall(r)
	}
	switch r.n(5) {
	case 0, 1:
		s.Term, s.ColorTerm = "xterm-256color", "truecolor"
	case 2:
		s.Term = "xterm-256color"
	case 3:
		s.Term = "xterm"
	case 4:
		s.Term = "dumb"
	}
	if r.p(35) {
		s.Fixed = true
		s.VX, s.VY = r.n(s.W), r.n(s.H)
		s.VW, s.VH = r.in(0, s.W-s.VX), r.in(0, s.H-s.VY)
	}
	if r.p(50) {
		s.K.ShortWrites = pick(r, 10, 60, 100)
	}
	if r.p(30) {
		s.K.EINTR = pick(r, 10, 50)
	}
	if r.p(30) {
		s.K.WriteDelay = pick(r, 5, 500)
	}
	fails, panics := r.p(25), r.p(10)
	var pool []Layer
	for i := r.in(2, 10); i > 0; i-- {
		pool = append(pool, Layer{pick(r, "words", "words", "words", "fill", "style", "cell", "cell", "skip"), r.next() >> 40})
	}
	var layers []Layer
	for i := r.in(0, 4); i > 0; i-- {
		layers = append(layers, pool[r.n(len(pool))])
	}
	w, h := s.W, s.H
	for n := r.in(2, pick(r, 4, 12, 40)); n > 0; n-- {
		p := r.n(100)
		switch {
		case p < 5:
			s.Steps = append(s.Steps, TStep{Kind: "clear"})
		case p < 18 && !s.Fixed:
			w, h = r.in(0, 16), r.in(0, 5)
			if r.p(3) {
				w, h = wideOrTall(r)
			}
			k := "resize"
			st := TStep{W: w, H: h}
			if r.p(30) {
				k, st.After = "midresize", pick(r, 0, 3, 100, 700)
			}
			st.Kind = k
			s.Steps = append(s.Steps, st)
		case p < 12 && s.Fixed:
			x, y := r.n(w), r.n(h)
			s.Steps = append(s.Steps, TStep{Kind: "resize", X: x, Y: y, W: r.in(0, w-x), H: r.in(0, h-y)})
		case p < 30 && fails:
			s.Steps = append(s.Steps, TStep{Kind: "fail", W: r.n(3)})
		}
		// the next frame differs from this one in a few layers
		layers = append([]Layer(nil), layers...)
		for j := r.n(3); j > 0; j-- {
			switch {
			case len(layers) == 0 || r.p(40) && len(layers) < 8:
				layers = append(layers, pool[r.n(len(pool))])
			case r.p(60):
				layers[r.n(len(layers))] = pool[r.n(len(pool))]
			default:
				i := r.n(len(layers))
				layers = append(layers[:i], layers[i+1:]...)
			}
		}
		if panics && r.p(25) { // what the widget has drawn until then is lost
			s.Steps = append(s.Steps, TStep{Kind: "panic", Layers: pool[r.n(len(pool)):]})
		}
		s.Steps = append(s.Steps, TStep{Kind: "draw", Layers: layers})
	}
	return s
}

func (s *TermSc) valid() bool {
	if s.W < 0 || s.H < 0 || s.W > 300 || s.H > 100 {
		return false
	}
	in := func(x, y, w, h int) bool {
		return x >= 0 && y >= 0 && w >= 0 && h >= 0 && x+w <= s.W && y+h <= s.H
	}
	if s.Fixed && !in(s.VX, s.VY, s.VW, s.VH) {
		return false
	}
	for _, st := range s.Steps {
		if st.W < 0 || st.H < 0 || st.W > 300 || st.H > 100 || st.After < 0 {
			return false
		}
		if s.Fixed && (st.Kind == "midresize" || st.Kind == "resize" && !in(st.X, st.Y, st.W, st.H)) {
			return false
		}
	}
	return true
}

// drawLayer draws one layer through the public drawing calls.
func drawLayer(l Layer, area bento.Rect, buf *bento.Buffer) {
	if area.Width <= 0 || area.Height <= 0 {
		return
	}
	r := newRng(l.Seed, 0x1a7e4)
	x, y := area.X+r.n(area.Width), area.Y+r.n(area.Height)
	st := bento.NewStyle()
	if r.p(50) {
		st = st.WithForeground(pick(r, colors...))
	}
	if r.p(40) {
		st = st.WithBackground(pick(r, colors...))
	}
	if r.p(50) {
		for j := r.in(1, 3); j > 0; j-- {
			st = st.WithModifier(attrs[r.n(len(attrs))].m)
		}
	}
	switch l.Kind {
	case "words":
		buf.SetString(x, y, pick(r, words...)+pick(r, words...), st)
	case "fill":
		w := pick(r, "世", ".", "é", "🙂", "ab")
		t := ""
		for len(t) < 4*area.Width {
			t += w
		}
		for y := area.Top(); y < area.Bottom(); y++ {
			if r.p(70) {
				buf.SetString(area.X+r.n(2), y, t, st)
			}
		}
	case "style":
		w, h := 1+r.n(area.Width), 1+r.n(area.Height)
		buf.SetStyle(bento.NewRect(w, h).Positioned(x, y), st)
	case "cell":
		c := buf.CellAt(bento.NewPosition(x, y))
		c.SetSymbol(pick(r, "a", "é", "─", "e\u0301", "x")).SetStyle(st)
		if r.p(30) {
			c.AppendSymbol("\u0301")
		}
	case "skip":
		c := buf.CellAt(bento.NewPosition(x, y))
		c.Reset()
		c.Skip = true
	}
}

// wellFormed makes wide characters fit their row.
func wellFormed(area bento.Rect, buf *bento.Buffer) {
	for y := area.Top(); y < area.Bottom(); y++ {
		for x := area.Left(); x < area.Right(); x++ {
			if uniseg.StringWidth(buf.CellAt(bento.NewPosition(x, y)).Symbol) == 2 {
				if x+1 >= area.Right() {
					buf.CellAt(bento.NewPosition(x, y)).Reset()
					continue
				}
				x++
			}
		}
	}
}

type drawFunc func(area bento.Rect, buf *bento.Buffer)

func (f drawFunc) Render(area bento.Rect, buf *bento.Buffer) { f(area, buf) }

var errPanic = errors.New("the widget panics")

func runTerm(rc *runCtx) {
	s := rc.sc.Term
	rc.setup(s.K, s.W, s.H, s.Term, s.ColorTerm)
	k := rc.k
	k.stderr = nil
	be := bento.NewDefaultBackend(os.Stdin, os.Stdout)
	var vp bento.Viewport = bento.ViewportFullscreen{}
	area := bento.NewRect(s.W, s.H)
	if s.Fixed {
		area = bento.NewRect(s.VW, s.VH).Positioned(s.VX, s.VY)
		vp = bento.ViewportFixed(area)
	}
	t, err := bento.NewTerminal(&be, vp)
	if err != nil {
		harnessError("NewTerminal: " + err.Error())
	}
	if s.Alt {
		if err := t.EnableAlternateScreen(); err != nil {
			harnessError(err.Error())
		}
	}
	if err := t.Clear(); err != nil {
		harnessError(err.Error())
	}
	var bg sync.WaitGroup
	defer bg.Wait()
	failed := false // a failed draw is not made up for yet
	drawn, told := 0, k.vt.resizes
	for i, st := range s.Steps {
		y()
		switch st.Kind {
		case "resize":
			if !s.Fixed {
				k.resize(st.W, st.H)
				told = k.vt.resizes
			}
			area = bento.NewRect(st.W, st.H).Positioned(st.X, st.Y)
			if err := t.Resize(area); err != nil {
				failed = true
				rc.ev("resize-error", i, 0, err.Error())
				if k.outFailedN == 0 {
					rc.bad("P11", "resize", "step %d: resize: %v", i, err)
				}
			}
			rc.ev("resize", st.W, st.H, "")
		case "midresize":
			bg.Add(1)
			go func() {
				defer bg.Done()
				time.Sleep(us(st.After))
				k.resize(st.W, st.H)
			}()
		case "clear":
			if err := t.Clear(); err != nil {
				failed = true
				rc.ev("clear-error", i, 0, err.Error())
			}
		case "fail":
			k.outTemp = 1 + st.W
		case "draw", "panic":
			rz := k.vt.resizes
			if !s.Fixed && (rz != told || k.w != area.Width || k.h_ != area.Height) {
				// what an application does when it is told
				told = rz
				area = bento.NewRect(k.w, k.h_)
				if err := t.Resize(area); err != nil {
					rc.ev("resize-error", i, 0, err.Error())
					failed = true
				}
			}
			var f *frame
			outside := outsideOf(k.vt, area)
			nfail := k.outFailedN
			draw := func(w bento.Widget) (err error) {
				_, err = t.Draw(w)
				return err
			}
			if st.Kind == "panic" {
				draw = func(w bento.Widget) (err error) {
					defer func() {
						if r := recover(); r != nil && r != errPanic {
							panic(r)
						}
					}()
					_, err = t.Draw(w)
					if err == nil {
						rc.bad("P11", "no-panic", "step %d: the panic of the widget does not reach whoever draws", i)
					}
					return err
				}
			}
			err := draw(drawFunc(func(a bento.Rect, buf *bento.Buffer) {
				if a != area || buf.Area() != area {
					rc.bad("P11", "area", "step %d: the frame is %v, the buffer %v, but the viewport is %v", i, a, buf.Area(), area)
				}
				for y := a.Top(); y < a.Bottom(); y++ {
					for x := a.Left(); x < a.Right(); x++ {
						if c := *buf.CellAt(bento.NewPosition(x, y)); c != bento.NewEmptyCell() {
							rc.bad("P11", "leftover", "step %d: the frame starts with %+v at (%d,%d) instead of empty", i, c, x, y)
						}
					}
				}
				for _, l := range st.Layers {
					drawLayer(l, a, buf)
				}
				if st.Kind == "panic" {
					panic(errPanic)
				}
				wellFormed(a, buf)
				f = capture(a, buf)
			}))
			if st.Kind == "panic" {
				rc.ev("panic", i, drawn, "")
				failed = failed || err != nil
				rc.probe("panic_while_drawing")
				continue
			}
			if err != nil {
				failed = true
				rc.ev("draw-error", i, 0, err.Error())
				if k.outFailedN == nfail {
					rc.bad("P11", "error", "step %d: draw fails, but no write has: %v", i, err)
				}
				continue
			}
			rc.ev("drawn", i, drawn, "")
			drawn++
			if k.outFailedN > nfail {
				rc.bad("P11", "swallowed", "step %d: a write fails, but draw does not", i)
			}
			if k.vt.resizes != rz || !s.Fixed && (k.w != area.Width || k.h_ != area.Height) {
				continue
			}
			if failed {
				rc.probe("frame_after_failure")
				failed = false
			}
			if k.vt.ctrl > 0 {
				rc.bad("P11", "control", "%d control characters of the application's text reached the terminal", k.vt.ctrl)
			}
			if len(k.vt.unknown) > 0 && k.outFailedN == 0 {
				rc.bad("P11", "garbage", "the terminal received sequences it does not understand: %q", k.vt.unknown[0])
			}
			if k.vt.cursorOn {
				rc.bad("P11", "cursor", "step %d: the cursor is shown", i)
			}
			rc.probe("frame_compared")
			if drawn > 1 {
				rc.probe("checked")
			}
			if d := f.diff(k.vt); d != "" {
				rc.bad("P11", "screen", "step %d: the screen is not the frame that was drawn: %s", i, d)
			}
			if k.outFailedN == 0 {
				if d := outside.diff(k.vt); d != "" {
					rc.bad("P11", "outside", "step %d: drawing changes the screen outside the viewport: %s", i, d)
				}
			}
		}
		if len(rc.viols) > 0 {
			return
		}
	}
}

// outside is what the screen shows outside a viewport.
type outside struct {
	area    bento.Rect
	resizes int
	cells   map[[2]int]vcell
}

func outsideOf(v *vt, area bento.Rect) outside { return outsideOfGrid(v.grid(), area, v.resizes) }

func outsideOfGrid(g [][]vcell, area bento.Rect, resizes int) outside {
	o := outside{area, resizes, map[[2]int]vcell{}}
	for y, row := range g {
		for x, c := range row {
			if !area.Contains(bento.NewPosition(x, y)) {
				o.cells[[2]int{x, y}] = c
			}
		}
	}
	return o
}

func (o outside) diff(v *vt) string {
	if v.resizes != o.resizes {
		return ""
	}
	for y, row := range v.grid() {
		for x, c := range row {
			if want, ok := o.cells[[2]int{x, y}]; ok && want != c {
				return fmt.Sprintf("(%d,%d) shows %v instead of %v", x, y, c, want)
			}
		}
	}
	return ""
}
