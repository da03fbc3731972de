package main

import (
	"fmt"
	"os"

	"github.com/metafates/bento"
	"golang.org/x/sys/unix"
)

// ViewSc is a scenario in which terminals with fixed viewports, side by side
// on one screen, are driven directly, along with another program that writes
// to the same screen (P22).
type ViewSc struct {
	W, H      int
	Term      string
	ColorTerm string
	K         KernelCfg
	Views     []VArea
	Steps     []VStep
}

type VArea struct{ X, Y, W, H int }

func (a VArea) rect() bento.Rect { return bento.NewRect(a.W, a.H).Positioned(a.X, a.Y) }

// VStep is one operation, on the view V where there is a choice.
type VStep struct {
	Kind   string  // draw, clear, resize, cursor, hide, raw, cooked, stty, alt, main, paste, nopaste, window, other
	V      int     `json:",omitempty"`
	A      VArea   // resize, window, cursor, other
	Layers []Layer `json:",omitempty"`
	S      string  `json:",omitempty"` // what the other program writes
}

// strip is the part of the screen view i may use.
func (s *ViewSc) strip(i int) VArea {
	n := len(s.Views)
	from, to := i*s.W/n, (i+1)*s.W/n
	return VArea{from, 0, to - from, s.H}
}

func (a VArea) within(b VArea) bool {
	return a.W >= 0 && a.H >= 0 && a.X >= b.X && a.Y >= b.Y && a.X+a.W <= b.X+b.W && a.Y+a.H <= b.Y+b.H
}

func (a VArea) some(r *rng) VArea {
	if a.W <= 0 || a.H <= 0 {
		return a
	}
	b := VArea{X: a.X + r.n(a.W), Y: a.Y + r.n(a.H)}
	b.W, b.H = r.in(0, a.X+a.W-b.X), r.in(0, a.Y+a.H-b.Y)
	if r.p(30) {
		b.X, b.W = a.X, a.W
	}
	return b
}

func genViews(r *rng) *ViewSc {
	s := &ViewSc{W: r.in(1, 30), H: r.in(1, 8), K: KernelCfg{StdinTTY: true}}
	if r.p(3) {
		s.W, s.H = wideOrTall(r)
	}
	s.Term, s.ColorTerm = "xterm-256color", pick(r, "truecolor", "truecolor", "")
	if r.p(50) {
		s.K.ShortWrites = pick(r, 10, 60, 100)
	}
	if r.p(30) {
		s.K.EINTR = pick(r, 10, 50)
	}
	if r.p(20) {
		s.K.WriteDelay = pick(r, 5, 500)
	}
	s.Views = make([]VArea, r.in(1, 3))
	for i := range s.Views {
		s.Views[i] = s.strip(i).some(r)
	}
	var pool []Layer
	for i := r.in(2, 10); i > 0; i-- {
		pool = append(pool, Layer{pick(r, "words", "words", "words", "fill", "style", "cell", "cell"), r.next() >> 40})
	}
	w, h := s.W, s.H
	for n := r.in(2, pick(r, 5, 15, 40)); n > 0; n-- {
		v := r.n(len(s.Views))
		st := VStep{V: v}
		switch p := r.n(100); {
		case p < 45:
			st.Kind = "draw"
			for j := r.in(0, 4); j > 0; j-- {
				st.Layers = append(st.Layers, pool[r.n(len(pool))])
			}
		case p < 53:
			st.Kind = "clear"
		case p < 61:
			st.Kind, st.A = "resize", s.strip(v).some(r)
		case p < 68:
			st.Kind, st.A = "cursor", VArea{r.n(w), r.n(h), 0, 0}
		case p < 72:
			st.Kind = "hide"
		case p < 77:
			st.Kind = "raw"
		case p < 82:
			st.Kind = "cooked"
		case p < 84:
			st.Kind = "stty"
		case p < 88:
			st.Kind = "alt"
		case p < 92:
			st.Kind = "main"
		case p < 94:
			st.Kind = pick(r, "paste", "nopaste")
		case p < 96:
			w, h = w+r.n(4), h+r.n(3)
			st.Kind, st.A = "window", VArea{W: w, H: h}
		default:
			st.Kind, st.A, st.S = "other", VArea{r.n(w), r.n(h), 0, 0}, pick(r, "!", "?", "#")
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}

func (s *ViewSc) valid() bool {
	if s.W < 1 || s.H < 1 || s.W > 300 || s.H > 100 || len(s.Views) == 0 || len(s.Views) > 5 {
		return false
	}
	for i, v := range s.Views {
		if !v.within(s.strip(i)) {
			return false
		}
	}
	w, h := s.W, s.H
	for _, st := range s.Steps {
		if st.V < 0 || st.V >= len(s.Views) {
			return false
		}
		switch st.Kind {
		case "resize":
			if !st.A.within(s.strip(st.V)) {
				return false
			}
		case "window":
			if st.A.W < w || st.A.H < h || st.A.W > 300 || st.A.H > 100 {
				return false
			}
			w, h = st.A.W, st.A.H
		case "cursor", "other":
			if st.A.X < 0 || st.A.Y < 0 || st.A.X >= w || st.A.Y >= h {
				return false
			}
		}
	}
	return true
}

// modes is what a terminal does apart from showing cells.
type modes struct {
	cursor, alt, paste bool
	tty                unix.Termios
	others             string
	style              vstyle
}

func modesOf(k *kernel) modes {
	return modes{k.vt.cursorOn, k.vt.altOn, k.vt.bracketed, k.termios, fmt.Sprint(k.vt.otherModes), k.vt.cur}
}

func runViews(rc *runCtx) {
	s := rc.sc.View
	rc.setup(s.K, s.W, s.H, s.Term, s.ColorTerm)
	k := rc.k
	bad := func(code, f string, a ...any) { rc.bad("P22", code, f, a...) }
	ts := make([]*bento.Terminal, len(s.Views))
	areas := make([]bento.Rect, len(s.Views))
	frames := make([]*frame, len(s.Views)) // what each view shows, nil: unknown
	for i, v := range s.Views {
		be := bento.NewDefaultBackend(os.Stdin, os.Stdout)
		areas[i] = v.rect()
		all := outsideOf(k.vt, bento.Rect{})
		m := modesOf(k)
		t, err := bento.NewTerminal(&be, bento.ViewportFixed(areas[i]))
		if err != nil {
			bad("error", "NewTerminal with the viewport %v fails: %v", areas[i], err)
			return
		}
		if d := all.diff(k.vt); d != "" || m != modesOf(k) {
			bad("new", "creating a terminal changes the screen or its modes: %s %+v", d, modesOf(k))
		}
		ts[i] = t
	}
	cooked := k.termios // the settings leaving raw mode must restore
	raw := false
	fresh := func(i int) bool { // as an application does that does not know what is shown
		frames[i] = nil
		if err := ts[i].Clear(); err != nil {
			bad("error", "clear fails: %v", err)
			return false
		}
		return true
	}
	blank := func(i int, what string) {
		g := k.vt.grid()
		a := areas[i]
		for y := a.Top(); y < a.Bottom(); y++ {
			for x := a.Left(); x < a.Right(); x++ {
				if g[y][x] != blankCell(vstyle{}) {
					bad("not-cleared", "after %s, (%d,%d) of the viewport %v shows %v", what, x, y, a, g[y][x])
					return
				}
			}
		}
	}
	for i := range ts {
		o := outsideOf(k.vt, areas[i])
		if !fresh(i) {
			return
		}
		blank(i, "the first clear")
		if d := o.diff(k.vt); d != "" {
			bad("outside", "the first clear of the viewport %v changes the screen outside: %s", areas[i], d)
		}
	}
	for n, st := range s.Steps {
		y()
		t, v := ts[st.V], st.V
		before := modesOf(k)
		want := before
		keep := bento.Rect{} // all cells
		switch st.Kind {
		case "draw", "clear":
			keep = areas[v]
		case "resize":
			keep = st.A.rect()
		}
		out := outsideOf(k.vt, keep)
		what := fmt.Sprintf("step %d (%s)", n, st.Kind)
		var err error
		switch st.Kind {
		case "draw":
			var f *frame
			_, err = t.Draw(drawFunc(func(a bento.Rect, buf *bento.Buffer) {
				if a != areas[v] || buf.Area() != areas[v] {
					bad("area", "%s: the frame is %v, the buffer %v, but the viewport is %v", what, a, buf.Area(), areas[v])
				}
				for y := a.Top(); y < a.Bottom(); y++ {
					for x := a.Left(); x < a.Right(); x++ {
						if c := *buf.CellAt(bento.NewPosition(x, y)); c != bento.NewEmptyCell() {
							bad("leftover", "%s: the frame starts with %+v at (%d,%d) instead of empty", what, c, x, y)
							return
						}
					}
				}
				for _, l := range st.Layers {
					drawLayer(l, a, buf)
				}
				wellFormed(a, buf)
				f = capture(a, buf)
			}))
			if f == nil {
				bad("not-drawn", "%s: the widget was not rendered", what)
				return
			}
			frames[v] = f
			want.cursor = false
		case "clear":
			err = t.Clear()
			frames[v] = nil
			blank(v, "a clear")
		case "resize":
			for y, row := range k.vt.grid() { // halves of wide characters inside go away
				if r := keep.Right(); r < len(row) && row[r].w == 0 {
					delete(out.cells, [2]int{r, y})
				}
				if l := keep.Left() - 1; l >= 0 && row[l].w == 2 {
					delete(out.cells, [2]int{l, y})
				}
			}
			areas[v] = st.A.rect()
			frames[v] = nil
			err = t.Resize(areas[v])
			blank(v, "a resize")
		case "cursor":
			p := bento.NewPosition(st.A.X, st.A.Y)
			if err = t.SetCursorPosition(p); err == nil {
				err = t.ShowCursor()
			}
			if k.vt.x != st.A.X || k.vt.y != st.A.Y {
				bad("cursor", "%s: the cursor is at (%d,%d) instead of %v", what, k.vt.x, k.vt.y, p)
			}
			want.cursor = true
		case "hide":
			err = t.HideCursor()
			want.cursor = false
		case "raw":
			t = ts[0]
			if !raw {
				cooked, raw = k.termios, true
			}
			err = t.EnableRawMode()
			want.tty = before.tty
			want.tty.Iflag, want.tty.Oflag, want.tty.Lflag, want.tty.Cflag = k.termios.Iflag, k.termios.Oflag, k.termios.Lflag, k.termios.Cflag
			if l := k.termios.Lflag; l&(unix.ICANON|unix.ECHO|unix.ISIG) != 0 || k.termios.Iflag&(unix.ICRNL|unix.IXON) != 0 {
				bad("raw", "%s: the terminal is not in raw mode", what)
			}
		case "cooked":
			t = ts[0]
			err = t.DisableRawMode()
			if raw {
				want.tty = cooked
			}
			raw = false
		case "stty": // somebody else changes the settings
			if !raw {
				k.termios.Iflag ^= unix.IXANY
				k.termios.Cc[unix.VINTR] ^= 1
			}
			want.tty = k.termios
		case "alt":
			err = t.EnableAlternateScreen()
			want.alt = true
			if !before.alt {
				out.resizes = -1 // another screen
			}
		case "main":
			main := outsideOfGrid(k.vt.main, bento.Rect{}, k.vt.resizes)
			err = t.LeaveAlternateScreen()
			want.alt = false
			if d := main.diff(k.vt); d != "" {
				bad("main", "%s: the former screen is not shown: %s", what, d)
			}
			out.resizes = -1
		case "paste":
			err = t.EnableBracketedPaste()
			want.paste = true
		case "nopaste":
			err = t.DisableBracketedPaste()
			want.paste = false
		case "window":
			k.resize(st.A.W, st.A.H)
		case "other":
			fmt.Fprintf(os.Stdout, "\x1b[%d;%dH", st.A.Y+1, st.A.X+1)
			p := bento.NewPosition(st.A.X, st.A.Y)
			inside := false
			for _, a := range areas {
				inside = inside || a.Contains(p)
			}
			if !inside && st.A.X < k.w-1 { // it keeps to its own part
				fmt.Fprint(os.Stdout, st.S)
				out.resizes = -1
			}
		}
		rc.ev(st.Kind, v, n, "")
		if err != nil {
			bad("error", "%s fails: %v", what, err)
			return
		}
		if d := out.diff(k.vt); d != "" {
			bad("outside", "%s on the viewport %v changes the screen outside: %s", what, keep, d)
		}
		if got := modesOf(k); got != want {
			bad("modes", "%s: the terminal's modes are %+v instead of %+v", what, got, want)
		}
		if k.vt.ctrl > 0 || len(k.vt.unknown) > 0 {
			bad("garbage", "%s: control characters or unknown sequences reached the terminal: %q", what, k.vt.unknown)
		}
		if sz, ok, err := t.Size(); err != nil || !ok || sz.Width != k.w || sz.Height != k.h_ {
			bad("size", "%s: the size is %v %v %v instead of %dx%d", what, sz, ok, err, k.w, k.h_)
		}
		if before.alt != want.alt || st.Kind == "main" && before.alt {
			for i := range ts {
				if !fresh(i) {
					return
				}
			}
			continue
		}
		for i, f := range frames {
			if f == nil {
				continue
			}
			rc.probe("checked")
			if d := f.diff(k.vt); d != "" {
				bad("screen", "%s on view %d: view %d does not show its frame: %s", what, v, i, d)
			}
		}
		if len(rc.viols) > 0 {
			return
		}
	}
}
