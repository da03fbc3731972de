package main

import (
	"fmt"
	"os"

	"github.com/metafates/bento"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// frame is what a model rendered.
type frame struct {
	area  bento.Rect
	cells []bento.Cell
}

func capture(area bento.Rect, buf *bento.Buffer) *frame {
	f := &frame{area: area, cells: make([]bento.Cell, 0, max(0, area.Width*area.Height))}
	for y := area.Top(); y < area.Bottom(); y++ {
		for x := area.Left(); x < area.Right(); x++ {
			c := buf.CellAt(bento.NewPosition(x, y))
			if c == nil {
				cur.bad("P10", "no-cell", "the buffer has no cell (%d,%d), the area is %v", x, y, area)
				c = &bento.Cell{}
			}
			f.cells = append(f.cells, *c)
		}
	}
	return f
}

// profile is what the simulated terminal supports, decided by the same
// library and environment the application uses.
func (rc *runCtx) findProfile() {
	k := rc.k
	n := k.nioctl
	f := k.cfg.FailIoctl
	k.cfg.FailIoctl = 0
	rc.profile = termenv.NewOutput(os.Stdout).ColorProfile()
	k.nioctl, k.cfg.FailIoctl = n, f
}

func wantColor(p termenv.Profile, c bento.Color, bg bool) string {
	if c == nil {
		return ""
	}
	conv := p.Convert(c)
	if conv == nil {
		return ""
	}
	seq := conv.Sequence(bg)
	if seq == "" {
		return ""
	}
	var st vstyle
	var unknown []string
	applySGR(&st, seq, &unknown)
	if bg {
		return st.bg
	}
	return st.fg
}

var attrs = []struct {
	m bento.Modifier
	a uint16
}{
	{bento.ModifierBold, aBold}, {bento.ModifierDim, aDim}, {bento.ModifierItalic, aItalic},
	{bento.ModifierUnderlined, aUnderline}, {bento.ModifierSlowBlink, aSlow}, {bento.ModifierRapidBlink, aRapid},
	{bento.ModifierReversed, aReverse}, {bento.ModifierHidden, aHidden}, {bento.ModifierCrossedOut, aCrossed},
}

func wantStyle(p termenv.Profile, c bento.Cell) vstyle {
	st := vstyle{fg: wantColor(p, c.Fg, false), bg: wantColor(p, c.Bg, true)}
	for _, x := range attrs {
		if c.Modifier&x.m != 0 {
			st.attr |= x.a
		}
	}
	return st
}

// diff compares the frame with the screen; "" means they agree.
func (f *frame) diff(v *vt) string {
	p := cur.profile
	g := v.grid()
	i := 0
	for y := f.area.Top(); y < f.area.Bottom(); y++ {
		covered, skipped := 0, 0
		for x := f.area.Left(); x < f.area.Right(); x++ {
			c := f.cells[i]
			i++
			if skipped > 0 { // the other half of a skipped wide character
				skipped--
				continue
			}
			if c.Skip {
				covered = 0
				skipped = max(0, uniseg.StringWidth(c.Symbol)-1)
				continue
			}
			if covered > 0 {
				covered--
				if got := g[y][x]; got.w != 0 {
					return fmt.Sprintf("(%d,%d) shows %v, but the wide character to its left covers it", x, y, got)
				}
				continue
			}
			w := uniseg.StringWidth(c.Symbol)
			if w == 2 {
				covered = 1
			}
			got := g[y][x]
			want := vcell{c.Symbol, w, wantStyle(p, c)}
			if got != want {
				return fmt.Sprintf("(%d,%d) shows %v, the frame has %v", x, y, got, want)
			}
		}
	}
	return ""
}

// words are the texts frames are painted with.
var words = []string{"a", "bc", "hello", "x y", "wide 世界", "世", "é", "e\u0301x", "🙂", "tab\there", "new\nline", "esc\x1b[31mred", "\x07bell", "nul\x00l", "c1\u009b2J", "zw\u200bsp", "", "─│", "ｱ", "\r\n", "界界界界"}

var colors = []bento.Color{bento.ResetColor{}, termenv.ANSIRed, termenv.ANSIBrightBlue, termenv.ANSIBlack, termenv.ANSI256Color(17), termenv.ANSI256Color(200),
	termenv.RGBColor("#12ab34"), termenv.RGBColor("#ffffff"), termenv.RGBColor("#000000"), termenv.NoColor{}}

// paint draws pseudo-random content through the public drawing calls.
// style 0 is plain text.
func paint(r *rng, style, gen int, area bento.Rect, buf *bento.Buffer) {
	if area.Width <= 0 || area.Height <= 0 {
		return
	}
	if style == 0 {
		buf.SetString(area.X, area.Y, fmt.Sprintf("frame %d", gen), bento.NewStyle())
		return
	}
	n := r.in(0, 6)
	for i := 0; i < n; i++ {
		x, y := area.X+r.n(area.Width), area.Y+r.n(area.Height)
		st := bento.NewStyle()
		if r.p(50) {
			st = st.WithForeground(pick(r, colors...))
		}
		if r.p(40) {
			st = st.WithBackground(pick(r, colors...))
		}
		if r.p(50) {
			for j := r.in(1, 3); j > 0; j-- {
				st = st.WithModifier(attrs[r.n(len(attrs))].m)
			}
		}
		switch {
		case r.p(70) || style == 1:
			buf.SetString(x, y, pick(r, words...), st)
		case r.p(50):
			buf.SetStringN(x, y, pick(r, words...), r.n(8), st)
		default:
			w, h := 1+r.n(area.Width), 1+r.n(area.Height)
			buf.SetStyle(bento.NewRect(w, h).Positioned(x, y), st)
		}
	}
}
