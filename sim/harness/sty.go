package main

import (
	"fmt"
	"slices"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/muesli/termenv"
	"github.com/rivo/uniseg"
)

// In which style everything must be shown (P31).

// lay is what a style says: the colours it sets and the attributes it adds or
// removes.
type lay struct {
	fg, bg   bento.Color
	add, sub bento.Modifier
}

// over is l with p on top.
func (l lay) over(p lay) lay {
	if p.fg != nil {
		l.fg = p.fg
	}
	if p.bg != nil {
		l.bg = p.bg
	}
	for _, a := range attrs {
		if p.add&a.m != 0 {
			l.add |= a.m
			l.sub &^= a.m
		}
		if p.sub&a.m != 0 {
			l.sub |= a.m
			l.add &^= a.m
		}
	}
	return l
}

// mcell is the style of a cell.
type mcell struct {
	fg, bg bento.Color
	mod    bento.Modifier
}

var plainCell = mcell{bento.ResetColor{}, bento.ResetColor{}, 0}

func (c mcell) with(ls ...lay) mcell {
	for _, l := range ls {
		if l.fg != nil {
			c.fg = l.fg
		}
		if l.bg != nil {
			c.bg = l.bg
		}
		c.mod = c.mod&^l.sub | l.add
	}
	return c
}

func cellStyle(c *bento.Cell) mcell { return mcell{c.Fg, c.Bg, c.Modifier} }

func (c mcell) String() string {
	return fmt.Sprintf("%s on %s %09b", colName(c.fg), colName(c.bg), c.mod)
}

type sty struct {
	lay
	st bento.Style
}

var namedFg = []struct {
	f func(bento.Style) bento.Style
	c bento.Color
}{
	{bento.Style.Black, termenv.ANSIBlack}, {bento.Style.Red, termenv.ANSIRed}, {bento.Style.Green, termenv.ANSIGreen}, {bento.Style.Yellow, termenv.ANSIYellow},
	{bento.Style.Blue, termenv.ANSIBlue}, {bento.Style.Magenta, termenv.ANSIMagenta}, {bento.Style.Cyan, termenv.ANSICyan}, {bento.Style.White, termenv.ANSIWhite},
	{bento.Style.BrightBlack, termenv.ANSIBrightBlack}, {bento.Style.BrightRed, termenv.ANSIBrightRed}, {bento.Style.BrightGreen, termenv.ANSIBrightGreen}, {bento.Style.BrightYellow, termenv.ANSIBrightYellow},
	{bento.Style.BrightBlue, termenv.ANSIBrightBlue}, {bento.Style.BrightMagenta, termenv.ANSIBrightMagenta}, {bento.Style.BrightCyan, termenv.ANSIBrightCyan}, {bento.Style.BrightWhite, termenv.ANSIBrightWhite},
}

var namedBg = []struct {
	f func(bento.Style) bento.Style
	c bento.Color
}{
	{bento.Style.OnBlack, termenv.ANSIBlack}, {bento.Style.OnRed, termenv.ANSIRed}, {bento.Style.OnGreen, termenv.ANSIGreen}, {bento.Style.OnYellow, termenv.ANSIYellow},
	{bento.Style.OnBlue, termenv.ANSIBlue}, {bento.Style.OnMagenta, termenv.ANSIMagenta}, {bento.Style.OnCyan, termenv.ANSICyan}, {bento.Style.OnWhite, termenv.ANSIWhite},
	{bento.Style.OnBrightBlack, termenv.ANSIBrightBlack}, {bento.Style.OnBrightRed, termenv.ANSIBrightRed}, {bento.Style.OnBrightGreen, termenv.ANSIBrightGreen}, {bento.Style.OnBrightYellow, termenv.ANSIBrightYellow},
	{bento.Style.OnBrightBlue, termenv.ANSIBrightBlue}, {bento.Style.OnBrightMagenta, termenv.ANSIBrightMagenta}, {bento.Style.OnBrightCyan, termenv.ANSIBrightCyan}, {bento.Style.OnBrightWhite, termenv.ANSIBrightWhite},
}

var namedAttr = []struct {
	f func(bento.Style) bento.Style
	m bento.Modifier
}{
	{bento.Style.Bold, bento.ModifierBold}, {bento.Style.Dim, bento.ModifierDim}, {bento.Style.Italic, bento.ModifierItalic},
	{bento.Style.Underlined, bento.ModifierUnderlined}, {bento.Style.Reversed, bento.ModifierReversed}, {bento.Style.CrossedOut, bento.ModifierCrossedOut},
}

// rsty makes a style through the public calls, in a random order.
func rsty(r *rng) sty {
	s := sty{st: bento.NewStyle()}
	if r.p(25) {
		return s
	}
	for n := pick(r, 1, 1, 2, 2, 3, 5); n > 0; n-- {
		mods := func() (m bento.Modifier) {
			for k := pick(r, 1, 1, 2, 3); k > 0; k-- {
				m |= attrs[r.n(len(attrs))].m
			}
			return
		}
		var l lay
		switch r.n(9) {
		case 0:
			x := pick(r, namedFg...)
			s.st, l.fg = x.f(s.st), x.c
		case 1:
			x := pick(r, namedBg...)
			s.st, l.bg = x.f(s.st), x.c
		case 2:
			x := pick(r, namedAttr...)
			s.st, l.add = x.f(s.st), x.m
		case 3:
			l.add = mods()
			s.st = s.st.WithModifier(l.add)
		case 4:
			l.sub = mods()
			s.st = s.st.WithoutModifier(l.sub)
		case 5:
			a, b, c := r.n(256), r.n(256), r.n(256)
			l.fg = termenv.RGBColor(fmt.Sprintf("#%02x%02x%02x", a, b, c))
			s.st = s.st.RGB(uint8(a), uint8(b), uint8(c))
		case 6:
			a, b, c := r.n(256), r.n(256), r.n(256)
			l.bg = termenv.RGBColor(fmt.Sprintf("#%02x%02x%02x", a, b, c))
			s.st = s.st.OnRGB(uint8(a), uint8(b), uint8(c))
		case 7:
			if c := pick(r, colors...); r.p(50) {
				s.st, l.fg = s.st.WithForeground(c), c
			} else {
				s.st, l.bg = s.st.WithBackground(c), c
			}
		case 8:
			p := rsty(r)
			s.st, l = s.st.Patched(p.st), p.lay
		}
		s.lay = s.lay.over(l)
	}
	return s
}

// sgr is a character and what its style says, all layers of its text
// composed.
type sgr struct {
	gr
	l lay
}

type mspan struct {
	textwidget.Span
	g []sgr
}

func mkSpan(r *rng, text string) mspan {
	s := rsty(r)
	sp := textwidget.NewSpan(text)
	if r.p(50) {
		sp = sp.WithStyle(s.st)
	} else {
		p := rsty(r)
		sp = sp.WithStyle(s.st).WithStylePatch(p.st)
		s.lay = s.lay.over(p.lay)
	}
	m := mspan{Span: sp}
	for _, g := range grs(text) {
		m.g = append(m.g, sgr{g, s.lay})
	}
	return m
}

type mline struct {
	textwidget.Line
	l lay
	g []sgr // l is in them
}

// mkLine makes a line, now and then by deriving it from one that others are
// derived from as well.
func mkLine(r *rng, texts ...string) mline {
	var sp []mspan
	for _, t := range texts {
		sp = append(sp, mkSpan(r, t))
	}
	st := rsty(r)
	var m mline
	k := r.n(len(sp) + 1)
	if r.p(50) {
		k = len(sp)
	}
	first := make([]textwidget.Span, 0, len(sp)+r.n(3))
	for _, s := range sp[:k] {
		first = append(first, s.Span)
	}
	m.Line = textwidget.NewLine(first...)
	for _, s := range sp[k:] {
		base := m.Line
		if r.p(30) {
			_ = base.WithSpans(textwidget.NewSpan("before"))
		}
		m.Line = base.WithSpans(s.Span)
		if r.p(50) {
			_ = base.WithSpans(textwidget.NewSpan("after"))
		}
		if r.p(20) {
			_ = base.WithSpansStr("after").WithStyle(bento.NewStyle().Dim())
		}
	}
	m.Line = m.Line.WithStyle(st.st)
	m.l = st.lay
	for _, s := range sp {
		for _, g := range s.g {
			m.g = append(m.g, sgr{g.gr, st.lay.over(g.l)})
		}
	}
	return m
}

func rmline(r *rng) mline {
	var t []string
	for n := pick(r, 1, 1, 2, 3, 4, 0); n > 0; n-- {
		t = append(t, ptext(r))
	}
	m := mkLine(r, t...)
	if r.p(50) {
		m.Line = m.Line.WithAlignment(ralign(r))
	}
	return m
}

func mkText(r *rng, ls []mline) (textwidget.Text, lay) {
	k := r.n(len(ls) + 1)
	if r.p(50) {
		k = len(ls)
	}
	first := make([]textwidget.Line, 0, len(ls)+r.n(3))
	for _, l := range ls[:k] {
		first = append(first, l.Line)
	}
	t := textwidget.NewText(first...)
	for _, l := range ls[k:] {
		base := t
		t = base.WithLines(l.Line)
		if r.p(50) {
			_ = base.WithLines(textwidget.NewLineStr("other"))
		}
		if r.p(20) {
			_ = base.WithLinesStr("other", "text")
		}
	}
	st := rsty(r)
	return t.WithStyle(st.st), st.lay
}

// schar is a character found in the buffer.
type schar struct {
	s  string
	x  int
	st mcell
}

// rowChars reads a row: the characters that are not blank, and the blanks.
func rowChars(buf *bento.Buffer, left, right, y int) (chars, blanks []schar) {
	for x := left; x < right; x++ {
		c := buf.CellAt(bento.NewPosition(x, y))
		s := schar{visible(c.Symbol), x, cellStyle(c)}
		if blank(s.s) {
			blanks = append(blanks, s)
		} else {
			chars = append(chars, s)
		}
		x += max(0, uniseg.StringWidth(c.Symbol)-1)
	}
	return
}

// styleProp reports a character shown in a wrong style.
func (w *widRun) wrongStyle(what string, area bento.Rect, c schar, y int, want ...mcell) {
	w.a.rc.bad("P31", "style", "%s drawn into %v: %q at (%d,%d) is shown in %v, not in %v", what, area, c.s, c.x, y, c.st, want)
}

// inOrder tells whether the characters are a piece of the text, and in the
// right styles. If not, it says which character of the best match is the
// first that is not, and how it should be shown.
func inOrder(chars []schar, text []sgr, base mcell) (bad int, want []mcell) {
	var t []sgr
	for _, g := range text {
		if g.w > 0 && !g.ctrl && !blank(g.s) {
			t = append(t, g)
		}
	}
	best := -1
	for at := 0; at+len(chars) <= len(t); at++ {
		i, contents := len(chars), true
		for j := len(chars) - 1; j >= 0; j-- {
			contents = contents && chars[j].s == t[at+j].s
			if chars[j].st != base.with(t[at+j].l) {
				i = j
			}
		}
		if !contents {
			continue
		}
		if i == len(chars) {
			return -1, nil
		}
		if i > best {
			best, want = i, nil
		}
		if i == best {
			want = append(want, base.with(t[at+i].l))
		}
	}
	return best, want // none: other characters than those of the text, not about styles
}

// drawStyled draws something made of layers of styles and says how to check
// it.
func (w *widRun) drawStyled(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer) (string, func()) {
	rc := w.a.rc
	whole := !area.IsEmpty() && area.Intersection(buf.Area()) == area
	b0 := rsty(r)
	buf.SetStyle(area, b0.st)
	base := plainCell.with(b0.lay)
	check := func(f func()) func() {
		return func() {
			if whole {
				rc.probe("checked")
				rc.probe("styled_" + it.T)
				f()
			}
		}
	}
	twice := r.p(30)
	render := func(wi bento.Widget) {
		if twice { // drawing changes nothing but the buffer
			scratch := bento.NewBufferEmpty(buf.Area())
			wi.Render(area, &scratch)
		}
		wi.Render(area, buf)
	}
	cell := func(x, y int) schar {
		c := buf.CellAt(bento.NewPosition(x, y))
		return schar{c.Symbol, x, cellStyle(c)}
	}
	what := "the " + it.T
	switch it.T {
	case "span":
		s := mkSpan(r, ptext(r))
		render(s.Span)
		return what, check(func() {
			sw := min(area.Width, width(plain(s.g)))
			w.styledRow(what, area, buf, area.Top(), s.g, base, []mcell{base}, [][2]int{{area.Left(), area.Left() + sw}}, base)
			w.untouched(what, area, buf, area.Top()+1, base)
		})
	case "line", "text":
		var ls []mline
		n := 1
		if it.T == "text" {
			n = r.in(0, 6)
		}
		for ; n > 0; n-- {
			ls = append(ls, rmline(r))
		}
		al := bento.AlignmentLeft
		tb := base
		if it.T == "line" {
			render(ls[0].Line)
		} else {
			t, l := mkText(r, ls)
			al = bento.Alignment(1 + r.n(3))
			render(t.WithAlignment(al))
			tb = base.with(l)
		}
		return what, check(func() {
			for i, l := range ls {
				y := area.Top() + i
				if y >= area.Bottom() {
					break
				}
				lw := width(plain(l.g))
				ext := [][2]int{{area.Left(), area.Right()}}
				if free := area.Width - lw; free > 0 {
					ext = nil
					switch either(l.Alignment, al) {
					case bento.AlignmentRight:
						ext = append(ext, [2]int{area.Right() - lw, area.Right()})
					case bento.AlignmentCenter:
						for f := free / 2; f <= (free+1)/2; f++ {
							ext = append(ext, [2]int{area.Left() + f, area.Left() + f + lw})
						}
					default:
						ext = append(ext, [2]int{area.Left(), area.Left() + lw})
					}
				}
				w.styledRow(what, area, buf, y, l.g, tb, []mcell{tb.with(l.l)}, ext, tb)
			}
			rest := tb
			if it.T == "line" {
				rest = base
			}
			w.untouched(what, area, buf, area.Top()+len(ls), rest)
		})
	case "paragraph":
		var ls []mline
		for n := r.in(0, 5); n > 0; n-- {
			ls = append(ls, rmline(r))
		}
		t, tl := mkText(r, ls)
		ps := rsty(r)
		p := paragraphwidget.New(t).WithStyle(ps.st).WithScroll(it.para.sy, it.para.sx)
		p.Alignment = bento.Alignment(1 + r.n(3))
		wrap := r.p(60)
		if wrap {
			p = p.WithWrap(paragraphwidget.NewWrap().WithTrim(r.p(50)))
		}
		render(p)
		return what, check(func() {
			pb := base.with(ps.lay)
			var all []schar
			var rows []int
			var text []sgr
			for _, l := range ls {
				for _, g := range l.g {
					if g.w <= area.Width {
						g.l = tl.over(g.l)
						text = append(text, g)
					}
				}
			}
			for y := area.Top(); y < area.Bottom(); y++ {
				chars, blanks := rowChars(buf, area.Left(), area.Right(), y)
				for range chars {
					rows = append(rows, y)
				}
				all = append(all, chars...)
				for _, b := range blanks {
					if b.st != pb && !blankStyle(text, pb, b.st) {
						w.wrongStyle(what, area, b, y, pb)
						return
					}
				}
				if !wrap {
					i := it.para.sy + y - area.Top()
					var g []sgr
					if i < len(ls) {
						for _, x := range ls[i].g {
							if x.w <= area.Width {
								g = append(g, sgr{x.gr, tl.over(x.l)})
							}
						}
					}
					if bad, want := inOrder(chars, g, pb); bad >= 0 {
						w.wrongStyle(what, area, chars[bad], y, want...)
						return
					}
				}
			}
			if wrap {
				if bad, want := inOrder(all, text, pb); bad >= 0 {
					w.wrongStyle(what, area, all[bad], rows[bad], want...)
				}
			}
		})
	case "tabs":
		n := pick(r, 0, 1, 2, 3, 6)
		var ts []mline
		var titles []textwidget.Line
		for i := 0; i < n; i++ {
			m := mkLine(r, pick(r, "one", "Tab", "世界", "x"), pick(r, "", "two", " "))
			ts = append(ts, m)
			titles = append(titles, m.Line)
		}
		sel := r.n(8) - 1
		pl, pr, div := mkLine(r, " "), mkLine(r, pick(r, " ", "<")), mkSpan(r, "│")
		st, hl := rsty(r), rsty(r)
		t := tabswidget.New(titles...).WithStyle(st.st).WithHighlightStyle(hl.st).WithDivider(div.Span).WithPaddingLeft(pl.Line).WithPaddingRight(pr.Line)
		if sel >= 0 {
			t = t.Select(sel)
			if other := t.Select(0); r.p(20) {
				_ = other.Unselect()
			}
		}
		render(t)
		return what, check(func() {
			tb := base.with(st.lay)
			x := area.Left()
			put := func(g []sgr, h bool) bool {
				for _, c := range g {
					if x+c.w > area.Right() {
						return false
					}
					want := tb.with(c.l)
					if h {
						want = want.with(hl.lay)
					}
					if got := cell(x, area.Top()); got.st != want {
						w.wrongStyle(what, area, got, area.Top(), want)
						return false
					}
					x += c.w
				}
				return true
			}
			for i, m := range ts {
				if !put(pl.g, false) || !put(m.g, i == sel) || !put(pr.g, false) || i < n-1 && !put(div.g, false) {
					return
				}
			}
			for ; x < area.Right(); x++ {
				if got := cell(x, area.Top()); got.st != tb {
					w.wrongStyle(what, area, got, area.Top(), tb)
					return
				}
			}
			w.untouched(what, area, buf, area.Top()+1, tb)
		})
	case "block":
		st, bs, ts := rsty(r), rsty(r), rsty(r)
		b := blockwidget.New().WithStyle(st.st).WithBorderStyle(bs.st).WithTitlesStyle(ts.st)
		sides := uint(15)
		if r.p(50) {
			b = b.Bordered()
		} else {
			sides = uint(r.in(1, 15))
			b = b.WithBorderSides(blockwidget.Side(sides))
		}
		var titles []mline
		al := bento.Alignment(1 + r.n(3))
		pos := r.n(2)
		tw := 0
		for n := pick(r, 0, 1, 1, 2, 3); n > 0; n-- {
			m := mkLine(r, pick(r, "Title", "x", "世界"), pick(r, "", "more"))
			tw += width(plain(m.g)) + 1
			titles = append(titles, m)
			parent := b
			b = b.WithTitle(blockwidget.NewTitle(m.Line).WithAlignment(al).WithPosition(blockwidget.TitlePosition(pos)))
			if r.p(40) {
				_ = parent.WithTitle(blockwidget.NewTitleStr("other"))
			}
		}
		render(b)
		return what, check(func() {
			has := func(i int) bool { return sides&(1<<i) != 0 } // top, right, bottom, left
			trow := area.Top()
			if pos == 1 {
				trow = area.Bottom() - 1
			}
			bb := base.with(st.lay)
			border := func(x, y int) bool {
				return has(0) && y == area.Top() || has(2) && y == area.Bottom()-1 || has(1) && x == area.Right()-1 || has(3) && x == area.Left()
			}
			under := func(x, y int) mcell {
				if border(x, y) {
					return bb.with(bs.lay)
				}
				return bb
			}
			for y := area.Top(); y < area.Bottom(); y++ {
				for x := area.Left(); x < area.Right(); x++ {
					if len(titles) > 0 && y == trow && !(has(3) && x == area.Left()) && !(has(1) && x == area.Right()-1) {
						continue
					}
					if got := cell(x, y); got.st != under(x, y) {
						w.wrongStyle(what, area, got, y, under(x, y))
						return
					}
				}
			}
			x0, x1 := area.Left(), area.Right()
			if has(3) {
				x0++
			}
			if has(1) {
				x1--
			}
			if len(titles) == 0 || tw-1 > x1-x0 {
				return
			}
			chars, _ := rowChars(buf, x0, x1, trow)
			at := x0
			switch al {
			case bento.AlignmentRight:
				at = x1 - (tw - 1)
			case bento.AlignmentCenter:
				at = x0 + (x1-x0-(tw-1))/2
				for _, c := range chars { // either way if it cannot be exact
					if c.x == at+1 && (x1-x0-(tw-1))%2 == 1 && c.s == titles[0].g[0].s {
						at++
						break
					}
				}
			}
			x := x0
			gap := func(to int) bool {
				for ; x < to; x++ {
					if got := cell(x, trow); got.st != under(x, trow) {
						w.wrongStyle(what, area, got, trow, under(x, trow))
						return false
					}
				}
				return true
			}
			if !gap(at) {
				return
			}
			for i, m := range titles {
				if i > 0 && !gap(x+1) {
					return
				}
				for _, g := range m.g {
					want := under(x, trow).with(ts.lay, g.l)
					if got := cell(x, trow); got.st != want {
						w.wrongStyle(what, area, got, trow, want)
						return
					}
					x += g.w
				}
			}
			gap(x1)
		})
	case "fill":
		st := rsty(r)
		render(fillwidget.New(pick(r, "x", "╲")).WithStyle(st.st))
		return what, check(func() { w.untouched(what, area, buf, area.Top(), plainCell.with(st.lay)) })
	case "clear":
		render(clearwidget.New())
		return what, check(func() { w.untouched(what, area, buf, area.Top(), plainCell) })
	case "popup":
		st, bs := rsty(r), rsty(r)
		p := popupwidget.New().WithStyle(st.st).WithWidth(bento.ConstraintLen(r.in(1, 20))).WithHeight(bento.ConstraintLen(r.in(1, 8)))
		block := r.p(60)
		if block {
			p = p.WithBlock(blockwidget.New().Bordered().WithBorderStyle(bs.st))
		}
		for y := area.Top(); y < area.Bottom() && whole; y++ {
			for x := area.Left(); x < area.Right(); x++ {
				buf.CellAt(bento.NewPosition(x, y)).SetSymbol("#")
			}
		}
		render(p)
		return what, check(func() {
			for y := area.Top(); y < area.Bottom(); y++ {
				for x := area.Left(); x < area.Right(); x++ {
					got := cell(x, y)
					want := base
					switch {
					case got.s == " ":
						want = plainCell.with(st.lay)
					case got.s != "#":
						want = plainCell.with(st.lay, bs.lay)
					}
					if got.st != want {
						w.wrongStyle(what, area, got, y, want)
						return
					}
				}
			}
		})
	case "gauge":
		st, gs := rsty(r), rsty(r)
		pct := pick(r, 0, 100, 50, r.n(101))
		lab := mkSpan(r, pick(r, "label", "x", "50/100"))
		render(gaugewidget.New().WithStyle(st.st).WithGaugeStyle(gs.st).WithPercent(pct).WithLabel(lab.Span))
		return what, check(func() {
			lrow, lw := area.Top()+area.Height/2, width(plain(lab.g))
			for y := area.Top(); y < area.Bottom(); y++ {
				for x := area.Left(); x < area.Right(); x++ {
					if float64(x-area.Left()) < float64(area.Width*pct)/100+1 {
						continue
					}
					want := []mcell{base.with(st.lay, gs.lay)}
					if from := area.Left() + (area.Width-lw)/2; y == lrow && x >= from && x < from+lw+1 {
						want = append(want, want[0].with(lab.g[0].l))
						if x > from && x < from+lw {
							want = want[1:]
						}
					}
					if got := cell(x, y); !slices.Contains(want, got.st) {
						w.wrongStyle(what, area, got, y, want...)
						return
					}
				}
			}
		})
	case "list":
		return w.drawStyledList(it, r, area, buf, base, check)
	case "input":
		return w.drawStyledInput(it, r, area, buf, base, check)
	}
	harnessError("no styled widget " + it.T)
	return "", nil
}

func plain(g []sgr) []gr {
	var l []gr
	for _, x := range g {
		l = append(l, x.gr)
	}
	return l
}

func blankStyle(text []sgr, base, st mcell) bool {
	return slices.ContainsFunc(text, func(g sgr) bool { return blank(g.s) && base.with(g.l) == st })
}

// styledRow checks a row showing a piece of text; ext lists where it may
// extend to, in those cells blanks may be in one of the styles of in; rest is
// the style of all others.
func (w *widRun) styledRow(what string, area bento.Rect, buf *bento.Buffer, y int, text []sgr, base mcell, in []mcell, ext [][2]int, rest mcell) {
	chars, blanks := rowChars(buf, area.Left(), area.Right(), y)
	if bad, want := inOrder(chars, text, base); bad >= 0 {
		w.wrongStyle(what, area, chars[bad], y, want...)
		return
	}
	for i, e := range ext {
		var wrong *schar
		for _, b := range blanks {
			if b.x >= e[0] && b.x < e[1] {
				if !slices.Contains(in, b.st) && !blankStyle(text, base, b.st) {
					wrong = &b
				}
			} else if b.st != rest {
				wrong = &b
			}
		}
		if wrong == nil {
			return
		}
		if i == len(ext)-1 {
			w.wrongStyle(what, area, *wrong, y, append(in, rest)...)
		}
	}
}

// untouched checks that all cells from row y on are in one style.
func (w *widRun) untouched(what string, area bento.Rect, buf *bento.Buffer, y int, want mcell) {
	for ; y < area.Bottom(); y++ {
		for x := area.Left(); x < area.Right(); x++ {
			c := buf.CellAt(bento.NewPosition(x, y))
			if cellStyle(c) != want {
				w.wrongStyle(what, area, schar{c.Symbol, x, cellStyle(c)}, y, want)
				return
			}
		}
	}
}

func (w *widRun) drawStyledList(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer, base mcell, check func(func()) func()) (string, func()) {
	n := pick(r, 0, 1, 2, 3, 5, 9)
	var items []textwidget.Text
	var lines [][]mline
	var tl []lay
	for i := 0; i < n; i++ {
		var ls []mline
		for j := 0; j < pick(r, 1, 1, 2, 3); j++ {
			ls = append(ls, mkLine(r, string(rune('A'+i)), string(rune('0'+j))))
		}
		t, l := mkText(r, ls)
		items, tl, lines = append(items, t.WithAlignment(ralign(r))), append(tl, l), append(lines, ls)
	}
	st, hl := rsty(r), rsty(r)
	sym := pick(r, "", "> ", ">")
	l := listwidget.New(items...).WithStyle(st.st).WithHighlightStyle(hl.st).WithHighlightSymbol(sym).WithRepeatHighlightSymbol(r.p(30))
	if r.p(30) {
		l = l.WithDirection(listwidget.DirectionBottomToTop)
	}
	l.RenderStateful(area, buf, &it.list)
	return "the list", check(func() {
		sel := -1
		if s, ok := it.list.Selected(n - 1); ok && n > 0 {
			sel = s
		}
		for y := area.Top(); y < area.Bottom(); y++ {
			chars, blanks := rowChars(buf, area.Left(), area.Right(), y)
			i, j := -1, 0
			var dig []schar
			for _, c := range chars {
				if c.s >= "A" && c.s <= "Z" {
					i = int(c.s[0] - 'A')
					dig = append(dig, c)
				}
				if c.s >= "0" && c.s <= "9" {
					j = int(c.s[0] - '0')
					dig = append(dig, c)
				}
			}
			lb := base.with(st.lay)
			if i >= n || i >= 0 && (len(dig) != 2 || j >= len(lines[i])) || i < 0 && len(chars) > 0 {
				continue // clipped
			}
			if i < 0 {
				if area.Width > uniseg.StringWidth(sym)+1 {
					for _, b := range blanks {
						if b.st != lb {
							w.wrongStyle("the list", area, b, y, lb)
							return
						}
					}
				}
				continue
			}
			h := func(c mcell) mcell {
				if i == sel {
					return c.with(hl.lay)
				}
				return c
			}
			for k, c := range dig {
				if want := h(lb.with(tl[i], lines[i][j].g[k].l)); c.st != want {
					w.wrongStyle("the list", area, c, y, want)
					return
				}
			}
			for _, b := range append(blanks, chars...) {
				if want := h(lb.with(tl[i])); !slices.Contains(dig, b) && b.st != want {
					w.wrongStyle("the list", area, b, y, want)
					return
				}
			}
		}
	})
}

func (w *widRun) drawStyledInput(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer, base mcell, check func(func()) func()) (string, func()) {
	ps, cs, phs := rsty(r), rsty(r), rsty(r)
	in := inputwidget.New().WithPromptStyle(ps.st).WithCursorStyle(cs.st).WithPlaceholderStyle(phs.st).WithAlignment(ralign(r)).WithVertical(bento.Flex(r.n(6)))
	prompt, ph := "", ""
	if r.p(60) {
		prompt = pick(r, ">", "世", "a:")
		in = in.WithPrompt(prompt)
	}
	if r.p(60) {
		ph = pick(r, "Placeholder", "世界", "x")
		in = in.WithPlaceholder(ph)
	}
	show := !newRng(it.Seed, 5).p(10)
	in.RenderStateful(area, buf, &it.input)
	return "the input", check(func() {
		e := &it.ed
		if it.input.String() != e.text || uniseg.StringWidth(prompt)+max(uniseg.StringWidth(e.text), uniseg.StringWidth(ph))+1 > area.Width {
			return // not all of it is shown
		}
		rc := w.a.rc
		rc.probe("styled_field")
		var text []sgr
		s, l, cur := e.text, lay{}, e.at
		if s == "" {
			s, l, cur = ph, phs.lay, 0
		}
		at := 0
		g := uniseg.NewGraphemes(s)
		for _, x := range grs(s) {
			g.Next()
			c := l
			if at == cur && show {
				c = c.over(cs.lay)
			}
			at += len(g.Str())
			text = append(text, sgr{x, c})
		}
		if cur == len(s) && show {
			text = append(text, sgr{gr{s: " ", w: 1, space: true}, l.over(cs.lay)})
		}
		for y := area.Top(); y < area.Bottom(); y++ {
			chars, blanks := rowChars(buf, area.Left(), area.Right(), y)
			if len(chars) == 0 {
				continue
			}
			for _, g := range grs(prompt) {
				if len(chars) == 0 || chars[0].s != g.s {
					return // not about styles
				}
				if want := base.with(ps.lay); chars[0].st != want {
					w.wrongStyle("the prompt", area, chars[0], y, want)
					return
				}
				chars = chars[1:]
			}
			if bad, want := inOrder(chars, text, base); bad >= 0 {
				w.wrongStyle("the input", area, chars[bad], y, want...)
				return
			}
			for _, b := range blanks {
				if b.st != base && !blankStyle(text, base, b.st) {
					w.wrongStyle("the input", area, b, y, base)
					return
				}
			}
		}
	})
}

func colName(c bento.Color) string {
	switch c.(type) {
	case nil, bento.ResetColor, termenv.NoColor:
		return fmt.Sprintf("%T", c)
	}
	return fmt.Sprint(c)
}
