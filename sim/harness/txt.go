package main

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"unicode"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/rivo/uniseg"
)

// What texts (P30) and indicators (P32) must show.

// gr is a character as shown: what is visible of it and its columns.
type gr struct {
	s     string
	w     int
	space bool
	ctrl  bool
}

func grs(s string) []gr {
	var l []gr
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		ctrl := false
		for _, r := range g.Runes() {
			ctrl = ctrl || unicode.IsControl(r)
		}
		l = append(l, gr{visible(g.Str()), g.Width(), blank(g.Str()), ctrl})
	}
	return l
}

func lineGrs(l textwidget.Line) []gr {
	var out []gr
	for _, s := range l.Spans {
		out = append(out, grs(s.Content)...)
	}
	return out
}

func width(l []gr) int {
	n := 0
	for _, g := range l {
		n += g.w
	}
	return n
}

func str(l []gr) string {
	var b strings.Builder
	for _, g := range l {
		if g.w > 0 {
			b.WriteString(g.s)
		}
	}
	return b.String()
}

// shown reads a row of the buffer.
func shown(buf *bento.Buffer, left, right, y int) string {
	var b strings.Builder
	for x := left; x < right; x++ {
		s := buf.CellAt(bento.NewPosition(x, y)).Symbol
		v := visible(s)
		if v == "" {
			v = " "
		}
		b.WriteString(v)
		x += max(0, uniseg.StringWidth(s)-1)
	}
	return b.String()
}

// aligned lists what a row of the given width may show of a piece of text no
// wider than it.
func aligned(s string, sw, w int, al bento.Alignment) []string {
	put := func(at int) string {
		return strings.Repeat(" ", at) + s + strings.Repeat(" ", w-at-sw)
	}
	switch al {
	case bento.AlignmentRight:
		return []string{put(w - sw)}
	case bento.AlignmentCenter:
		if (w-sw)%2 == 1 {
			return []string{put((w - sw) / 2), put((w-sw)/2 + 1)}
		}
		return []string{put((w - sw) / 2)}
	}
	return []string{put(0)}
}

// clipped lists what a row of the given width may show of a text.
func clipped(t []gr, w int, al bento.Alignment) []string {
	tw := width(t)
	if tw <= w {
		return aligned(str(t), tw, w, al)
	}
	cut := func(skip int) string { // a character that is cut leaves blanks
		s, at := "", 0
		for _, g := range t {
			if at >= skip && at+g.w <= skip+w {
				if g.w > 0 {
					s += g.s
				}
			} else {
				for i := at; i < at+g.w; i++ {
					if i >= skip && i < skip+w {
						s += " "
					}
				}
			}
			at += g.w
		}
		return s
	}
	switch al {
	case bento.AlignmentRight:
		return []string{cut(tw - w)}
	case bento.AlignmentCenter:
		return []string{cut((tw - w) / 2), cut((tw - w + 1) / 2)}
	}
	return []string{cut(0)}
}

// ---- P30 ----

type paraState struct {
	key    string
	rows   map[int]string
	sx, sy int
}

// scrollKey scrolls the paragraph.
func (it *wItem) scrollKey(k bento.Key) {
	p := &it.para
	switch k.String() {
	case "down", "j":
		p.sy++
	case "up", "k":
		p.sy = max(0, p.sy-1)
	case "right", "l":
		p.sx++
	case "left", "h":
		p.sx = max(0, p.sx-1)
	case "ctrl+d":
		p.sy += 8
	case "ctrl+u":
		p.sy = max(0, p.sy-8)
	case "g":
		p.sx, p.sy = 0, 0
	}
}

var ptexts = []string{"", "a", "hello world", "one two  three   four", "世界", "a世b界c 世界世 界", "e\u0301e\u0301 e\u0301", "tab\tin", "zero\u200bwidth\u200bbreaks", "🙂🙂 🙂", "👨\u200d👩\u200d👧 x", "🇩🇪🇫🇷",
	"supercalifragilisticexpialidocious", "a supercalifragilisticexpialidocious word", "   lead", "trail   ", "世界世界世界世界世界世界", "nb\u00a0sp nb\u00a0sp", strings.Repeat("lorem ipsum ", 5), "x  y    z", "      ", "ab c世", "a bb ccc dddd eeeee ffffff ggggggg hhhhhhhh"}

func ptext(r *rng) string {
	s := pick(r, ptexts...)
	for r.p(30) {
		s += pick(r, "", " ", "  ") + pick(r, ptexts...)
	}
	if r.p(25) { // words of random lengths
		s = ""
		for n := r.in(1, 12); n > 0; n-- {
			for k := r.in(1, 9); k > 0; k-- {
				s += pick(r, "a", "b", "c", "x", "世")
			}
			s += strings.Repeat(pick(r, " ", " ", " ", "\u200b", "\u3000"), pick(r, 1, 1, 1, 2, 5))
		}
	}
	return s
}

func pline(r *rng) textwidget.Line {
	var sp []textwidget.Span
	for n := pick(r, 1, 1, 1, 2, 3, 0); n > 0; n-- {
		sp = append(sp, textwidget.NewSpan(ptext(r)))
	}
	l := textwidget.NewLine(sp...)
	if r.p(20) {
		l = textwidget.NewLineStr(ptext(r))
	}
	if r.p(40) {
		l = alignLine(l, ralign(r), r.p(30))
	}
	return l
}

func either(a, b bento.Alignment) bento.Alignment {
	if a == bento.AlignmentNone {
		return b
	}
	return a
}

// drawText draws a text, line, span or paragraph and says how to check it.
func (w *widRun) drawText(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer) (string, func()) {
	rc := w.a.rc
	var lines []textwidget.Line
	al := bento.AlignmentLeft
	long := false
	if w.prop() == "P30" && r.p(15) {
		w.drawPrint(r, area)
	}
	switch it.T {
	case "span":
		s := textwidget.NewSpan(ptext(r))
		lines = []textwidget.Line{textwidget.NewLine(s)}
		w.measured(lines, s.Width(), 1)
		s.Render(area, buf)
	case "line":
		l := pline(r)
		lines = []textwidget.Line{l}
		w.measured(lines, l.Width(), 1)
		l.Render(area, buf)
	default:
		if r.p(30) {
			var ss []string
			for n := r.in(1, 5); n > 0; n-- {
				ss = append(ss, strings.ReplaceAll(ptext(r), "\n", ""))
			}
			if r.p(2) { // longer than any buffer
				long = true
				ss[0] = strings.Repeat("x", 70000)
			}
			nl := pick(r, "\n", "\r\n")
			t := textwidget.NewTextStr(strings.Join(ss, nl))
			if ss[len(ss)-1] == "" && len(ss) > 1 { // ends with a line break
				ss = ss[:len(ss)-1]
			}
			for _, s := range ss {
				lines = append(lines, textwidget.NewLine(textwidget.NewSpan(s)))
			}
			if got := t.String(); got != strings.Join(ss, "\n") {
				rc.bad("P30", "split", "a text made from %q is %q", trunc2(strings.Join(ss, nl)), trunc2(got))
			}
			w.measured(lines, t.Width(), t.Height())
			al = w.drawParaOrText(it, r, t, area, buf)
		} else {
			for n := r.in(0, 6); n > 0; n-- {
				lines = append(lines, pline(r))
			}
			t := textwidget.NewText(lines...)
			w.measured(lines, t.Width(), t.Height())
			al = w.drawParaOrText(it, r, t, area, buf)
		}
	}
	return "the " + it.T, func() {
		in := area
		if it.paraBlock != nil {
			in = it.paraBlock.Inner(area)
		}
		if in.IsEmpty() || area.Intersection(buf.Area()) != area || long && it.T == "paragraph" {
			return
		}
		var rows []string
		for y := in.Top(); y < in.Bottom(); y++ {
			rows = append(rows, shown(buf, in.Left(), in.Right(), y))
		}
		if it.T == "paragraph" {
			w.checkPara(it, lines, al, in, rows)
			return
		}
		rc.probe("text_checked")
		rc.probe("checked")
		for y, row := range rows {
			want := []string{strings.Repeat(" ", in.Width)}
			if y < len(lines) {
				want = clipped(lineGrs(lines[y]), in.Width, either(lines[y].Alignment, al))
			}
			if !slices.Contains(want, row) {
				rc.bad("P30", "clipped", "row %d of a %s drawn into %v with alignment %v shows %q, not %q", y, it.T, in, either(lineOf(lines, y).Alignment, al), row, trunc2(strings.Join(want, "\" or \"")))
				return
			}
		}
	}
}

// measured checks the size a text reports.
func (w *widRun) measured(lines []textwidget.Line, width, height int) {
	want := 0
	for _, l := range lines {
		n := 0
		for _, g := range lineGrs(l) {
			if !g.ctrl {
				n += g.w
			}
		}
		want = max(want, n)
	}
	if width != want || height != len(lines) {
		w.a.rc.bad("P30", "size", "the text %q says that it is %d by %d cells large; it takes %d by %d", textOf(lines), width, height, want, len(lines))
	}
}

func lineOf(l []textwidget.Line, i int) textwidget.Line {
	if i < len(l) {
		return l[i]
	}
	return textwidget.Line{}
}

func (w *widRun) drawParaOrText(it *wItem, r *rng, t textwidget.Text, area bento.Rect, buf *bento.Buffer) bento.Alignment {
	al := bento.Alignment(1 + r.n(3))
	if it.T == "text" {
		t = alignText(t, al, r.p(30))
		t.Render(area, buf)
		return al
	}
	p := paragraphwidget.New(t).WithScroll(it.para.sy, it.para.sx)
	it.wrap = 0
	if r.p(60) {
		it.wrap = 1 + r.n(2)
		p = p.WithWrap(paragraphwidget.NewWrap().WithTrim(it.wrap == 2))
	}
	switch al {
	case bento.AlignmentRight:
		p = p.Right()
	case bento.AlignmentCenter:
		p = p.Center()
	case bento.AlignmentLeft:
		if r.p(30) {
			p = p.Right().Left()
		}
	}
	it.paraBlock = nil
	if r.p(30) {
		b := blockwidget.New().Bordered()
		it.paraBlock = &b
		p = p.WithBlock(b)
	}
	p.Render(area, buf)
	return al
}

// checkPara checks the visible rows of a paragraph, together with those seen
// before at other scroll positions.
func (w *widRun) checkPara(it *wItem, lines []textwidget.Line, al bento.Alignment, in bento.Rect, rows []string) {
	rc := w.a.rc
	p := &it.para
	sx := p.sx
	if it.wrap > 0 {
		sx = 0
	}
	ep := 0
	if it.Hold > 0 {
		ep = w.epoch / it.Hold
	}
	if key := fmt.Sprint(ep, in.Width, sx); key != p.key {
		p.key, p.rows = key, map[int]string{}
	}
	for y, row := range rows {
		if old, ok := p.rows[p.sy+y]; ok && old != row {
			rc.bad("P30", "scroll", "line %d of a paragraph shows %q; when the paragraph was scrolled differently it showed %q", p.sy+y, row, old)
			return
		}
		p.rows[p.sy+y] = row
	}
	if p.sy > 0 {
		rc.probe("scrolled")
	}
	rc.probe("checked")
	if it.wrap == 0 {
		rc.probe("truncated_checked")
		for y, row := range rows {
			want := []string{strings.Repeat(" ", in.Width)}
			i := p.sy + y
			a := either(lineOf(lines, i).Alignment, al)
			if i < len(lines) {
				sx := sx
				if a != bento.AlignmentLeft { // only left-aligned lines scroll
					sx = 0
				}
				want = truncated(lineGrs(lines[i]), in.Width, sx, a)
			}
			if !slices.Contains(want, row) {
				rc.bad("P30", "truncated", "line %d of a paragraph drawn into %v, scrolled by (%d,%d), alignment %v, shows %q, not %q", i, in, sx, p.sy, a, row, trunc2(strings.Join(want, "\" or \"")))
				return
			}
		}
		return
	}
	rc.probe("wrapped_checked")
	var known []string
	for {
		row, ok := p.rows[len(known)]
		if !ok {
			break
		}
		known = append(known, row)
	}
	wr := wrapped{w: in.Width, trim: it.wrap == 2}
	for _, l := range lines {
		var t []gr
		for _, g := range lineGrs(l) {
			if !g.ctrl && g.w <= in.Width && (g.w > 0 || g.space) {
				t = append(t, g)
			}
		}
		wr.lines = append(wr.lines, t)
		wr.al = append(wr.al, either(l.Alignment, al))
	}
	if i, ok := wr.match(known); !ok {
		rc.bad("P30", "wrapped", "the lines of a paragraph wrapped to %d columns (trim: %v) show %q; line %d is not what follows of the text %q", in.Width, wr.trim, known[:i+1], i, textOf(lines))
	} else if len(known) > len(rows) {
		rc.probe("whole_scrolled")
	}
}

func textOf(lines []textwidget.Line) []string {
	var l []string
	for _, x := range lines {
		l = append(l, trunc2(x.String()))
	}
	return l
}

// truncated lists what a row may show of a line without wrapping.
func truncated(t []gr, w, sx int, al bento.Alignment) []string {
	t = slices.DeleteFunc(t, func(g gr) bool { return g.ctrl || g.w > w })
	pre := func(t []gr) string {
		n := 0
		for i, g := range t {
			if n+g.w > w {
				t = t[:i]
				break
			}
			n += g.w
		}
		return aligned(str(t), width(t), w, al)[0]
	}
	if al == bento.AlignmentCenter && sx == 0 {
		n := 0
		for i, g := range t {
			if n+g.w > w {
				t = t[:i]
				break
			}
			n += g.w
		}
		return aligned(str(t), n, w, al)
	}
	i := 0
	for i < len(t) && sx > 0 && t[i].w <= sx {
		sx -= t[i].w
		i++
	}
	if sx > 0 && i < len(t) { // only half of a wide character is scrolled out
		return []string{pre(t[i:]), pre(t[i+1:]), " " + strings.TrimSuffix(pre(t[i+1:]), " ")}
	}
	return []string{pre(t[i:])}
}

// wrapped decides whether rows are a proper way to wrap lines.
type wrapped struct {
	lines [][]gr
	al    []bento.Alignment
	w     int
	trim  bool
}

type wpos struct{ l, t int }

// match returns the first row that cannot be.
func (m *wrapped) match(rows []string) (int, bool) {
	states := map[wpos]bool{{0, 0}: true}
	for i, row := range rows {
		next := map[wpos]bool{}
		for s := range states {
			m.row(s, row, next)
		}
		if len(next) == 0 {
			return i, false
		}
		states = next
	}
	return 0, true
}

// add adds a position, and the next line if this one is finished.
func (m *wrapped) add(next map[wpos]bool, p wpos) {
	t := m.lines[p.l]
	rest := slices.IndexFunc(t[p.t:], func(g gr) bool { return !g.space })
	if rest < 0 {
		next[wpos{p.l + 1, 0}] = true
	}
	if p.t < len(t) {
		next[p] = true
	}
}

func (m *wrapped) row(s wpos, row string, next map[wpos]bool) {
	if s.l >= len(m.lines) {
		if strings.Trim(row, " ") == "" {
			next[s] = true
		}
		return
	}
	t := m.lines[s.l]
	spaces := s.t
	for spaces < len(t) && t[spaces].space {
		spaces++
	}
	if strings.Trim(row, " \u3000") == "" {
		if spaces == len(t) { // nothing, or nothing but blanks
			next[wpos{s.l + 1, 0}] = true
		}
		if spaces > s.t && !m.trim { // blanks may take lines
			for k := s.t + 1; k <= spaces; k++ {
				m.add(next, wpos{s.l, k})
			}
		}
		return
	}
	for a := s.t; a <= spaces; a++ {
		if m.trim && a < spaces || !m.trim && (s.t == 0 && a > 0 || a > s.t+1) {
			continue
		}
		n := 0
		for b := a; b < len(t); b++ {
			n += t[b].w
			if n > m.w {
				break
			}
			if b+1 <= spaces {
				continue
			}
			m.piece(s, a, b+1, n, row, next)
		}
	}
}

// piece tries t[a:b] as a row.
func (m *wrapped) piece(s wpos, a, b, n int, row string, next map[wpos]bool) {
	l := s.l
	t := m.lines[l]
	if !slices.Contains(aligned(str(t[a:b]), n, m.w, m.al[l]), row) {
		return
	}
	wordEnd := func(i int) int {
		for i < len(t) && !t[i].space {
			i++
		}
		return i
	}
	if b < len(t) && !t[b-1].space && !t[b].space {
		// inside a word: only if it does not fit a line
		i := a
		for i < b && t[i].space {
			i++
		}
		if slices.ContainsFunc(t[i:b], func(g gr) bool { return g.space }) || width(t[a:wordEnd(b)]) <= m.w {
			return
		}
		// as much of it as fits (or less, after blanks that were trimmed)
		if n+t[b].w <= m.w && !(m.trim && a > s.t) {
			return
		}
	} else {
		// between words: only if the next one does not fit the line, too
		i := b
		for i < len(t) && t[i].space {
			i++
		}
		if i < len(t) && width(t[a:wordEnd(i)]) <= m.w {
			return
		}
		// the blanks that fit, but do not show, do not start the next row
		for ; b < len(t) && t[b].space && n+t[b].w <= m.w; b++ {
			n += t[b].w
			if t[b].w == 0 {
				m.add(next, wpos{l, b})
			}
		}
	}
	m.add(next, wpos{l, b})
}

// ---- P32 ----

// drawIndicator draws an indicator and says how to check it.
func (w *widRun) drawIndicator(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer) (string, func()) {
	rc := w.a.rc
	whole := !area.IsEmpty() && area.Intersection(buf.Area()) == area
	check := func(f func()) func() {
		return func() {
			if whole {
				rc.probe("checked")
				f()
			}
		}
	}
	cell := func(x, y int) *bento.Cell { return buf.CellAt(bento.NewPosition(x, y)) }
	switch it.T {
	case "gauge":
		uni := r.p(50)
		g := gaugewidget.New().WithUnicode(uni)
		ratio := 0.0
		if r.p(50) {
			p := pick(r, 0, 100, 99, 1, r.n(101))
			ratio = float64(p) / 100
			g = g.WithPercent(p)
		} else {
			ratio = pick(r, 0, 1, 0.999999, 0.5, float64(r.n(1000001))/1e6)
			g = g.WithRatio(ratio)
		}
		if r.p(10) { // values there are no gauges for
			bad := pick(r, -0.01, 1.01, -1, 2, 100, math.NaN(), math.Inf(1), math.Inf(-1), -1e-12, 1+1e-12)
			pct := pick(r, -1, 101, 1000, -100)
			if !panics(func() { g = g.WithRatio(bad) }) {
				rc.bad("P32", "gauge-ratio", "a gauge takes the ratio %v", bad)
			}
			if !panics(func() { g = g.WithPercent(pct) }) {
				rc.bad("P32", "gauge-percent", "a gauge takes %d percent", pct)
			}
		}
		label := fmt.Sprintf("%d%%", int(math.Round(ratio*100)))
		if r.p(40) {
			label = pick(r, "", "50/100", "世界", "a long label for a gauge")
			g = g.WithLabelStr(label)
		}
		g.Render(area, buf)
		return fmt.Sprintf("the gauge %v", ratio), check(func() {
			f := float64(area.Width) * ratio
			lt := grs(label)
			for i := range lt {
				if width(lt[:i+1]) > area.Width {
					lt = lt[:i]
					break
				}
			}
			lw, lrow := width(lt), area.Top()+area.Height/2
			var lcol []int // where the label may start
			full := min(area.Width, uniseg.StringWidth(label))
			lcol = append(lcol, area.Left()+(area.Width-full)/2, area.Left()+(area.Width-full+1)/2)
			at := -1
			for _, c := range lcol {
				if shown(buf, c, c+lw, lrow) == str(lt) {
					at = c
				}
			}
			if at < 0 {
				rc.bad("P32", "label", "a gauge drawn into %v shows %q instead of its label %q", area, shown(buf, area.Left(), area.Right(), lrow), label)
				return
			}
			for y := area.Top(); y < area.Bottom(); y++ {
				for x := area.Left(); x < area.Right(); x++ {
					if y == lrow && x >= area.Left()+(area.Width-full)/2 && x < area.Left()+(area.Width-full+1)/2+full {
						continue
					}
					got := cell(x, y).Symbol
					i := float64(x - area.Left())
					want := 0.0 // eighths
					if uni {
						want = max(0, min(8, (f-i)*8))
					} else if i < math.Round(f) {
						want = 8
					}
					n, ok := eighths[got]
					if !ok || math.Abs(float64(n)-want) > 0.5001 && (uni || math.Abs(f-math.Floor(f)-0.5) > 1e-6) {
						rc.bad("P32", "gauge", "a gauge drawn into %v for %v of its width shows %q in column %v: %v eighths of it should be filled", area, ratio, got, i, want)
						return
					}
				}
			}
			rc.probe("gauge_checked")
		})
	case "scroll":
		return w.drawScroll(it, r, area, buf, whole)
	case "tabs":
		n := pick(r, 0, 1, 2, 3, 6)
		var titles []textwidget.Line
		for i := 0; i < n; i++ {
			titles = append(titles, textwidget.NewLineStr(pick(r, "one", "two", "Tab", "世界", "a longer title", "x", "")))
		}
		sel := r.n(8) - 1
		div, pl, pr := "│", " ", " "
		t := tabswidget.New(titles...).WithHighlightStyle(bento.NewStyle().CrossedOut())
		if sel >= 0 {
			t = t.Select(sel)
		}
		if r.p(30) {
			div = pick(r, "", "|", " - ", "世")
			t = t.WithDividerStr(div)
		}
		if r.p(30) {
			pl, pr = pick(r, "", " ", ">"), pick(r, "", " ", "<")
			t = t.WithPaddingLeftStr(pl).WithPaddingRightStr(pr)
		}
		framed := r.p(25)
		if framed {
			t = t.WithBlock(blockwidget.New().Bordered())
		}
		if r.p(20) { // it was drawn elsewhere before, and others were derived from it
			scratch := bento.NewBufferEmpty(area)
			t.Render(area, &scratch)
			t.Select(0).WithTitles(textwidget.NewLineStr("other")).Render(area, &scratch)
		}
		t.Render(area, buf)
		return "the tabs", check(func() {
			area := area
			if framed {
				area = area.Inner(bento.NewPadding(1))
				if area.IsEmpty() {
					return
				}
				if l, r := shown(buf, area.Left()-1, area.Left(), area.Top()), shown(buf, area.Right(), area.Right()+1, area.Top()); l != "│" || r != "│" {
					rc.bad("P32", "tabs-frame", "tabs in a block drawn into %v show %q and %q at their sides", area, l, r)
					return
				}
			}
			var all []gr
			from, to := -1, -1
			for i, ti := range titles {
				all = append(all, grs(pl)...)
				if i == sel {
					from = width(all)
				}
				all = append(all, lineGrs(ti)...)
				if i == sel {
					to = width(all)
				}
				all = append(all, grs(pr)...)
				if i < n-1 {
					all = append(all, grs(div)...)
				}
			}
			cut := false
			for i := range all {
				if width(all[:i+1]) > area.Width {
					all, cut = all[:i], true
					break
				}
			}
			aw := width(all)
			row := shown(buf, area.Left(), area.Left()+aw, area.Top())
			if row != str(all) {
				rc.bad("P32", "tabs", "tabs drawn into %v show %q, not %q", area, row, str(all))
				return
			}
			for x := 0; x < area.Width; x++ {
				if cut && x >= aw {
					break
				}
				hl := cell(area.Left()+x, area.Top()).Modifier&bento.ModifierCrossedOut != 0
				if hl != (x >= from && x < to) {
					rc.bad("P32", "tabs-highlight", "tabs %q drawn into %v: column %d highlighted: %v, title %d is selected", row, area, x, hl, sel)
					return
				}
			}
			rc.probe("tabs_checked")
		})
	case "block":
		return w.drawBlock(it, r, area, buf, whole)
	case "popup":
		pw, ph := r.in(1, 20), r.in(1, 8)
		p := popupwidget.New().WithWidth(bento.ConstraintLen(pw)).WithHeight(bento.ConstraintLen(ph))
		h, v := r.n(3), r.n(3)
		if r.p(20) { // a place it does not stay at
			p = pick(r, p.Left, p.Center, p.Right, p.Top, p.Middle, p.Bottom)()
		}
		p = []func() popupwidget.Popup{p.Left, p.Center, p.Right}[h]()
		p = []func() popupwidget.Popup{p.Top, p.Middle, p.Bottom}[v]()
		p = p.WithBlock(blockwidget.New().Bordered())
		var pad bento.Padding
		if r.p(40) {
			pad = bento.NewPadding(r.n(3), r.n(3), r.n(3), r.n(3))
			p = p.WithPadding(pad)
		}
		for y := area.Top(); y < area.Bottom() && whole; y++ {
			for x := area.Left(); x < area.Right(); x++ {
				cell(x, y).SetSymbol("#")
			}
		}
		p.Render(area, buf)
		return "the popup", check(func() {
			outer, full := area, area
			area := outer.Inner(pad)
			if area.IsEmpty() {
				return
			}
			pw, ph = min(pw, area.Width), min(ph, area.Height)
			spot := func(k, free int) (int, int) {
				return []int{0, free / 2, free}[k], []int{0, (free + 1) / 2, free}[k]
			}
			x0, x1 := spot(h, area.Width-pw)
			y0, y1 := spot(v, area.Height-ph)
			left, top, right, bottom := full.Right(), full.Bottom(), full.Left(), full.Top()
			for y := full.Top(); y < full.Bottom(); y++ {
				for x := full.Left(); x < full.Right(); x++ {
					if cell(x, y).Symbol != "#" {
						left, top, right, bottom = min(left, x), min(top, y), max(right, x+1), max(bottom, y+1)
					}
				}
			}
			if right-left != pw || bottom-top != ph || left-area.X < x0 || left-area.X > x1 || top-area.Y < y0 || top-area.Y > y1 {
				rc.bad("P32", "popup", "a popup of %d by %d cells placed at %d,%d in %v with padding %v covers (%d,%d) to (%d,%d)", pw, ph, h, v, full, pad, left, top, right, bottom)
				return
			}
			if in := p.Inner(full); pw > 1 && ph > 1 && in != bento.NewRect(pw-2, ph-2).Positioned(left+1, top+1) {
				rc.bad("P32", "popup-inner", "a popup that covers (%d,%d) to (%d,%d) leaves %v for its content", left, top, right, bottom, in)
				return
			}
			for y := top + 1; y < bottom-1; y++ {
				for x := left + 1; x < right-1; x++ {
					if *cell(x, y) != bento.NewEmptyCell() {
						rc.bad("P32", "popup-clear", "a popup leaves %v at (%d,%d) of what it covers", *cell(x, y), x, y)
						return
					}
				}
			}
			rc.probe("popup_checked")
		})
	case "fill":
		sym := pick(r, "x", "╲", "世")
		fillwidget.New(sym).Render(area, buf)
		return "the fill widget", check(func() {
			sw := uniseg.StringWidth(sym)
			want := strings.Repeat(sym, area.Width/sw) + strings.Repeat(" ", area.Width%sw)
			for y := area.Top(); y < area.Bottom(); y++ {
				if got := shown(buf, area.Left(), area.Right(), y); got != want {
					rc.bad("P32", "fill", "filling %v with %q shows %q in row %d", area, sym, got, y)
					return
				}
			}
			rc.probe("fill_checked")
		})
	case "clear":
		buf.SetStyle(area, bento.NewStyle().Bold())
		textwidget.NewTextStr("text\ntext").Render(area, buf)
		clearwidget.New().Render(area, buf)
		return "the clear widget", check(func() {
			for y := area.Top(); y < area.Bottom(); y++ {
				for x := area.Left(); x < area.Right(); x++ {
					if *cell(x, y) != bento.NewEmptyCell() {
						rc.bad("P32", "clear", "clearing %v leaves %v at (%d,%d)", area, *cell(x, y), x, y)
						return
					}
				}
			}
			rc.probe("clear_checked")
		})
	}
	harnessError("no indicator " + it.T)
	return "", nil
}

var eighths = map[string]int{" ": 0, "▏": 1, "▎": 2, "▍": 3, "▌": 4, "▋": 5, "▊": 6, "▉": 7, "█": 8}

// barState is what a scroll bar should be showing.
type barState struct {
	n, pos, view int
	key          string
	starts       map[int]int // position: where the thumb starts
}

func (it *wItem) scrollBarKey(k bento.Key) {
	b := &it.bar
	switch k.String() {
	case "down", "j":
		if k.String() == "j" {
			it.scroll.Scroll(scrollwidget.DirectionForward)
		} else {
			it.scroll.Next()
		}
		b.pos = min(b.pos+1, max(0, b.n-1))
	case "up", "k":
		it.scroll.Scroll(scrollwidget.DirectionBackward)
		b.pos = max(0, b.pos-1)
	case "ctrl+d":
		it.scroll.SetPosition(b.pos + 8)
		b.pos += 8
	case "ctrl+u":
		it.scroll.Prev()
		b.pos = max(0, b.pos-1)
	case "g":
		it.scroll.First()
		b.pos = 0
	case "G":
		it.scroll.Last()
		b.pos = max(0, b.n-1)
	}
}

func (w *widRun) drawScroll(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer, whole bool) (string, func()) {
	rc := w.a.rc
	b := &it.bar
	o := scrollwidget.Orientation(r.n(4))
	n := pick(r, 0, 1, 2, 10, 1000, r.n(100))
	view := pick(r, 0, 0, 1, 5, 20)
	if n != b.n || view != b.view || b.starts == nil { // other content
		b.n, b.view, b.pos = n, view, 0
		b.starts = map[int]int{}
		it.scroll = scrollwidget.NewState(n)
		it.scroll.SetViewportContentLen(view)
	}
	if it.scroll.Position() != b.pos {
		rc.bad("P32", "scroll-position", "the position of a scroll bar for %d lines is %d, not %d", n, it.scroll.Position(), b.pos)
		b.pos = it.scroll.Position()
	}
	s := scrollwidget.New(o)
	s.RenderStateful(area, buf, it.scroll)
	return "the scroll bar", func() {
		if !whole {
			return
		}
		rc.probe("checked")
		rest := area
		switch o {
		case scrollwidget.OrientationHorizontalBottom:
			rest.Height--
		case scrollwidget.OrientationHorizontalTop:
			rest.Height--
			rest.Y++
		case scrollwidget.OrientationVerticalLeft:
			rest.Width--
			rest.X++
		case scrollwidget.OrientationVerticalRight:
			rest.Width--
		}
		if in := s.Inner(area); in != rest && (!in.IsEmpty() || !rest.IsEmpty()) {
			rc.bad("P32", "scroll-inner", "a scroll bar drawn into %v leaves %v to its content", area, in)
			return
		}
		vert := o == scrollwidget.OrientationVerticalLeft || o == scrollwidget.OrientationVerticalRight
		var bar []string
		track, arrows := "═", []string{"", ""}
		l := area.Width
		if vert {
			track, arrows, l = "║", []string{"▲", "▼"}, area.Height
		}
		for i := 0; i < l; i++ {
			p := bento.NewPosition(area.Left()+i, area.Top())
			switch o {
			case scrollwidget.OrientationHorizontalBottom:
				p.Y = area.Bottom() - 1
			case scrollwidget.OrientationVerticalLeft:
				p = bento.NewPosition(area.Left(), area.Top()+i)
			case scrollwidget.OrientationVerticalRight:
				p = bento.NewPosition(area.Right()-1, area.Top()+i)
			}
			bar = append(bar, buf.CellAt(p).Symbol)
		}
		full := bar
		bad := func(code, why string) {
			rc.bad("P32", code, "a scroll bar at line %d of %d, with %d in view, drawn into %v, shows %q: %s", b.pos, n, view, area, full, why)
		}
		t := l
		if vert {
			t = max(0, l-2)
		}
		if n == 0 || t == 0 {
			if strings.Trim(strings.Join(bar, ""), " ") != "" {
				bad("scroll-empty", "there is nothing to scroll or no room")
			}
			return
		}
		if vert {
			if bar[0] != arrows[0] || bar[l-1] != arrows[1] {
				bad("scroll-arrows", "its arrows are not at its ends")
				return
			}
			bar = bar[1 : l-1]
		}
		from := slices.Index(bar, "█")
		if from < 0 {
			bad("scroll-thumb", "there is no thumb")
			return
		}
		to := from
		for to < len(bar) && bar[to] == "█" {
			to++
		}
		for i, s := range bar {
			if (i < from || i >= to) && s != track {
				bad("scroll-track", fmt.Sprintf("%q in its track", s))
				return
			}
		}
		v := view
		if v == 0 {
			v = l
		}
		pos := min(b.pos, n-1)
		total := float64(n - 1 + v)
		wantFrom := float64(pos) * float64(t) / total
		wantLen := max(1, float64(v)*float64(t)/total)
		switch {
		case pos == 0 && from != 0:
			bad("scroll-start", "the thumb is not at the start")
		case pos == n-1 && to != t:
			bad("scroll-end", "the thumb is not at the end")
		case math.Abs(float64(from)-wantFrom) > 1.001:
			bad("scroll-where", fmt.Sprintf("the thumb should start near cell %.1f", wantFrom))
		case math.Abs(float64(to-from)-wantLen) > 1.001:
			bad("scroll-length", fmt.Sprintf("the thumb should be about %.1f cells long", wantLen))
		}
		if key := fmt.Sprint(l, o); key != b.key {
			b.key, b.starts = key, map[int]int{}
		}
		for p, f := range b.starts {
			if p < pos && f > from || p > pos && f < from {
				bad("scroll-monotone", fmt.Sprintf("at line %d the thumb was at %d", p, f))
				return
			}
		}
		b.starts[pos] = from
		rc.probe("scroll_checked")
	}
}

var borderSets = [][8]string{ // corners from the top left, clockwise, then the sides from the top
	{"┌", "┐", "┘", "└", "─", "│", "─", "│"},
	{"╭", "╮", "╯", "╰", "─", "│", "─", "│"},
	{"╔", "╗", "╝", "╚", "═", "║", "═", "║"},
	{"┏", "┓", "┛", "┗", "━", "┃", "━", "┃"},
}

func (w *widRun) drawBlock(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer, whole bool) (string, func()) {
	rc := w.a.rc
	ty := r.n(4)
	set := borderSets[ty]
	sides := uint(15)
	b := blockwidget.New().WithBorderType(blockwidget.BorderType(ty))
	if r.p(30) {
		b = []func() blockwidget.Block{b.Sharp, b.Rounded, b.Double, b.Thick}[ty]()
	}
	if r.p(50) {
		b = b.Bordered()
	} else {
		sides = uint(r.in(1, 15))
		var ss []blockwidget.Side
		for i := 0; i < 4; i++ {
			if sides&(1<<i) != 0 {
				ss = append(ss, blockwidget.Side(1<<i))
			}
		}
		b = b.WithBorderSides(ss...)
	}
	has := func(i int) bool { return sides&(1<<i) != 0 } // top, right, bottom, left
	// titles, with alignments and positions of their own or the block's
	var titles [2][4][]string // by position and alignment
	var named [2]int
	dal, dpos := bento.AlignmentLeft, 0
	settings := []func(){
		func() {
			if r.p(40) {
				dal = bento.Alignment(1 + r.n(3))
				b = b.WithTitlesAlignment(dal)
			}
		},
		func() {
			if r.p(40) {
				dpos = r.n(2)
				b = b.WithTitlePosition(blockwidget.TitlePosition(dpos))
			}
		},
	}
	late := r.p(50)
	if !late {
		settings[0]()
		settings[1]()
	}
	type tt struct {
		s      string
		al     bento.Alignment
		pos    int
		da, dp bool
	}
	var ts []tt
	one := tt{al: bento.Alignment(1 + r.n(3)), pos: r.n(2)}
	mixed := r.p(40)
	for n := pick(r, 0, 1, 1, 2, 3, 5); n > 0; n-- {
		t := one
		if mixed {
			t = tt{al: bento.Alignment(1 + r.n(3)), pos: r.n(2), da: r.p(25), dp: r.p(25)}
		}
		t.s = pick(r, "Title", "世界", "x", "a longer title", "é")
		ti := blockwidget.NewTitleStr(t.s)
		if !t.da {
			ti = alignTitle(ti, t.al, r.p(30))
		}
		if !t.dp {
			ti = placeTitle(ti, t.pos, r.p(30))
		}
		b = b.WithTitle(ti)
		ts = append(ts, t)
	}
	if late {
		settings[0]()
		settings[1]()
	}
	for _, t := range ts {
		if t.da {
			t.al = dal
		}
		if t.dp {
			t.pos = dpos
		}
		titles[t.pos][t.al] = append(titles[t.pos][t.al], t.s)
		named[t.pos]++
	}
	var pad bento.Padding
	if r.p(25) {
		pad = bento.NewPadding(r.n(3), r.n(3), r.n(3), r.n(3))
		b = b.WithPadding(pad)
	}
	if r.p(20) { // it was drawn elsewhere before, and others were derived from it
		b2 := b.WithTitleStr("derived").WithBorderSides(blockwidget.SideTop).WithPadding(bento.NewPadding(1))
		scratch := bento.NewBufferEmpty(area)
		b.Render(area, &scratch)
		b2.Render(area, &scratch)
	}
	b.Render(area, buf)
	in := b.Inner(area)
	return "the block", func() {
		w.inner("block", area, in)
		if !whole {
			return
		}
		rc.probe("checked")
		b2i := map[bool]int{true: 1}
		top, right, bottom, left := b2i[has(0)], b2i[has(1)], b2i[has(2)], b2i[has(3)]
		if named[0] > 0 {
			top = 1
		}
		if named[1] > 0 {
			bottom = 1
		}
		if area.Width >= left+right+pad.Left+pad.Right && area.Height >= top+bottom+pad.Top+pad.Bottom {
			want := bento.NewRect(area.Width-left-right-pad.Left-pad.Right, area.Height-top-bottom-pad.Top-pad.Bottom).Positioned(area.X+left+pad.Left, area.Y+top+pad.Top)
			if in != want {
				rc.bad("P32", "block-inner", "a block with borders %04b, padding %v and titles %q drawn into %v leaves %v for its content, not %v", sides, pad, titles, area, in, want)
				return
			}
		}
		if area.Width < 2 || area.Height < 2 {
			return
		}
		titled := func(y int) bool {
			return y == area.Top() && named[0] > 0 || y == area.Bottom()-1 && named[1] > 0
		}
		for y := area.Top(); y < area.Bottom(); y++ {
			for x := area.Left(); x < area.Right(); x++ {
				if titled(y) && x > area.Left() && x < area.Right()-1 {
					continue
				}
				t, r, bo, l := y == area.Top() && has(0), x == area.Right()-1 && has(1), y == area.Bottom()-1 && has(2), x == area.Left() && has(3)
				if titled(y) && !(l || r) {
					continue
				}
				want := " "
				switch {
				case t && l:
					want = set[0]
				case t && r:
					want = set[1]
				case bo && r:
					want = set[2]
				case bo && l:
					want = set[3]
				case t:
					want = set[4]
				case r:
					want = set[5]
				case bo:
					want = set[6]
				case l:
					want = set[7]
				}
				if got := buf.CellAt(bento.NewPosition(x, y)).Symbol; got != want {
					rc.bad("P32", "border", "a block with borders %04b drawn into %v shows %q at (%d,%d), not %q", sides, area, got, x, y, want)
					return
				}
			}
		}
		rc.probe("block_checked")
		x0, x1 := area.Left()+b2i[has(3)], area.Right()-b2i[has(1)]
		for pos, row := range []int{area.Top(), area.Bottom() - 1} {
			if named[pos] == 0 || x1 <= x0 {
				continue
			}
			line := " "
			if pos == 0 && has(0) || pos == 1 && has(2) {
				line = set[4]
			}
			group := func(al bento.Alignment) (string, int) {
				s := strings.Join(titles[pos][al], line)
				return s, uniseg.StringWidth(s)
			}
			l, lw := group(bento.AlignmentLeft)
			c, cw := group(bento.AlignmentCenter)
			rt, rw := group(bento.AlignmentRight)
			w := x1 - x0
			if lw > w || cw > w || rw > w {
				continue
			}
			var want []string
			over := false
			for _, at := range []int{(w - cw) / 2, (w - cw + 1) / 2} {
				if cw == 0 {
					at = lw
				}
				if lw > at || at+cw > w-rw {
					over = true // titles on top of one another
					break
				}
				want = append(want, l+strings.Repeat(line, at-lw)+c+strings.Repeat(line, w-rw-at-cw)+rt)
			}
			if over {
				continue
			}
			if got := shown(buf, x0, x1, row); !slices.Contains(want, got) {
				rc.bad("P32", "titles", "a block with borders %04b and titles %q drawn into %v shows %q in row %d, not %q", sides, titles[pos], area, got, row, want)
				return
			}
			rc.probe("titles_checked")
		}
	}
}

// drawPrint prints strings, spans and lines at places in and around a buffer.
func (w *widRun) drawPrint(r *rng, area bento.Rect) {
	rc := w.a.rc
	b := bento.NewBufferEmpty(area)
	for y := area.Top(); y < area.Bottom(); y++ {
		for x := area.Left(); x < area.Right(); x++ {
			b.CellAt(bento.NewPosition(x, y)).SetSymbol(".")
		}
	}
	x, y := r.in(area.Left()-5, area.Right()+2), r.in(area.Top()-1, area.Bottom())
	n := pick(r, math.MaxInt, area.Width, r.n(12), 0)
	l := pline(r)
	var what string
	var endX, endY int
	switch r.n(5) {
	case 0:
		s := ptext(r)
		l = textwidget.NewLine(textwidget.NewSpan(s))
		what, n = "SetString", math.MaxInt
		b.SetString(x, y, s, rstyle(r))
		endX, endY = -1, -1
	case 1:
		s := ptext(r)
		l = textwidget.NewLine(textwidget.NewSpan(s))
		what = "SetStringN"
		endX, endY = b.SetStringN(x, y, s, n, rstyle(r))
	case 2:
		s := textwidget.NewSpan(ptext(r))
		l = textwidget.NewLine(s)
		what = "Span.Print"
		endX, endY = s.Print(&b, x, y, n)
	case 3:
		what = "Line.Print"
		endX, endY = l.Print(&b, x, y, n)
	case 4:
		ls := textwidget.Lines{l}
		for r.p(60) {
			ls = append(ls, pline(r))
		}
		b = ls.NewBuffer()
		area = b.Area()
		if area.Height != len(ls) || area.Width != ls.Width() || area.X != 0 || area.Y != 0 {
			rc.bad("P30", "buffer", "the buffer made from %q is %v", textOf(ls), area)
			return
		}
		for i, l := range ls {
			var t []gr
			for _, g := range lineGrs(l) {
				if !g.ctrl {
					t = append(t, g)
				}
			}
			if got, want := shown(&b, 0, area.Width, i), aligned(str(t), width(t), area.Width, bento.AlignmentLeft)[0]; area.Width > 0 && got != want {
				rc.bad("P30", "buffer", "row %d of the buffer made from %q shows %q, not %q", i, textOf(ls), got, want)
				return
			}
		}
		rc.probe("buffer_checked")
		return
	}
	where := fmt.Sprintf("%s of %q at (%d,%d) of a buffer %v, at most %d cells,", what, textOf([]textwidget.Line{l}), x, y, area, n)
	row := make([]string, area.Width)
	for i := range row {
		row[i] = "."
	}
	ex := x
	if y >= area.Top() && y < area.Bottom() {
		for _, g := range lineGrs(l) {
			if g.w == 0 {
				continue
			}
			if g.w > n || ex+g.w > area.Right() {
				break
			}
			if n != math.MaxInt {
				n -= g.w
			}
			if ex >= area.Left() {
				row[ex-area.Left()] = g.s
				if g.w == 2 {
					row[ex-area.Left()+1] = ""
				}
			}
			ex += g.w
		}
	}
	if what != "SetString" && (endX != ex || endY != y) {
		rc.bad("P30", "print-end", "%s says that it ends at (%d,%d), not at (%d,%d)", where, endX, endY, ex, y)
		return
	}
	for i := area.Top(); i < area.Bottom(); i++ {
		want := strings.Repeat(".", area.Width)
		if i == y {
			want = strings.Join(row, "")
		}
		if got := shown(&b, area.Left(), area.Right(), i); got != want {
			rc.bad("P30", "print", "%s leaves row %d as %q, not %q", where, i, got, want)
			return
		}
	}
	rc.probe("print_checked")
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}
