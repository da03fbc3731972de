package main

import (
	"fmt"
	"runtime/debug"
	"slices"
	"strings"
	"time"
	"unicode"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
	"github.com/rivo/uniseg"
)

// WidSc makes the model of an application scenario one built from widgets.
type WidSc struct {
	Settle int // microseconds to wait at the end
	W      []WItem
}

// WItem is one widget of the model.
type WItem struct {
	T    string // kind of widget; input, list and throbber carry state
	Seed uint64 // content and configuration
	Hold int    // key messages after which content and configuration change; 0: never
	// Area, in permille of the terminal or, if Abs, in cells
	Abs        bool
	X, Y, W, H int
	Start      int // throbber: number of starts in Init
	FPS        int // throbber: microseconds per frame
}

type wItem struct {
	*WItem
	i      int
	input  inputwidget.State
	list   listwidget.State
	view   listView
	scroll scrollwidget.State
	throb  *throbberwidget.State

	ed   editor  // what the text of the input should be
	sel  []int   // what may be selected in the list; empty: nothing
	typ  editor  // the same, from what was typed
	last geomKey // last geometry

	para      paraState
	paraBlock *blockwidget.Block
	wrap      int // paragraph: 0 no wrapping, 1 wrapping, 2 with trimming
	bar       barState

	// throbber
	steps, starts, startSteps int
	lastStep                  time.Duration
	interval                  time.Duration
}

type geomKey struct{ area bento.Rect }

type widRun struct {
	a     *appRun
	items []*wItem
	epoch int
	keys  int
}

func newWidRun(a *appRun, s *WidSc) *widRun {
	w := &widRun{a: a}
	for i := range s.W {
		it := &wItem{WItem: &s.W[i], i: i, input: inputwidget.NewState(), list: listwidget.NewState()}
		if it.T == "throbber" {
			st := throbberwidget.NewState()
			// the application may have had others before the next one
			for n := pick(newRng(it.Seed, 6), 0, 0, 1, 6, 7, 14, 15, 31, 62, 63, 126, 127, 254, 255, 1023); n > 0; n-- {
				throbberwidget.NewState()
			}
			if it.FPS > 0 {
				st.FPS = us(it.FPS)
			}
			it.throb = &st
		}
		if it.T == "input" && newRng(it.Seed, 5).p(10) {
			it.input.ShowCursor(false)
		}
		w.items = append(w.items, it)
	}
	return w
}

// guard calls the code under test; a panic violates the property.
func (w *widRun) guard(prop, what string, f func()) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		st := string(debug.Stack())
		fr := panicFrame(st)
		if strings.HasPrefix(fr, "main.") {
			harnessError("panic in the harness: " + st)
		}
		if i := strings.LastIndexByte(fr, '('); i > 0 {
			fr = fr[:i]
		}
		w.a.rc.bad(prop, "panic", "%s panics in %s: %v", what, fr, r)
	}()
	f()
}

func (w *widRun) prop() string { return w.a.rc.sc.Prop }

// init starts the throbbers.
func (w *widRun) init() bento.Cmd {
	var cmds []bento.Cmd
	for _, it := range w.items {
		for n := 0; it.throb != nil && n < it.Start; n++ {
			cmds = append(cmds, it.start(w))
		}
	}
	return bento.Batch(cmds...)
}

func (it *wItem) start(w *widRun) bento.Cmd {
	it.starts++
	w.a.rc.ev("start", it.i, it.starts, "")
	return it.throb.Tick
}

// update handles a message like applications do.
func (w *widRun) update(msg bento.Msg) bento.Cmd {
	rc := w.a.rc
	if k, ok := msg.(bento.KeyMsg); ok {
		if k.Type == bento.KeyF20 && k.Alt {
			return w.a.quitCmd()
		}
		w.keys++
		w.epoch++
		var cmds []bento.Cmd
		for _, it := range w.items {
			switch {
			case it.T == "input":
				w.guard(w.keyProp("P18"), "the input", func() {
					c, _ := it.input.TryUpdate(msg)
					cmds = append(cmds, c)
					// keys the application gives a meaning
					switch k.Type {
					case bento.KeyCtrlU:
						it.input.DeleteLine()
					case bento.KeyCtrlO:
						it.input.Append(yank)
					case bento.KeyCtrlB:
						it.input.MoveCursorLeft()
					case bento.KeyCtrlF:
						it.input.MoveCursorRight()
					}
				})
				it.ed.key(bento.Key(k))
				if got, want := it.input.String(), it.ed.text; w.prop() != "P17" && got != want {
					rc.bad("P18", "text", "after the key %s the text of the input is %q, an editor has %q", show(msg), trunc2(got), trunc2(want))
					it.ed.text, it.ed.at = got, len(got)
				}
				rc.probe("key_input")
			case it.T == "list":
				w.guard(w.keyProp("P19"), "the list", func() {
					c, _ := it.list.TryUpdate(msg)
					cmds = append(cmds, c)
				})
				it.listKey(k.String())
				w.listAPI(it)
				rc.probe("key_list")
			case it.T == "paragraph":
				it.scrollKey(bento.Key(k))
			case it.T == "scroll" && w.prop() == "P32":
				w.guard("P32", "the scroll bar", func() { it.scrollBarKey(bento.Key(k)) })
			case it.T == "scroll":
				w.guard("P17", "the scroll bar", func() {
					it.scroll.Scroll(scrollwidget.Direction(newRng(it.Seed, uint64(w.epoch), 3).n(2)))
				})
			case it.throb != nil:
				for _, r := range k.Runes {
					if int(r-'a') == it.i {
						cmds = append(cmds, it.start(w))
					}
				}
				if k.Type == bento.KeyUp && it.FPS > 0 { // like the example does
					it.throb.FPS += time.Millisecond
				}
			}
		}
		return bento.Batch(cmds...)
	}
	if t, ok := msg.(throbberwidget.TickMsg); ok {
		var cmd bento.Cmd
		handled := -1
		for _, it := range w.items {
			if it.throb == nil {
				continue
			}
			var c bento.Cmd
			w.guard("P20", "the throbber", func() { c, ok = it.throb.TryUpdate(msg) })
			if !ok {
				if c != nil {
					rc.bad("P20", "command", "throbber %d ignores a tick but wants a command to be run", it.i)
				}
				continue
			}
			if t.ID() != it.throb.ID() {
				rc.bad("P20", "foreign", "throbber %d takes a tick that is meant for another", it.i)
			}
			if handled >= 0 {
				rc.bad("P20", "foreign", "throbbers %d and %d take the same tick", handled, it.i)
			}
			handled, cmd = it.i, c
			w.step(it)
		}
		return cmd
	}
	return nil
}

// drawProp is the property a panic while drawing violates.
func (w *widRun) drawProp() string {
	if p := w.prop(); p == "P30" || p == "P31" || p == "P32" {
		return p
	}
	return "P17"
}

func (w *widRun) keyProp(p string) string {
	if w.prop() == "P17" {
		return "P17"
	}
	return p
}

// step checks one step of a throbber.
func (w *widRun) step(it *wItem) {
	rc := w.a.rc
	now := rc.now()
	rc.ev("step", it.i, it.steps, "")
	rc.probe("throbber_step")
	it.steps++
	if it.steps > 1 {
		rc.probe("checked")
	}
	if it.steps == 1 || now < it.lastStep+it.interval {
		it.startSteps++
		if it.startSteps > it.starts {
			rc.bad("P20", "fast", "throbber %d was started %d times; step %d is the %d. that is not one interval (%v) after the previous one: it follows after %v",
				it.i, it.starts, it.steps, it.startSteps, it.interval, now-it.lastStep)
		}
		if it.steps > 1 {
			rc.probe("restart_step")
		}
	} else {
		w.overdue(it, now)
	}
	it.lastStep, it.interval = now, it.throb.FPS
}

// overdue checks that a step is not late.
func (w *widRun) overdue(it *wItem, now time.Duration) {
	slack := time.Duration(0)
	if !w.a.zeroDelay() {
		slack = w.a.bound() - 2*time.Second
	}
	if it.steps > 0 && now > it.lastStep+it.interval+slack {
		w.a.rc.bad("P20", "slow", "throbber %d made step %d at %v; with an interval of %v the next is due, but does not happen before %v", it.i, it.steps, it.lastStep, it.interval, now)
	}
}

// final checks what must hold at the end.
func (w *widRun) final() {
	rc := w.a.rc
	if w.a.doneF || w.a.caused {
		return
	}
	for _, it := range w.items {
		switch {
		case it.throb != nil:
			if it.starts > 0 {
				if it.steps == 0 {
					rc.bad("P20", "never", "throbber %d was started but never made a step", it.i)
				}
				w.overdue(it, rc.now())
			} else if it.steps > 0 {
				rc.bad("P20", "unstarted", "throbber %d made %d steps without being started", it.i, it.steps)
			}
		case it.T == "input" && w.prop() == "P18":
			if slices.ContainsFunc(w.a.typed, func(k bento.Key) bool { return slices.ContainsFunc(k.Runes, joins) }) {
				continue // the text depends on which keys the terminal delivered together
			}
			rc.probe("typed_compared")
			for _, r := range w.a.typed {
				it.typ.key(r)
			}
			w.a.typed = nil
			if got := it.input.String(); got != it.typ.text {
				rc.bad("P18", "typed", "the text of the input is %q, an editor given what was typed has %q", trunc2(got), trunc2(it.typ.text))
			}
		}
	}
}

// joins tells whether the rune may be part of a character with others.
func joins(r rune) bool {
	return unicode.In(r, unicode.M, unicode.Cf, unicode.Regional_Indicator, unicode.Sk) || r == '\r'
}

func trunc2(s string) string {
	if len(s) > 120 {
		return s[:60] + "..." + s[len(s)-60:]
	}
	return s
}

// ---- reference models ----

// editor is a plain line editor: a text and a position in it, in bytes.
type editor struct {
	text string
	at   int
}

// bounds lists the boundaries of the characters of the text.
func (e *editor) bounds() []int {
	b := []int{0}
	g := uniseg.NewGraphemes(e.text)
	for g.Next() {
		_, to := g.Positions()
		b = append(b, to)
	}
	return b
}

// set gives the editor a new text; a position inside a character moves behind
// it.
func (e *editor) set(before, after string) {
	e.text, e.at = before+after, len(before)
	for _, b := range e.bounds() {
		if b >= e.at {
			e.at = b
			return
		}
	}
}

func (e *editor) move(by int) {
	bs := e.bounds()
	for i, b := range bs {
		if b == e.at {
			e.at = bs[max(0, min(len(bs)-1, i+by))]
			return
		}
	}
}

func (e *editor) backspace() {
	at := e.at
	e.move(-1)
	e.set(e.text[:e.at], e.text[at:])
}

// before is the character before the cursor.
func (e *editor) before() string {
	at := e.at
	e.move(-1)
	s := e.text[e.at:at]
	e.at = at
	return s
}

func blank(s string) bool {
	if s == "\u200b" {
		return true
	}
	for _, r := range s {
		if !unicode.IsSpace(r) || r == '\u00a0' {
			return false
		}
	}
	return true
}

// yank is what an application inserts on a key.
const yank = "yanked 世é"

func (e *editor) key(k bento.Key) {
	switch k.Type {
	case bento.KeyCtrlU:
		e.set("", "")
	case bento.KeyCtrlO:
		e.set(e.text[:e.at]+yank, e.text[e.at:])
	case bento.KeyLeft, bento.KeyCtrlB:
		e.move(-1)
	case bento.KeyRight, bento.KeyCtrlF:
		e.move(1)
	case bento.KeyCtrlA:
		e.at = 0
	case bento.KeyCtrlE:
		e.at = len(e.text)
	case bento.KeyBackspace:
		e.backspace()
	case bento.KeyCtrlW:
		// as a shell does: blanks, then a word
		start := e.at
		t, end := e.text, e.text[e.at:]
		for e.at > 0 && blank(e.before()) {
			e.move(-1)
		}
		for e.at > 0 && !blank(e.before()) {
			e.move(-1)
		}
		_ = start
		e.set(t[:e.at], end)
	case bento.KeyRunes, bento.KeySpace:
		e.set(e.text[:e.at]+string(k.Runes), e.text[e.at:])
	}
}

const many = 1 << 40

// listKey applies a key to the selection; anything beyond the last item is
// the last item once the list is drawn.
func (it *wItem) listKey(k string) {
	f := func(sel int) int { return sel }
	unset := -1
	switch k {
	case "j", "down":
		f, unset = func(s int) int { return s + 1 }, 0
	case "k", "up":
		f, unset = func(s int) int { return s - 1 }, many
	case "g":
		f, unset = func(int) int { return 0 }, 0
	case "G":
		f, unset = func(int) int { return many }, many
	case "ctrl+d":
		f, unset = func(s int) int { return s + 8 }, 8
	case "ctrl+u":
		f, unset = func(s int) int { return s - 8 }, 0
	default:
		return
	}
	if len(it.sel) == 0 {
		it.sel = []int{unset}
		return
	}
	for i, s := range it.sel {
		it.sel[i] = max(0, f(s))
		if s >= many/2 && it.sel[i] >= many/2 { // how far beyond the end does not matter
			it.sel[i] = many
		}
	}
}

// drawnList notes that the list was drawn with n items, with or without room.
func (it *wItem) drawnList(n int, room bool) {
	if len(it.sel) == 0 {
		return
	}
	c := map[int]bool{}
	for _, s := range it.sel {
		c[min(s, max(0, n-1))] = true
		if !room || n == 0 {
			c[s] = true
			if s == many { // some way beyond the end
				c[many-1] = true
			}
		}
	}
	it.sel = nil
	for s := range c {
		it.sel = append(it.sel, s)
	}
}

// listAPI uses the calls of the list state that no key is bound to.
func (w *widRun) listAPI(it *wItem) {
	r := newRng(it.Seed, uint64(w.epoch), 9)
	if it.Hold == 0 || !r.p(4) {
		return
	}
	switch r.n(3) {
	case 0:
		n := r.n(pick(r, 40, 40, 400))
		if r.p(10) {
			n = -1 - r.n(5)
		}
		it.list.Select(n)
		it.sel = []int{max(0, n)}
	case 1:
		it.list.Unselect()
		it.sel = nil
	case 2:
		it.list.SetOffset(pick(r, 0, 1, 5, 100, -1, -1000))
		it.view = listView{}
	}
}

// ---- rendering ----

func (it *wItem) area(t bento.Rect) bento.Rect {
	if it.Abs {
		return bento.NewRect(it.W, it.H).Positioned(t.X+it.X, t.Y+it.Y)
	}
	x, y := t.Width*it.X/1000, t.Height*it.Y/1000
	return bento.NewRect(min(t.Width*it.W/1000, t.Width-x), min(t.Height*it.H/1000, t.Height-y)).Positioned(t.X+x, t.Y+y)
}

// render draws all widgets and checks each.
func (w *widRun) render(area bento.Rect, buf *bento.Buffer) {
	bg := newRng(uint64(w.epoch), 0xb6)
	for y := area.Top(); y < area.Bottom() && w.prop() == "P17"; y++ {
		for x := area.Left(); x < area.Right(); x++ {
			c := buf.CellAt(bento.NewPosition(x, y))
			c.SetSymbol(string(rune('!' + (x*7+y*3+w.epoch)%90)))
			if bg.p(20) {
				c.SetFg(colors[1+(x+y)%3])
				c.Modifier = attrs[(x+y)%len(attrs)].m
			}
		}
	}
	for _, it := range w.items {
		w.renderOne(it, it.area(area), buf)
	}
}

func (w *widRun) renderOne(it *wItem, area bento.Rect, buf *bento.Buffer) {
	rc := w.a.rc
	ep := uint64(0)
	if it.Hold > 0 {
		ep = uint64(w.epoch / it.Hold)
	}
	if p := w.prop(); p == "P30" || p == "P31" || p == "P32" { // widgets may overlap
		clearwidget.New().Render(area, buf)
	}
	before := capture(buf.Area(), buf)
	name, after := "", func() {}
	w.guard(w.drawProp(), "rendering", func() {
		name, after = w.draw(it, newRng(it.Seed, ep, 1), area, buf)
	})
	if area != it.last.area {
		rc.probe("area_changed")
		it.last.area = area
	}
	ba := buf.Area()
	i := 0
	for y := ba.Top(); y < ba.Bottom(); y++ {
		for x := ba.Left(); x < ba.Right(); x++ {
			old := before.cells[i]
			i++
			p := bento.NewPosition(x, y)
			c := *buf.CellAt(p)
			if c == old {
				continue
			}
			if !area.Contains(p) {
				rc.bad("P17", "outside", "rendering %s into %v changes the cell (%d,%d) from %v to %v", name, area, x, y, old, c)
				return
			}
			if uniseg.StringWidth(c.Symbol) > 1 && x+uniseg.StringWidth(c.Symbol) > area.Right() && c.Symbol != old.Symbol {
				rc.bad("P17", "overlap", "rendering %s into %v puts %q into its last column: it covers the cell to the right", name, area, c.Symbol)
				return
			}
		}
	}
	rc.probe("widget_" + it.T)
	if w.prop() == "P17" && !area.IsEmpty() {
		rc.probe("checked")
	}
	after()
}

// ---- random content ----

var wtexts = []string{"", "a", "hello world", "one two  three   four", "世界", "a世b界c", "e\u0301e\u0301", "\u0301x", "tab\tin", "two\nlines", "\n", "\r\n", "\u200b", "x\u200by", "🙂🙂", "👨\u200d👩\u200d👧", "🇩🇪🇫🇷", "\xff\xfe",
	"supercalifragilisticexpialidocious", "   lead", "trail   ", "世界世界世界世界世界世界", "line one\nline two is longer\n\nline four", "nb\u00a0sp", "\x1b[31mred", strings.Repeat("lorem ipsum ", 12)}

func rtext(r *rng) string {
	if r.p(15) {
		return pick(r, wtexts...) + pick(r, wtexts...)
	}
	return pick(r, wtexts...)
}

func rstyle(r *rng) bento.Style {
	st := bento.NewStyle()
	if r.p(60) {
		return st
	}
	if r.p(50) {
		st = st.WithForeground(pick(r, colors...))
	}
	if r.p(40) {
		st = st.WithBackground(pick(r, colors...))
	}
	if r.p(50) {
		st = st.WithModifier(attrs[r.n(len(attrs))].m)
	}
	return st
}

func ralign(r *rng) bento.Alignment { return bento.Alignment(r.n(4)) }

func rspan(r *rng) textwidget.Span { return textwidget.NewSpan(rtext(r)).WithStyle(rstyle(r)) }

func rline(r *rng) textwidget.Line {
	var sp []textwidget.Span
	for n := pick(r, 0, 1, 1, 2, 3); n > 0; n-- {
		sp = append(sp, rspan(r))
	}
	if r.p(30) {
		return alignLine(textwidget.NewLineStr(rtext(r)), ralign(r), r.p(30))
	}
	return textwidget.NewLine(sp...).WithStyle(rstyle(r)).WithAlignment(ralign(r))
}

func rlines(r *rng, n int) []textwidget.Line {
	var ls []textwidget.Line
	for ; n > 0; n-- {
		ls = append(ls, rline(r))
	}
	return ls
}

func rwtext(r *rng) textwidget.Text {
	if r.p(30) {
		return alignText(textwidget.NewTextStr(rtext(r)), ralign(r), r.p(30)).WithStyle(rstyle(r))
	}
	return textwidget.NewText(rlines(r, r.n(5))...).WithStyle(rstyle(r)).WithAlignment(ralign(r))
}

// alignTitle aligns a title, in one of the ways there are.
func alignTitle(t blockwidget.Title, al bento.Alignment, short bool) blockwidget.Title {
	switch {
	case short && al == bento.AlignmentLeft:
		return t.Left()
	case short && al == bento.AlignmentCenter:
		return t.Center()
	case short && al == bento.AlignmentRight:
		return t.Right()
	}
	return t.WithAlignment(al)
}

func placeTitle(t blockwidget.Title, pos int, short bool) blockwidget.Title {
	switch p := blockwidget.TitlePosition(pos); {
	case short && p == blockwidget.TitlePositionTop:
		return t.Top()
	case short && p == blockwidget.TitlePositionBottom:
		return t.Bottom()
	default:
		return t.WithPosition(p)
	}
}

func alignLine(l textwidget.Line, al bento.Alignment, short bool) textwidget.Line {
	switch {
	case short && al == bento.AlignmentLeft:
		return l.Left()
	case short && al == bento.AlignmentCenter:
		return l.Center()
	case short && al == bento.AlignmentRight:
		return l.Right()
	}
	return l.WithAlignment(al)
}

func alignText(t textwidget.Text, al bento.Alignment, short bool) textwidget.Text {
	switch {
	case short && al == bento.AlignmentLeft:
		return t.Left()
	case short && al == bento.AlignmentCenter:
		return t.Center()
	case short && al == bento.AlignmentRight:
		return t.Right()
	}
	return t.WithAlignment(al)
}

// placeInput puts the text of a field where it is wanted.
func placeInput(in inputwidget.Input, al bento.Alignment, v bento.Flex, short bool) inputwidget.Input {
	switch {
	case short && al == bento.AlignmentLeft:
		in = in.Left()
	case short && al == bento.AlignmentCenter:
		in = in.Center()
	case short && al == bento.AlignmentRight:
		in = in.Right()
	default:
		in = in.WithAlignment(al)
	}
	switch {
	case short && v == bento.FlexStart:
		return in.Top()
	case short && v == bento.FlexCenter:
		return in.Middle()
	case short && v == bento.FlexEnd:
		return in.Bottom()
	}
	return in.WithVertical(v)
}

func rblock(r *rng) blockwidget.Block {
	b := blockwidget.New().WithBorderType(blockwidget.BorderType(r.n(4))).WithStyle(rstyle(r)).WithBorderStyle(rstyle(r)).WithTitlesStyle(rstyle(r))
	if r.p(70) {
		b = b.Bordered()
	} else if r.p(50) {
		b = b.WithBorderSides(blockwidget.Side(r.n(16)))
	}
	for n := pick(r, 0, 0, 1, 1, 2, 4); n > 0; n-- {
		t := alignTitle(blockwidget.NewTitle(rline(r)), ralign(r), r.p(30))
		if r.p(40) {
			t = placeTitle(t, r.n(2), r.p(30))
		}
		b = b.WithTitle(t)
	}
	if r.p(20) {
		b = b.WithTitlePosition(blockwidget.TitlePosition(r.n(2)))
	}
	if r.p(20) {
		b = b.WithTitlesAlignment(ralign(r))
	}
	if r.p(25) {
		b = b.WithPadding(padding(r.n(4), r.n(4), r.n(4), r.n(4)))
	}
	return b
}

// oblock is a block or none.
func (w *widRun) oblock(r *rng) *blockwidget.Block {
	if r.p(60) {
		return nil
	}
	if w.prop() != "P17" { // nothing that could be taken for content
		b := blockwidget.New().Bordered()
		if r.p(30) {
			b = b.WithTitleStr("Title")
		}
		if r.p(20) {
			b = b.WithPadding(bento.NewPadding(r.n(2)))
		}
		return &b
	}
	b := rblock(r)
	return &b
}

// draw renders a widget; the function it returns makes further checks.
func (w *widRun) draw(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer) (string, func()) {
	nothing := func() {}
	switch w.prop() {
	case "P30":
		return w.drawText(it, r, area, buf)
	case "P31":
		return w.drawStyled(it, r, area, buf)
	case "P32":
		return w.drawIndicator(it, r, area, buf)
	}
	switch it.T {
	case "span":
		s := rspan(r)
		s.Render(area, buf)
		return fmt.Sprintf("the span %+v", s), nothing
	case "line":
		l := rline(r)
		l.Render(area, buf)
		return fmt.Sprintf("the line %+v", l), nothing
	case "text":
		t := rwtext(r)
		t.Render(area, buf)
		return fmt.Sprintf("the text %+v", t), nothing
	case "paragraph":
		p := paragraphwidget.New(rwtext(r)).WithStyle(rstyle(r))
		p.Alignment = ralign(r)
		p.Block = w.oblock(r)
		if r.p(50) {
			p = p.WithWrap(paragraphwidget.NewWrap().WithTrim(r.p(50)))
		}
		if r.p(40) {
			p = p.WithScroll(r.n(6), r.n(12))
		}
		p.Render(area, buf)
		return fmt.Sprintf("the paragraph %+v", p), nothing
	case "block":
		b := rblock(r)
		b.Render(area, buf)
		in := b.Inner(area)
		return fmt.Sprintf("the block %+v", b), func() { w.inner("block", area, in) }
	case "clear":
		clearwidget.New().Render(area, buf)
		return "a clear widget", nothing
	case "fill":
		f := fillwidget.New(pick(r, "x", "╲", " ", "世", "e\u0301", "")).WithStyle(rstyle(r))
		f.Render(area, buf)
		return fmt.Sprintf("the fill widget %+v", f), nothing
	case "gauge":
		g := gaugewidget.New().WithUnicode(r.p(50)).WithStyle(rstyle(r)).WithGaugeStyle(rstyle(r))
		if r.p(50) {
			g = g.WithPercent(pick(r, 0, 100, 99, r.n(101)))
		} else {
			g = g.WithRatio(pick(r, 0, 1, 0.999999, 0.5, float64(r.n(1000001))/1e6))
		}
		if r.p(40) {
			g = g.WithLabel(rspan(r))
		}
		g.Render(area, buf)
		return fmt.Sprintf("the gauge %+v", g), nothing
	case "popup":
		p := popupwidget.New().WithStyle(rstyle(r)).WithWidth(cons(genCons(r, 0, 1, 20))[0]).WithHeight(cons(genCons(r, 0, 1, 8))[0])
		p.Horizontal, p.Vertical = bento.Flex(r.n(6)), bento.Flex(r.n(6))
		if r.p(20) {
			p = p.WithPadding(padding(r.n(4), r.n(4), r.n(4), r.n(4)))
		}
		p.Block = w.oblock(r)
		p.Render(area, buf)
		in := p.Inner(area)
		rwtext(r).Render(in, buf)
		return fmt.Sprintf("the popup %+v", p), func() { w.inner("popup", area, in) }
	case "scroll":
		s := scrollwidget.New(scrollwidget.Orientation(r.n(4)))
		if w.keys == 0 || r.p(30) {
			it.scroll = scrollwidget.NewState(pick(r, 0, 1, 2, 10, 1000, r.n(100), r.n(100), r.n(100), -1, 1<<40))
		}
		if r.p(50) {
			it.scroll.SetViewportContentLen(pick(r, r.n(20), r.n(20), r.n(20), -1, 1<<40))
		}
		if r.p(30) {
			it.scroll.SetPosition(pick(r, 0, 1, 5, 99, 5000, -1, -5000, 1<<40))
		}
		if r.p(10) {
			it.scroll.Last()
		}
		s.RenderStateful(area, buf, it.scroll)
		in := s.Inner(area)
		return fmt.Sprintf("a scroll bar with state %+v", it.scroll), func() { w.inner("scroll bar", area, in) }
	case "tabs":
		t := tabswidget.New(rlines(r, r.n(6))...).WithStyle(rstyle(r)).WithHighlightStyle(rstyle(r))
		if r.p(70) {
			t = t.Select(r.n(8))
		}
		if r.p(30) {
			t = t.WithPaddingLeft(rline(r)).WithPaddingRight(rline(r))
		}
		if r.p(30) {
			t = t.WithDivider(rspan(r))
		}
		if b := w.oblock(r); b != nil {
			t = t.WithBlock(*b)
		}
		t.Render(area, buf)
		return fmt.Sprintf("the tabs %+v", t), nothing
	case "throbber":
		return w.drawThrobber(it, r, area, buf)
	case "input":
		return w.drawInput(it, r, area, buf)
	case "list":
		return w.drawList(it, r, area, buf)
	}
	harnessError("no widget " + it.T)
	return "", nothing
}

// inner checks the area a widget leaves for content.
func (w *widRun) inner(what string, area, in bento.Rect) {
	if in.Width < 0 || in.Height < 0 {
		w.a.rc.bad("P17", "inner-negative", "the %s drawn into %v leaves %v for its content", what, area, in)
	}
	if !in.IsEmpty() && (in.X < area.X || in.Y < area.Y || in.Right() > area.Right() || in.Bottom() > area.Bottom()) {
		w.a.rc.bad("P17", "inner-outside", "the %s drawn into %v leaves %v for its content, which is not inside", what, area, in)
	}
}

var throbFrames = map[throbberwidget.Type][]string{
	throbberwidget.TypeLine:          {"|", "/", "-", `\`},
	throbberwidget.TypeBrailleEight:  {"⣷", "⣯", "⣟", "⡿", "⢿", "⣻", "⣽", "⣾"},
	throbberwidget.TypeVerticalBlock: {"▁", "▂", "▃", "▄", "▅", "▆", "▇", "█"},
	throbberwidget.TypePulse:         {"█", "▓", "▒", "░"},
}

func (w *widRun) drawThrobber(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer) (string, func()) {
	ty := throbberwidget.Type(r.n(9))
	throbberwidget.New().WithType(ty).RenderStateful(area, buf, *it.throb)
	return fmt.Sprintf("the throbber %v in frame %d", ty, it.steps), func() {
		want := throbFrames[ty]
		vis := area.Intersection(buf.Area())
		if want == nil || vis.IsEmpty() || vis != area {
			return
		}
		n := 0
		for y := vis.Top(); y < vis.Bottom(); y++ {
			for x := vis.Left(); x < vis.Right(); x++ {
				if buf.CellAt(bento.NewPosition(x, y)).Symbol == want[it.steps%len(want)] {
					n++
				}
			}
		}
		if n == 0 {
			w.a.rc.bad("P20", "frame", "throbber %d has made %d steps, but the frame shown is not %q", it.i, it.steps, want[it.steps%len(want)])
		}
		w.a.rc.probe("frame_shown")
	}
}

func (w *widRun) drawInput(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer) (string, func()) {
	al, vert := ralign(r), bento.Flex(r.n(6))
	in := placeInput(inputwidget.New(), al, vert, r.p(30))
	prompt := ""
	if r.p(50) {
		prompt = pick(r, "> ", "世 ", ">", "a long prompt: ")
		in = in.WithPrompt(prompt).WithPromptStyle(bento.NewStyle().Bold())
	}
	ph := ""
	if r.p(40) {
		ph = pick(r, "Placeholder...", "世界", "x")
		in = in.WithPlaceholder(ph)
	}
	b := w.oblock(r)
	row := area
	if b != nil {
		in = in.WithBlock(*b)
		row = b.Inner(area)
	}
	showCursor := !newRng(it.Seed, 5).p(10)
	in.RenderStateful(area, buf, &it.input)
	return fmt.Sprintf("the input %+v with the text %q", in, trunc2(it.input.String())), func() {
		if w.prop() != "P18" || !showCursor || area.Intersection(buf.Area()) != area || row.IsEmpty() || it.input.String() != it.ed.text {
			return
		}
		w.checkField(it, prompt, ph, row, buf, al, vert)
	}
}

// checkField checks what an input field shows: row is the area of the field.
func (w *widRun) checkField(it *wItem, prompt, ph string, row bento.Rect, buf *bento.Buffer, al bento.Alignment, vert bento.Flex) {
	rc := w.a.rc
	e := &it.ed
	bs := e.bounds()
	var chars []string
	cur := 0
	for i := 0; i+1 < len(bs); i++ {
		if bs[i] < e.at {
			cur++
		}
		chars = append(chars, e.text[bs[i]:bs[i+1]])
	}
	at := " "
	if cur < len(chars) {
		at = chars[cur]
	}
	if len(chars) == 0 && ph != "" {
		g := uniseg.NewGraphemes(ph)
		g.Next()
		at = g.Str()
	}
	cw := uniseg.StringWidth(at)
	if cw == 0 || row.Width-uniseg.StringWidth(prompt) < cw || uniseg.StringWidth(prompt) > 0 && row.Width-uniseg.StringWidth(prompt) < 1 {
		return // no room, or nothing to be seen
	}
	rc.probe("checked")
	rc.probe("cursor_checked")
	// the cursor is what is shown reversed
	type pos struct{ x, y int }
	var found []pos
	for y := row.Top(); y < row.Bottom(); y++ {
		skip := 0
		for x := row.Left(); x < row.Right(); x++ {
			c := buf.CellAt(bento.NewPosition(x, y))
			if skip > 0 {
				skip--
				continue
			}
			skip = max(0, uniseg.StringWidth(c.Symbol)-1)
			if c.Modifier&bento.ModifierReversed != 0 {
				found = append(found, pos{x, y})
			}
		}
	}
	where := fmt.Sprintf("the text %q with the cursor before character %d, drawn into %v with prompt %q", trunc2(e.text), cur, row, prompt)
	if len(found) != 1 {
		rc.bad("P18", "cursor", "%s: the cursor is shown %d times", where, len(found))
		return
	}
	p := found[0]
	if above, below := p.y-row.Top(), row.Bottom()-1-p.y; vert == bento.FlexStart && above > 0 || vert == bento.FlexEnd && below > 0 || vert == bento.FlexCenter && above-below != 0 && above-below != 1 && above-below != -1 {
		rc.bad("P18", "row", "%s, %v: it is shown in row %d", where, vert, p.y)
		return
	}
	var left, right string
	skip := 0
	for x := row.Left(); x < row.Right(); x++ {
		c := buf.CellAt(bento.NewPosition(x, p.y))
		if skip > 0 {
			skip--
			continue
		}
		skip = max(0, uniseg.StringWidth(c.Symbol)-1)
		switch {
		case x < p.x:
			left += c.Symbol
		case x > p.x:
			right += c.Symbol
		default:
			if visible(c.Symbol) != visible(at) {
				rc.bad("P18", "cursor-char", "%s: the cursor is on %q, not %q", where, c.Symbol, at)
				return
			}
		}
	}
	left, right = visible(left), visible(right)
	plain := e.text != "" && (prompt != "" || e.text[0] != ' ') && !slices.ContainsFunc(chars, func(s string) bool { return uniseg.StringWidth(s) == 0 })
	if all := uniseg.StringWidth(prompt) + uniseg.StringWidth(e.text) + 1; plain && all <= row.Width && strings.TrimLeft(left, " ") == strings.TrimLeft(visible(prompt+e.text[:e.at]), " ") {
		if cur < len(chars) {
			all--
		}
		before := p.x - row.Left() - uniseg.StringWidth(prompt) - uniseg.StringWidth(e.text[:e.at])
		after := row.Width - all - before
		if (al == bento.AlignmentLeft || al == bento.AlignmentNone) && before != 0 || al == bento.AlignmentRight && after != 0 || al == bento.AlignmentCenter && before-after != 0 && before-after != 1 && before-after != -1 {
			rc.bad("P18", "column", "%s, %v: there are %d columns before it and %d after it", where, al, before, after)
			return
		}
		rc.probe("place_checked")
	}
	if len(chars) == 0 {
		return
	}
	ok := false
	for k := cur; k >= 0 && !ok; k-- {
		s := visible(prompt + strings.Join(chars[k:cur], ""))
		ok = strings.HasSuffix(left, s) && strings.Trim(left[:len(left)-len(s)], " ") == ""
	}
	if !ok {
		rc.bad("P18", "left", "%s: left of the cursor %q is shown", where, left)
		return
	}
	ok = false
	rest := ""
	if cur < len(chars) {
		rest = strings.Join(chars[cur+1:], "")
	}
	rest = visible(rest)
	// all of the rest, or as much of it as fits
	for cut := range rest + "x" {
		if cut == len(rest) || rest[cut]&0xc0 != 0x80 {
			if strings.HasPrefix(right, rest[:cut]) && strings.Trim(right[cut:], " ") == "" {
				ok = true
			}
		}
	}
	if !ok {
		rc.bad("P18", "right", "%s: right of the cursor %q is shown", where, right)
	}
}

// visible drops what takes no place on the screen.
func visible(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsControl(r) || unicode.Is(unicode.Mn, r) || r == '\u200b' || r == '\u200d' || r == '\ufe0f' {
			return -1
		}
		return r
	}, s)
}

func (w *widRun) drawList(it *wItem, r *rng, area bento.Rect, buf *bento.Buffer) (string, func()) {
	plain := w.prop() == "P19"
	n := pick(r, 0, 1, 2, 3, 5, 9, r.n(26))
	if r.p(3) {
		n = pick(r, 30, 100, 300)
	}
	var items []textwidget.Text
	var heights []int
	one := r.p(40)
	for i := 0; i < n; i++ {
		if !plain {
			items = append(items, rwtext(r))
			continue
		}
		h := 1
		if !one {
			h = r.in(1, 4)
			if r.p(5) {
				h = r.in(5, 10)
			}
		}
		heights = append(heights, h)
		var ls []textwidget.Line
		for j := 0; j < h; j++ {
			ls = append(ls, textwidget.NewLineStr(itemName(i)+string(rune('0'+j))))
		}
		items = append(items, textwidget.NewText(ls...).WithStyle(pick(r, bento.NewStyle(), bento.NewStyle().Bold())))
	}
	sym := pick(r, "", "> ", ">", "世", ">>> ")
	rep := r.p(30)
	spacing := listwidget.HighlightSpacing(r.n(3))
	up := r.p(30)
	spad := pick(r, 0, 0, 1, 2, 5)
	l := listwidget.New(items...).WithHighlightSymbol(sym).WithRepeatHighlightSymbol(rep).WithHighlightSpacing(spacing).
		WithHighlightStyle(bento.NewStyle().CrossedOut()).WithScrollPadding(spad)
	if up {
		l = l.WithDirection(listwidget.DirectionBottomToTop)
	}
	if !plain {
		l = l.WithStyle(rstyle(r)).WithHighlightStyle(rstyle(r)).WithHighlightSymbol(pick(r, sym, rtext(r)))
	}
	b := w.oblock(r)
	in := area
	if b != nil {
		l = l.WithBlock(*b)
		in = b.Inner(area)
	}
	l.RenderStateful(area, buf, &it.list)
	room := !in.IsEmpty() && area.Intersection(buf.Area()) == area
	return fmt.Sprintf("a list of %d items", n), func() {
		it.drawnList(n, room)
		before := it.view
		it.view = listView{}
		if !plain || n == 0 {
			return
		}
		w.checkList(it, in, buf, n, heights, sym, rep, spacing, up, room, spad, before)
	}
}

func (w *widRun) checkList(it *wItem, in bento.Rect, buf *bento.Buffer, n int, heights []int, sym string, rep bool, spacing listwidget.HighlightSpacing, up, room bool, spad int, before listView) {
	rc := w.a.rc
	got, ok := it.list.Selected(n - 1)
	if ok != (len(it.sel) > 0) {
		rc.bad("P19", "selected", "of %d items %v is selected, it should be one of %v", n, ok, it.sel)
		return
	}
	var fit []int
	for _, s := range it.sel {
		if min(s, n-1) == got {
			fit = append(fit, s)
		}
	}
	if ok && len(fit) == 0 {
		rc.bad("P19", "selected", "item %d of %d is selected, it should be one of %v", got, n, it.sel)
		return
	}
	it.sel = fit
	if ok {
		rc.probe("checked")
	}
	if !room {
		return
	}
	pad := 0
	if spacing == listwidget.HighlightSpacingAlways || spacing == listwidget.HighlightSpacingWhenSelected && ok {
		pad = uniseg.StringWidth(sym)
	}
	if in.Width < pad+2 || ok && heights[got] > in.Height {
		return
	}
	where := fmt.Sprintf("a list of items with heights %v in %v, item %d selected", heights, in, got)
	if !ok {
		where = fmt.Sprintf("a list of items with heights %v in %v, nothing selected", heights, in)
	}
	rc.probe("list_checked")
	// the rows, in the order of the items
	type line struct {
		item, line int
		hl         bool
		y          int
		sym        string
	}
	var lines []line
	for y := in.Top(); y < in.Bottom(); y++ {
		var s, lead string
		hl := 0
		for x := in.Left(); x < in.Right(); x++ {
			c := buf.CellAt(bento.NewPosition(x, y))
			if c.Modifier&bento.ModifierCrossedOut != 0 {
				hl++
			}
			if x < in.Left()+pad {
				lead += c.Symbol
			} else if x < in.Left()+pad+2 {
				s += c.Symbol
			}
		}
		if q := []rune(s); len(q) == 2 && itemNo(q[0]) >= 0 && itemNo(q[0]) < n && q[1] >= '0' && q[1] <= '9' {
			lines = append(lines, line{itemNo(q[0]), int(q[1] - '0'), hl >= in.Width, y, lead})
		}
	}
	if !ok && len(lines) == 0 {
		return
	}
	// group the lines into items
	last, lastLine := -1, 0
	seen := map[int]int{}
	for i, l := range lines {
		if i > 0 && l.y != lines[i-1].y+1 {
			rc.bad("P19", "gap", "%s: there is a gap between the items", where)
			return
		}
		if l.item != last {
			if last >= 0 {
				if lastLine != heights[last]-1 {
					rc.bad("P19", "clipped", "%s: item %d is shown up to line %d only", where, last, lastLine)
					return
				}
				d := 1
				if up {
					d = -1
				}
				if l.item != last+d {
					rc.bad("P19", "order", "%s: item %d is shown after item %d", where, l.item, last)
					return
				}
			}
			if l.line != 0 {
				rc.bad("P19", "clipped", "%s: item %d is shown from line %d on", where, l.item, l.line)
				return
			}
		} else if l.line != lastLine+1 {
			rc.bad("P19", "clipped", "%s: line %d of item %d follows line %d", where, l.line, l.item, lastLine)
			return
		}
		last, lastLine = l.item, l.line
		seen[l.item]++
		if l.hl != (ok && l.item == got) {
			rc.bad("P19", "highlight", "%s: item %d is highlighted: %v", where, l.item, l.hl)
			return
		}
		wantSym := strings.Repeat(" ", pad)
		if ok && l.item == got && (l.line == 0 || rep) && pad > 0 {
			wantSym = sym
		}
		if pad > 0 && strings.TrimRight(l.sym, " ") != strings.TrimRight(wantSym, " ") {
			rc.bad("P19", "symbol", "%s: line %d of item %d has the symbol %q", where, l.line, l.item, l.sym)
			return
		}
	}
	if last >= 0 && lastLine != heights[last]-1 {
		rc.bad("P19", "clipped", "%s: item %d is shown up to line %d only", where, last, lastLine)
		return
	}
	if ok && seen[got] == 0 {
		rc.bad("P19", "hidden", "%s: it is not shown", where)
		return
	}
	// neighbours are kept in view, and the view does not move without need
	if !ok {
		return
	}
	from, to := max(0, got-spad), min(n-1, got+spad)
	uniform := !slices.ContainsFunc(heights, func(h int) bool { return h != heights[0] })
	if !uniform || (to-from+1)*heights[0] > in.Height {
		return
	}
	for i := from; i <= to; i++ {
		if seen[i] == 0 {
			rc.bad("P19", "padding", "%s, %d items to be kept in view around it: item %d is not shown", where, spad, i)
			return
		}
	}
	if spad > 0 {
		rc.probe("list_padding_checked")
	}
	first := n
	for i := range seen {
		first = min(first, i)
	}
	now := listView{true, fmt.Sprint(n, heights[0], in.Height/heights[0]), first, first + len(seen)}
	if before.ok && before.key == now.key && from >= before.first && to < before.last {
		rc.probe("list_steady_checked")
		if now.first != before.first {
			rc.bad("P19", "jump", "%s, %d items to be kept in view around it: the view began at item %d and ended at item %d; now it begins at item %d", where, spad, before.first, before.last-1, now.first)
			return
		}
	}
	it.view = now
}

// itemName is a character of its own for each item of a list.
func itemName(i int) string {
	if i < 26 {
		return string(rune('A' + i))
	}
	return string(rune(0x100 + i - 26))
}

func itemNo(c rune) int {
	switch {
	case c >= 0x100 && c < 0x250:
		return int(c) - 0x100 + 26
	case c >= 'A' && c <= 'Z':
		return int(c - 'A')
	}
	return -1
}

// listView is the part of a list that was in view.
type listView struct {
	ok          bool
	key         string
	first, last int
}

// ---- generation ----

func genWid(prop string, r *rng) *AppSc {
	s := &AppSc{W: r.in(1, 30), H: r.in(1, 9), K: KernelCfg{StdinTTY: r.p(80)}, Term: "xterm-256color", End: "quit", Graceful: r.p(50)}
	if r.p(50) {
		s.W, s.H = r.in(8, 40), r.in(3, 12)
	}
	if r.p(4) && prop != "P20" {
		s.W, s.H = pick(r, 0, 1, 80), pick(r, 0, 1, 24)
	}
	if r.p(2) {
		s.W, s.H = wideOrTall(r)
	}
	slow := r.n(10)
	if slow >= 6 {
		s.Upd, s.Draw = pick(r, 0, 10, 1000, 30000), pick(r, 0, 10, 1000, 20000)
		s.SlowPct = pick(r, 0, 20, 50)
		s.K.WriteDelay = pick(r, 0, 0, 5, 300)
	}
	if r.p(30) {
		s.K.ShortWrites = pick(r, 10, 60)
	}
	if r.p(40) {
		s.K.ShortReads = pick(r, 30, 90)
	}
	if r.p(20) {
		s.K.EINTR = pick(r, 5, 30)
	}
	s.K.SigDelay = r.p(50)
	w := &WidSc{}
	s.Wid = w
	place := func(it *WItem) {
		switch r.n(5) {
		case 0, 1: // everything
			it.W, it.H = 1000, 1000
		case 2:
			it.X, it.Y, it.W, it.H = r.n(1000), r.n(1000), r.in(0, 1000), r.in(0, 1000)
		case 3:
			it.X, it.Y, it.W, it.H = r.n(400), r.n(400), r.in(300, 1000), r.in(300, 1000)
		case 4:
			it.Abs = true
			it.X, it.Y, it.W, it.H = r.n(8), r.n(4), r.in(0, 30), r.in(0, 9)
		}
	}
	kinds := []string{"span", "line", "text", "paragraph", "paragraph", "block", "clear", "fill", "gauge", "popup", "scroll", "tabs", "throbber", "input", "input", "list", "list"}
	n, ops := 1, r.in(2, pick(r, 10, 40))
	switch prop {
	case "P17":
		n = r.in(1, 5)
	case "P20":
		n = pick(r, 1, 2, 3, 5)
		ops = r.in(0, 14)
	}
	for i := 0; i < n; i++ {
		it := WItem{Seed: r.next() >> 1}
		place(&it)
		switch prop {
		case "P17":
			it.T = pick(r, kinds...)
			it.Hold = pick(r, 1, 1, 2, 5)
		case "P18":
			it.T = "input"
			it.Hold = pick(r, 0, 0, 3)
		case "P19":
			it.T = "list"
			it.Hold = pick(r, 0, 0, 1, 3, 8)
		case "P30":
			it.T = pick(r, "paragraph", "paragraph", "paragraph", "text", "line", "span")
			it.Hold = pick(r, 0, 0, 1, 3, 8)
		case "P31":
			it.T = pick(r, "span", "line", "line", "text", "text", "paragraph", "paragraph", "list", "list", "tabs", "block", "fill", "clear", "popup", "gauge", "input", "input")
			it.Hold = pick(r, 0, 1, 1, 3)
		case "P32":
			it.T = pick(r, "gauge", "scroll", "scroll", "tabs", "block", "popup", "fill", "clear")
			it.Hold = pick(r, 0, 1, 1, 3, 8)
		case "P20":
			it.T = "throbber"
			it.Start = pick(r, 0, 1, 1, 1, 2, 3)
		}
		if it.T == "throbber" {
			it.FPS = pick(r, 111111, 50000, 50000, 500000, 1000000)
			if n == 1 {
				it.FPS = pick(r, 5000, 20000, 20000)
			}
		}
		w.W = append(w.W, it)
	}
	w.Settle = pick(r, 0, 50000, 500000)
	if prop == "P20" {
		w.Settle = pick(r, 200000, 200000, 2000000)
	}
	for i := 0; i < ops; i++ {
		op := Op{After: pick(r, 0, 0, 0, 1, 1000, 1000, 5000, 50000)}
		if prop == "P20" {
			op.After = pick(r, 0, 0, 1, 5000, 20000, 100000, 500000)
		}
		if r.p(12) {
			op.On = pick(r, "write", "update", "render", "read")
			op.N = r.in(1, pick(r, 3, 8, 30))
		}
		switch p := r.n(100); {
		case p < 14:
			op.Kind, op.W, op.H = "resize", r.in(0, 34), r.in(0, 11)
			if r.p(3) {
				op.W, op.H = wideOrTall(r)
			}
		case p < 16 && prop != "P18":
			op.Kind, op.Dur = "stall", pick(r, 1000, 100000, 1000000)
		case prop == "P20" && p < 20:
			op.Kind, op.In = "input", &Input{Kind: "seq", N: seqOf(bento.KeyUp)}
		case prop == "P20":
			op.Kind, op.In = "input", &Input{Kind: "text", S: string(rune('a' + r.n(n)))}
			if r.p(30) {
				op.In.S += op.In.S
			}
		default:
			op.Kind, op.In = "input", genKey(prop, r)
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

func seqOf(t bento.KeyType) int {
	for i, q := range keySeqs {
		if q.k.Type == t && !q.k.Alt {
			return i
		}
	}
	panic("no such key")
}

var typing = []string{"a", "b", "hello", "x y", " ", "  ", "word and more", "世", "世界 世", "e\u0301", "\u0301", "e", "é", "🙂", "\u200b", "q\u00a0q", "longer text than the field has room for ", "🇩🇪", "👍🏽", "👨\u200d👩\u200d👧", "\u200d"}

func genKey(prop string, r *rng) *Input {
	if (prop == "P30" || prop == "P31") && r.p(25) {
		return &Input{Kind: "seq", N: seqOf(pick(r, bento.KeyRight, bento.KeyRight, bento.KeyLeft))}
	}
	if prop == "P19" || prop == "P30" || prop == "P31" && r.p(50) || prop == "P32" || prop == "P17" && r.p(50) {
		switch r.n(10) {
		case 0, 1, 2:
			return &Input{Kind: "seq", N: seqOf(bento.KeyDown)}
		case 3, 4:
			return &Input{Kind: "seq", N: seqOf(bento.KeyUp)}
		case 5:
			return &Input{Kind: "ctrl", N: 4}
		case 6:
			return &Input{Kind: "ctrl", N: 21}
		default:
			return &Input{Kind: "text", S: pick(r, "j", "k", "g", "G", "j", "jj")}
		}
	}
	switch p := r.n(100); {
	case p < 40:
		return &Input{Kind: "text", S: pick(r, typing...)}
	case p < 48:
		in := &Input{Kind: "paste"}
		for j := r.in(0, 5); j > 0; j-- {
			in.S += pick(r, append(typing, "\n", "\t", "\r\n")...)
		}
		at := 5
		for j := r.n(4); j > 0; j-- {
			at += 1 + r.n(len(in.S)/2+4)
			in.Cuts = append(in.Cuts, at)
		}
		return in
	case p < 63:
		return &Input{Kind: "seq", N: seqOf(bento.KeyLeft)}
	case p < 71:
		return &Input{Kind: "seq", N: seqOf(bento.KeyRight)}
	case p < 75:
		return &Input{Kind: "ctrl", N: 1}
	case p < 79:
		return &Input{Kind: "ctrl", N: 5}
	case p < 84:
		return &Input{Kind: "ctrl", N: 23}
	case p < 88:
		return &Input{Kind: "ctrl", N: pick(r, 21, 15, 15, 2, 2, 6, 7, 9)}
	default:
		return &Input{Kind: "ctrl", N: 32} // backspace
	}
}
