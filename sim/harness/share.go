package main

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/metafates/bento"
	"github.com/metafates/bento/widget/blockwidget"
	"github.com/metafates/bento/widget/clearwidget"
	"github.com/metafates/bento/widget/fillwidget"
	"github.com/metafates/bento/widget/gaugewidget"
	"github.com/metafates/bento/widget/inputwidget"
	"github.com/metafates/bento/widget/listwidget"
	"github.com/metafates/bento/widget/paragraphwidget"
	"github.com/metafates/bento/widget/popupwidget"
	"github.com/metafates/bento/widget/scrollwidget"
	"github.com/metafates/bento/widget/tabswidget"
	"github.com/metafates/bento/widget/textwidget"
	"github.com/metafates/bento/widget/throbberwidget"
)

// ShareSc is a scenario in which several goroutines (commands that prepare
// what will be shown, and the one that draws) use the same texts, widgets and
// states: they draw them, derive others from them, and measure them.
type ShareSc struct {
	Pool  []ShareThing
	Tasks []ShareTask
}

// ShareThing is a value in the pool, possibly made of earlier ones.
type ShareThing struct {
	T    string
	Seed uint64
}

// ShareTask is what one goroutine does.
type ShareTask struct {
	After int
	Jobs  []ShareJob
}

// ShareJob uses one thing.
type ShareJob struct {
	Thing      int
	X, Y, W, H int
	Derive     uint64 // draw a value derived from the thing; 0: the thing itself
	Sibling    uint64 // derive another one as well, in between, and draw it elsewhere
	Onto       uint64 // what is in the buffer before; 0: nothing
}

var shareKinds = []string{"span", "line", "line", "text", "text", "block", "block", "paragraph", "paragraph", "list", "list", "tabs", "popup", "gauge", "fill", "clear", "input", "scroll", "throbber"}

func genShare(r *rng) *ShareSc {
	s := &ShareSc{}
	for n := r.in(2, 8); n > 0; n-- {
		s.Pool = append(s.Pool, ShareThing{pick(r, shareKinds...), r.next()>>40 + 1})
	}
	nt := pick(r, 1, 2, 2, 3, 4)
	fav := r.n(len(s.Pool))
	some := []uint64{r.next()>>40 + 1, r.next()>>40 + 1, r.next()>>40 + 1}
	for i := 0; i < nt; i++ {
		t := ShareTask{After: pick(r, 0, 0, 1)}
		for k := r.in(1, 5); k > 0; k-- {
			j := ShareJob{Thing: r.n(len(s.Pool)), X: pick(r, 0, 0, r.n(20)), Y: pick(r, 0, 0, r.n(20)), W: pick(r, 1, 10, 20, r.n(40)), H: pick(r, 1, 3, 5, r.n(12))}
			if r.p(60) {
				j.Thing = fav
			}
			if r.p(50) {
				j.Derive = pick(r, some...)
			}
			if r.p(30) {
				j.Sibling = pick(r, some...) + 1
			}
			if r.p(20) {
				j.Onto = pick(r, some...)
			}
			t.Jobs = append(t.Jobs, j)
		}
		s.Tasks = append(s.Tasks, t)
	}
	return s
}

func (s *ShareSc) valid() bool {
	for _, t := range s.Tasks {
		if t.After < 0 {
			return false
		}
		for _, j := range t.Jobs {
			if j.Thing < 0 || j.Thing >= len(s.Pool) || j.X < 0 || j.Y < 0 || j.W < 0 || j.H < 0 || j.X > 1000 || j.Y > 1000 || j.W > 200 || j.H > 100 {
				return false
			}
		}
	}
	for _, t := range s.Pool {
		ok := false
		for _, k := range shareKinds {
			ok = ok || k == t.T
		}
		if !ok {
			return false
		}
	}
	return true
}

// shareWorld holds the values of the pool.
type shareWorld struct{ vals []any }

func of[T any](w *shareWorld, r *rng, make func() T) T {
	var l []T
	for _, v := range w.vals {
		if x, ok := v.(T); ok {
			l = append(l, x)
		}
	}
	if len(l) > 0 && r.p(80) {
		return l[r.n(len(l))]
	}
	return make()
}

type (
	inputThing struct {
		w inputwidget.Input
		s inputwidget.State
	}
	listThing struct {
		w listwidget.List
		s listwidget.State
	}
	scrollThing struct {
		w scrollwidget.Scroll
		s scrollwidget.State
	}
	throbberThing struct {
		w throbberwidget.Throbber
		s throbberwidget.State
	}
)

// roomy makes a slice of the given length, with room for more.
func roomy[T any](r *rng, n int, f func() T) []T {
	l := make([]T, 0, n+r.n(3))
	for ; n > 0; n-- {
		l = append(l, f())
	}
	return l
}

func (w *shareWorld) span(r *rng) textwidget.Span {
	return of(w, r, func() textwidget.Span { return mkSpan(r, ptext(r)).Span })
}

func (w *shareWorld) line(r *rng) textwidget.Line {
	return of(w, r, func() textwidget.Line {
		l := textwidget.NewLine(roomy(r, r.n(4), func() textwidget.Span { return w.span(r) })...).WithStyle(rsty(r).st)
		if r.p(40) {
			l = l.WithAlignment(ralign(r))
		}
		return l
	})
}

func (w *shareWorld) text(r *rng) textwidget.Text {
	return of(w, r, func() textwidget.Text {
		if r.p(20) {
			return textwidget.NewTextStr(ptext(r) + "\n" + ptext(r)).WithStyle(rsty(r).st)
		}
		return textwidget.NewText(roomy(r, r.n(5), func() textwidget.Line { return w.line(r) })...).WithStyle(rsty(r).st).WithAlignment(ralign(r))
	})
}

func (w *shareWorld) block(r *rng) blockwidget.Block {
	return of(w, r, func() blockwidget.Block {
		b := blockwidget.New().WithBorderType(blockwidget.BorderType(r.n(4))).WithStyle(rsty(r).st).WithBorderStyle(rsty(r).st)
		if r.p(70) {
			b = b.Bordered()
		} else if r.p(50) {
			b = b.WithBorderSides(blockwidget.Side(1+r.n(7)), blockwidget.Side(8))
		}
		for n := pick(r, 0, 1, 1, 2, 3, 5); n > 0; n-- {
			b = b.WithTitle(blockwidget.NewTitle(w.line(r)).WithAlignment(ralign(r)).WithPosition(blockwidget.TitlePosition(r.n(2))))
		}
		if r.p(30) {
			b = b.WithPadding(bento.NewPadding(r.n(2), r.n(3)))
		}
		return b
	})
}

func skeys(r *rng, ks ...bento.Key) []bento.Key {
	var l []bento.Key
	for n := r.n(8); n > 0; n-- {
		l = append(l, pick(r, ks...))
	}
	return l
}

func runesKey(s string) bento.Key { return bento.Key{Type: bento.KeyRunes, Runes: []rune(s)} }

func feed(r *rng, s bento.TryUpdater) {
	switch s.(type) {
	case *inputwidget.State:
		for _, k := range skeys(r, runesKey(string(rune('a'+r.n(26)))), runesKey(string(rune('A'+r.n(26)))), runesKey("bc"), runesKey("世"), runesKey("e\u0301"), runesKey("x y"), bento.Key{Type: bento.KeySpace, Runes: []rune{' '}},
			bento.Key{Type: bento.KeyLeft}, bento.Key{Type: bento.KeyLeft}, bento.Key{Type: bento.KeyRight}, bento.Key{Type: bento.KeyBackspace}, bento.Key{Type: bento.KeyCtrlA}, bento.Key{Type: bento.KeyCtrlW}) {
			s.TryUpdate(bento.KeyMsg(k))
		}
	case *listwidget.State:
		for _, k := range skeys(r, runesKey("j"), runesKey("j"), runesKey("k"), runesKey("g"), runesKey("G"), bento.Key{Type: bento.KeyCtrlD}, bento.Key{Type: bento.KeyCtrlU}) {
			s.TryUpdate(bento.KeyMsg(k))
		}
	case *throbberwidget.State:
		for n := r.n(9); n > 0; n-- {
			s.TryUpdate(s.(*throbberwidget.State).Tick())
		}
	}
}

func (t ShareThing) build(w *shareWorld) any {
	r := newRng(t.Seed, 0x54a6e)
	oblock := func() *blockwidget.Block {
		if r.p(50) {
			return nil
		}
		b := w.block(r)
		return &b
	}
	switch t.T {
	case "span":
		return mkSpan(r, ptext(r)).Span
	case "line":
		return without[textwidget.Line](w).line(r)
	case "text":
		return without[textwidget.Text](w).text(r)
	case "block":
		return without[blockwidget.Block](w).block(r)
	case "paragraph":
		p := paragraphwidget.New(w.text(r)).WithStyle(rsty(r).st)
		p.Alignment = ralign(r)
		p.Block = oblock()
		if r.p(60) {
			p = p.WithWrap(paragraphwidget.NewWrap().WithTrim(r.p(50)))
		}
		if r.p(30) {
			p = p.WithScroll(r.n(4), r.n(8))
		}
		return p
	case "list":
		l := listwidget.New(roomy(r, r.n(6), func() textwidget.Text { return w.text(r) })...).WithStyle(rsty(r).st).WithHighlightStyle(rsty(r).st).
			WithHighlightSymbol(pick(r, "", "> ", "世")).WithRepeatHighlightSymbol(r.p(50)).WithScrollPadding(pick(r, 0, 0, 1, 2))
		if b := oblock(); b != nil {
			l = l.WithBlock(*b)
		}
		if r.p(30) {
			l = l.WithDirection(listwidget.DirectionBottomToTop)
		}
		if r.p(30) {
			l = l.WithHighlightSpacing(listwidget.HighlightSpacing(r.n(3)))
		}
		s := listwidget.NewState()
		feed(r, &s)
		return listThing{l, s}
	case "tabs":
		x := tabswidget.New(roomy(r, r.n(5), func() textwidget.Line { return w.line(r) })...).WithStyle(rsty(r).st).WithHighlightStyle(rsty(r).st)
		if r.p(30) {
			x = x.WithDivider(w.span(r))
		}
		if r.p(30) {
			x = x.WithPaddingLeft(w.line(r)).WithPaddingRight(w.line(r))
		}
		if r.p(60) {
			x = x.Select(r.n(5))
		}
		if b := oblock(); b != nil {
			x = x.WithBlock(*b)
		}
		return x
	case "popup":
		p := popupwidget.New().WithStyle(rsty(r).st).WithWidth(cons(genCons(r, 0, 1, 20))[0]).WithHeight(cons(genCons(r, 0, 1, 8))[0])
		p.Block = oblock()
		return p
	case "gauge":
		g := gaugewidget.New().WithUnicode(r.p(50)).WithStyle(rsty(r).st).WithGaugeStyle(rsty(r).st).WithPercent(r.n(101))
		if r.p(40) {
			g = g.WithLabel(w.span(r))
		}
		return g
	case "fill":
		return fillwidget.New(pick(r, "x", "╲", "世", "e\u0301")).WithStyle(rsty(r).st)
	case "input":
		x := inputwidget.New().WithPromptStyle(rsty(r).st).WithCursorStyle(rsty(r).st).WithPlaceholder(pick(r, "", "placeholder")).WithAlignment(ralign(r))
		if r.p(40) {
			x = x.WithPrompt(pick(r, "> ", "世 "))
		}
		if b := oblock(); b != nil {
			x = x.WithBlock(*b)
		}
		s := inputwidget.NewState()
		feed(r, &s)
		return inputThing{x, s}
	case "scroll":
		s := scrollwidget.NewState(r.n(50))
		s.SetPosition(r.n(50))
		return scrollThing{scrollwidget.New(scrollwidget.Orientation(r.n(4))), s}
	case "throbber":
		s := throbberwidget.NewState()
		feed(r, &s)
		return throbberThing{throbberwidget.New().WithType(throbberwidget.Type(r.n(9))), s}
	}
	return clearwidget.New()
}

func without[T any](w *shareWorld) *shareWorld {
	x := &shareWorld{}
	for _, v := range w.vals {
		if _, ok := v.(T); !ok {
			x.vals = append(x.vals, v)
		}
	}
	return x
}

func (s *ShareSc) world() *shareWorld {
	w := &shareWorld{}
	for _, t := range s.Pool {
		w.vals = append(w.vals, t.build(w))
	}
	return w
}

// derive makes another value of the same kind from v.
func (w *shareWorld) derive(v any, seed uint64) any {
	r := newRng(seed, 0xde61)
	switch v := v.(type) {
	case textwidget.Span:
		if r.p(50) {
			return v.WithStylePatch(rsty(r).st)
		}
		return v.WithStyle(rsty(r).st)
	case textwidget.Line:
		for n := r.in(1, 2); n > 0; n-- {
			switch r.n(4) {
			case 0:
				v = v.WithSpans(w.span(r), w.span(r))
			case 1:
				v = v.WithSpansStr(ptext(r), ptext(r))
			case 2:
				v = v.WithSpans(w.span(r))
			case 3:
				v = v.WithStyle(rsty(r).st).WithAlignment(ralign(r))
			}
		}
		return v
	case textwidget.Text:
		for n := r.in(1, 2); n > 0; n-- {
			switch r.n(5) {
			case 4:
				textwidget.AppendTextSpans(&v, w.span(r))
			case 0:
				v = v.WithLines(w.line(r), w.line(r))
			case 1:
				v = v.WithLinesStr(ptext(r), ptext(r))
			case 2:
				v = v.WithLines(w.line(r))
			case 3:
				v = v.WithStyle(rsty(r).st).WithAlignment(ralign(r))
			}
		}
		return v
	case blockwidget.Block:
		for n := r.in(1, 3); n > 0; n-- {
			switch r.n(5) {
			case 0, 1:
				v = v.WithTitle(blockwidget.NewTitle(w.line(r)).WithAlignment(ralign(r)))
			case 2:
				v = v.WithTitleStr(ptext(r)).WithTitlesStyle(rsty(r).st)
			case 3:
				v = v.WithBorderSides(blockwidget.Side(1 + r.n(15)))
			case 4:
				v = v.WithPadding(bento.NewPadding(r.n(3))).WithTitlePosition(blockwidget.TitlePosition(r.n(2))).Double()
			}
		}
		return v
	case paragraphwidget.Paragraph:
		switch r.n(4) {
		case 0:
			v = v.WithBlock(w.block(r))
		case 1:
			v = v.WithScroll(r.n(5), r.n(5)).Center()
		case 2:
			v = v.WithWrap(paragraphwidget.NewWrap().WithTrim(r.p(50))).Right()
		case 3:
			v = v.WithStyle(rsty(r).st).Wrapped()
		}
		return v
	case listThing:
		switch r.n(4) {
		case 0:
			v.w = v.w.WithItems(w.text(r), w.text(r))
		case 1:
			v.w = v.w.WithBlock(w.block(r))
		case 2:
			v.w = v.w.WithHighlightSymbol("»»").WithHighlightStyle(rsty(r).st).WithStyle(rsty(r).st)
		}
		feed(r, &v.s)
		return v
	case tabswidget.Tabs:
		switch r.n(4) {
		case 0:
			v = v.Select(r.n(5))
		case 1:
			v = v.WithTitles(w.line(r), w.line(r)).Select(1)
		case 2:
			v = v.WithDividerStr("·").WithPaddingLeftStr("").Unselect()
		case 3:
			v = v.WithBlock(w.block(r)).WithHighlightStyle(rsty(r).st)
		}
		return v
	case popupwidget.Popup:
		switch r.n(3) {
		case 0:
			v = v.WithBlock(w.block(r)).Top()
		case 1:
			v = v.WithPadding(bento.NewPadding(r.n(3))).Right()
		case 2:
			v = v.WithStyle(rsty(r).st).WithWidth(bento.ConstraintLen(r.n(20))).Bottom().Left()
		}
		return v
	case gaugewidget.Gauge:
		switch r.n(3) {
		case 0:
			v = v.WithLabel(w.span(r))
		case 1:
			v = v.WithPercent(r.n(101)).WithLabelStr(ptext(r))
		case 2:
			v = v.WithStyle(rsty(r).st).WithGaugeStyle(rsty(r).st).WithRatio(0.3)
		}
		return v
	case fillwidget.Fill:
		return v.WithStyle(rsty(r).st)
	case inputThing:
		switch r.n(4) {
		case 0:
			v.w = v.w.WithBlock(w.block(r)).Bottom()
		case 1:
			v.w = v.w.WithPrompt("$ ").WithPromptStyle(rsty(r).st).Center()
		case 2:
			v.w = v.w.WithPlaceholder("other").WithPlaceholderStyle(rsty(r).st)
		}
		feed(r, &v.s)
		return v
	case scrollThing:
		for n := r.n(5); n > 0; n-- {
			v.s.Scroll(scrollwidget.Direction(r.n(2)))
		}
		v.s.SetViewportContentLen(r.n(10))
		return v
	case throbberThing:
		if r.p(50) {
			v.w = v.w.WithType(throbberwidget.Type(r.n(9)))
		}
		feed(r, &v.s)
		return v
	}
	return v
}

// shareDraw draws v and tells everything there is to see of it.
func (w *shareWorld) draw(v any, area bento.Rect, onto uint64) (buf bento.Buffer, say string, panicked string) {
	buf = bento.NewBufferEmpty(area)
	if onto > 0 {
		r := newRng(onto, 0x0170)
		for y := area.Top(); y < area.Bottom(); y++ {
			buf.SetString(area.X, y, strings.Repeat(pick(r, "x", "世", "ab "), area.Width), rstyle(r))
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if f := panicFrame(string(debug.Stack())); strings.HasPrefix(f, "main.") {
				harnessError("panic in the harness: " + string(debug.Stack()))
			}
			panicked = fmt.Sprint(r)
		}
	}()
	switch v := v.(type) {
	case textwidget.Span:
		say = fmt.Sprint(v.String(), v.Width())
	case textwidget.Line:
		say = fmt.Sprint(v.String(), v.Width())
		for _, g := range v.StyledGraphemes(bento.NewStyle().Bold()) {
			say += fmt.Sprintf("%+v", g)
		}
	case textwidget.Text:
		say = fmt.Sprint(v.String(), v.Width(), v.Height())
		b := v.Lines.NewBuffer()
		say += bufStr(&b)
	case blockwidget.Block:
		say = fmt.Sprint(v.Inner(area))
	case popupwidget.Popup:
		say = fmt.Sprint(v.Inner(area))
	case inputThing:
		v.w.RenderStateful(area, &buf, &v.s)
		say = v.s.String()
		v.w.RenderStateful(area, &buf, &v.s)
	case listThing:
		v.w.RenderStateful(area, &buf, &v.s)
		say = fmt.Sprint(v.s.Selected(100))
	case scrollThing:
		v.w.RenderStateful(area, &buf, v.s)
		say = fmt.Sprint(v.s.Position(), v.s.Ratio())
	case throbberThing:
		v.w.RenderStateful(area, &buf, v.s)
	}
	if x, ok := v.(bento.Widget); ok {
		x.Render(area, &buf)
	}
	return
}

func bufStr(b *bento.Buffer) string {
	var s strings.Builder
	a := b.Area()
	for y := a.Top(); y < a.Bottom(); y++ {
		for x := a.Left(); x < a.Right(); x++ {
			c := b.CellAt(bento.NewPosition(x, y))
			fmt.Fprintf(&s, "%s\x01%v\x02", c.Symbol, cellStyle(c))
		}
		s.WriteByte('\n')
	}
	return s.String()
}

// firstCell finds the first cell in which two drawings differ.
func firstCell(a, b *bento.Buffer) string {
	ar := a.Area()
	for y := ar.Top(); y < ar.Bottom(); y++ {
		for x := ar.Left(); x < ar.Right(); x++ {
			p, q := a.CellAt(bento.NewPosition(x, y)), b.CellAt(bento.NewPosition(x, y))
			if *p != *q {
				return fmt.Sprintf("at (%d,%d): %q in %v instead of %q in %v", x, y, p.Symbol, cellStyle(p), q.Symbol, cellStyle(q))
			}
		}
	}
	return ""
}

// dump prints a value with everything it points to.
func dump(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			b.WriteString(v.Elem().Type().String())
		}
		dump(b, v.Elem())
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type() == reflect.TypeOf(throbberwidget.State{}) && v.Type().Field(i).Name == "id" {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			dump(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Map, reflect.Func, reflect.Chan:
		fmt.Fprintf(b, "%v", v.IsNil())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(b, v.Float())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	default:
		if v.CanUint() {
			fmt.Fprint(b, v.Uint())
		}
	}
}

type shareDrawing struct {
	buf      bento.Buffer
	say      string
	panicked string
}

func (s *ShareSc) run1(w *shareWorld, j ShareJob, sibling bool) shareDrawing {
	v := w.vals[j.Thing]
	if j.Derive > 0 {
		v = w.derive(v, j.Derive)
	}
	if sibling && j.Sibling > 0 {
		x := w.derive(w.vals[j.Thing], j.Sibling)
		w.draw(x, bento.NewRect(j.H+3, j.W), 0)
		w.derive(x, j.Sibling+1)
		w.derive(v, j.Sibling+2)
	}
	area := bento.NewRect(j.W, j.H).Positioned(j.X, j.Y)
	var d shareDrawing
	d.buf, d.say, d.panicked = w.draw(v, area, j.Onto)
	return d
}

func runShare(rc *runCtx) {
	s := rc.sc.Share
	// what each use shows when nothing else ever happened
	want := map[ShareJob]shareDrawing{}
	key := func(j ShareJob) ShareJob {
		j.Sibling = 0
		return j
	}
	alone := func(j ShareJob) shareDrawing { return s.run1(s.world(), key(j), false) }
	late := rc.sc.Seed%2 == 0 // find that out afterwards
	if !late {
		for _, t := range s.Tasks {
			for _, j := range t.Jobs {
				if _, ok := want[key(j)]; !ok {
					want[key(j)] = alone(j)
				}
			}
		}
	}
	shared := s.world()
	got := make([][]shareDrawing, len(s.Tasks))
	check := func(i, n int) {
		j := s.Tasks[i].Jobs[n]
		w, ok := want[key(j)]
		if !ok {
			return
		}
		g := got[i][n]
		rc.probe("checked")
		what := fmt.Sprintf("goroutine %d, use %d: a %s (%+v)", i, n, s.Pool[j.Thing].T, j)
		switch {
		case g.panicked != w.panicked:
			rc.bad("P21", "panic", "%s: panic %q; alone: %q", what, g.panicked, w.panicked)
		case g.say != w.say:
			rc.bad("P21", "says", "%s says %q; alone it says %q", what, trunc2(g.say), trunc2(w.say))
		default:
			if d := firstCell(&g.buf, &w.buf); d != "" {
				rc.bad("P21", "differs", "%s is drawn differently than alone, %s", what, d)
			}
		}
	}
	var wg sync.WaitGroup
	running := 0
	for i := range s.Tasks {
		t := &s.Tasks[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			if t.After > 0 {
				time.Sleep(us(t.After))
			}
			for n, j := range t.Jobs {
				running++
				if running > 1 {
					rc.probe("concurrent_uses")
				}
				y()
				g := s.run1(shared, j, true)
				running--
				got[i] = append(got[i], g)
				rc.ev("drawn", i, n, fmt.Sprint(j, hashStr(bufStr(&g.buf)+g.say)))
				check(i, n)
			}
		}()
	}
	wg.Wait()
	if late {
		for i := range s.Tasks {
			for n, j := range s.Tasks[i].Jobs {
				if _, ok := want[key(j)]; !ok {
					want[key(j)] = alone(j)
				}
				check(i, n)
			}
		}
	}
	fresh := s.world()
	for i := range s.Pool {
		var a, b strings.Builder
		dump(&a, reflect.ValueOf(shared.vals[i]))
		dump(&b, reflect.ValueOf(fresh.vals[i]))
		if a.String() != b.String() {
			rc.bad("P21", "changed", "thing %d, a %s, was changed by its uses: it is %s, it was %s", i, s.Pool[i].T, trunc2(a.String()), trunc2(b.String()))
		}
	}
}
