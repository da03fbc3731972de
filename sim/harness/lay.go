package main

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/metafates/bento"
)

// LaySc is a scenario in which several goroutines split areas with layouts
// they share, while map iteration order and interleaving vary.
type LaySc struct {
	Layouts []LaySpec
	Tasks   []LayTask
}

// LaySpec describes a layout.
type LaySpec struct {
	Horizontal bool
	Cons       []ConSpec
	Pad        [4]int // top, right, bottom, left
	Flex       int
	Overlap    bool
	Spacing    int
	NoSpacing  bool // Spacing is left unset
	Derive     int  // this many of the constraints are added one at a time
}

// ConSpec describes a constraint.
type ConSpec struct {
	Kind string // min, max, len, pct, ratio, fill
	N, M int
}

// LayTask is what one goroutine does: it splits one area after another.
type LayTask struct {
	After int
	Jobs  []LayJob
}

// LayJob is one split.
type LayJob struct {
	Layout     int
	X, Y, W, H int
	Spacers    bool
	More       []ConSpec // constraints added to the shared layout for this split
}

func genCons(r *rng, mode, n, size int) (cs []ConSpec) {
	kinds := []string{"min", "max", "len", "pct", "ratio", "fill"}
	one := pick(r, kinds...)
	equal := r.p(30)
	for i := 0; i < n; i++ {
		k := one
		switch mode {
		case 0:
			k = pick(r, kinds...)
		case 1:
			k = pick(r, one, pick(r, kinds...))
		case 3:
			k = pick(r, "min", "max", "len")
		}
		c := ConSpec{Kind: k}
		switch k {
		case "min", "max", "len":
			c.N = pick(r, 0, 1, 2, 3, 5, r.n(size+2), r.n(2*size/max(1, n)+2), 1000)
			if c.N == 1000 && r.p(70) {
				c.N = size
			}
		case "pct":
			c.N = pick(r, 0, 10, 25, 33, 50, 66, 75, 100, r.n(120))
		case "ratio":
			c.N, c.M = r.n(4), pick(r, 1, 2, 3, 4, 7, 0)
		case "fill":
			c.N = pick(r, 0, 1, 1, 1, 2, 3, 10, 1, 1, 50, 100)
			if mode == 2 && n < 5 && r.p(5) {
				c.N = 1000
			}
		}
		if equal && i > 0 {
			c = cs[0]
		}
		cs = append(cs, c)
	}
	return cs
}

func genLay(prop string, r *rng) *LaySc {
	s := &LaySc{}
	nl := pick(r, 1, 1, 2, 3)
	size := pick(r, 10, 10, 24, 80, 100)
	if r.p(4) {
		size = pick(r, 300, 1000, 5000)
	}
	for i := 0; i < nl; i++ {
		n := r.in(0, 6)
		if r.p(8) {
			n = r.in(7, 14)
		}
		if r.p(2) {
			n = r.in(15, 45)
		}
		l := LaySpec{Horizontal: r.p(50), Flex: r.n(6), Spacing: pick(r, 0, 0, 0, 1, 2, 3, r.n(12)), Overlap: r.p(10), NoSpacing: r.p(5)}
		if l.Overlap && r.p(70) {
			l.Spacing = pick(r, 1, 1, 2, 3)
		}
		l.Cons = genCons(r, r.n(4), n, size)
		if r.p(25) {
			for j := range l.Pad {
				l.Pad[j] = pick(r, 0, 0, 1, 2, r.n(8))
			}
			switch r.n(4) {
			case 0:
				l.Pad[1], l.Pad[2], l.Pad[3] = l.Pad[0], l.Pad[0], l.Pad[0]
			case 1:
				l.Pad[2], l.Pad[3] = l.Pad[0], l.Pad[1]
			}
		}
		if r.p(40) {
			l.Derive = r.n(n + 1)
		}
		s.Layouts = append(s.Layouts, l)
	}
	nt := pick(r, 1, 2, 2, 3)
	var jobs []LayJob
	for i := r.in(1, 3); i > 0; i-- {
		j := LayJob{Layout: r.n(nl), X: pick(r, 0, 0, 1, r.n(50)), Y: pick(r, 0, 0, 1, r.n(50)), W: r.in(0, size), H: r.in(0, size), Spacers: r.p(40)}
		if r.p(10) {
			j.W, j.H = r.n(4), r.n(4)
		}
		if r.p(20) {
			j.More = genCons(r, 0, r.in(1, 2), size)
		}
		jobs = append(jobs, j)
	}
	for i := 0; i < nt; i++ {
		t := LayTask{After: pick(r, 0, 0, 1)}
		for k := r.in(1, 4); k > 0; k-- {
			j := jobs[r.n(len(jobs))]
			if j.More != nil && r.p(60) {
				j.More = genCons(r, 0, r.in(1, 2), size)
			}
			t.Jobs = append(t.Jobs, j)
		}
		s.Tasks = append(s.Tasks, t)
	}
	for s.cost() > maxCost {
		if len(s.Tasks) > 1 {
			s.Tasks = s.Tasks[1:]
		} else if t := &s.Tasks[0]; len(t.Jobs) > 1 {
			t.Jobs = t.Jobs[1:]
		} else {
			l := &s.Layouts[t.Jobs[0].Layout]
			l.Cons = l.Cons[1:]
			l.Derive = min(l.Derive, len(l.Cons))
		}
	}
	return s
}

// cost estimates how much work the splits of a scenario are: the solver takes
// about the third power of the number of its constraints.
func (s *LaySc) cost() int {
	n := 0
	for _, t := range s.Tasks {
		for _, j := range t.Jobs {
			l := s.Layouts[j.Layout]
			k := len(l.Cons) + len(j.More)
			m := 10 + 5*k
			if l.Flex >= int(bento.FlexSpaceBetween) {
				m += k*k/2 + k
			}
			f := 0
			for _, c := range append(append([]ConSpec{}, l.Cons...), j.More...) {
				if c.Kind == "fill" || c.Kind == "min" {
					f++
				}
			}
			m += f * f / 2
			n += m * m * m
		}
	}
	return n
}

const maxCost = 15_000_000

func (s *LaySc) valid() bool {
	con := func(cs []ConSpec) bool {
		for _, c := range cs {
			if c.N < 0 || c.M < 0 || c.N > 100000 || c.M > 100000 {
				return false
			}
		}
		return len(cs) <= 60
	}
	for _, l := range s.Layouts {
		if !con(l.Cons) || l.Flex < 0 || l.Flex > 5 || l.Spacing < 0 || l.Derive < 0 || l.Derive > len(l.Cons) {
			return false
		}
		for _, p := range l.Pad {
			if p < 0 {
				return false
			}
		}
	}
	for _, t := range s.Tasks {
		if t.After < 0 {
			return false
		}
		for _, j := range t.Jobs {
			if j.Layout < 0 || j.Layout >= len(s.Layouts) || j.X < 0 || j.Y < 0 || j.W < 0 || j.H < 0 || j.X > 30000 || j.Y > 30000 || j.W > 30000 || j.H > 30000 || !con(j.More) {
				return false
			}
		}
	}
	return s.cost() <= maxCost
}

func cons(cs []ConSpec) (out []bento.Constraint) {
	for _, c := range cs {
		switch c.Kind {
		case "min":
			out = append(out, bento.ConstraintMin(c.N))
		case "max":
			out = append(out, bento.ConstraintMax(c.N))
		case "pct":
			out = append(out, bento.ConstraintPercentage(c.N))
		case "ratio":
			out = append(out, bento.ConstraintRatio{Num: c.N, Den: c.M})
		case "fill":
			out = append(out, bento.ConstraintFill(c.N))
		default:
			out = append(out, bento.ConstraintLen(c.N))
		}
	}
	return out
}

// build makes the layout the way an application would.
func (l *LaySpec) build() bento.Layout {
	cs := cons(l.Cons)
	n := len(cs) - min(l.Derive, len(cs))
	x := bento.NewLayout(cs[:n:n]...)
	if l.Horizontal {
		x = x.Horizontal()
	}
	x = x.WithFlex(bento.Flex(l.Flex)).WithPadding(padding(l.Pad[0], l.Pad[1], l.Pad[2], l.Pad[3]))
	switch {
	case l.NoSpacing:
		x.Spacing = nil
	case l.Overlap:
		x = x.WithSpacing(bento.SpacingOverlap(l.Spacing))
	default:
		x = x.WithSpacing(bento.SpacingSpace(l.Spacing))
	}
	for _, c := range cs[n:] {
		x = x.WithConstraints(c)
	}
	return x
}

// padding makes a padding in the shortest way there is.
func padding(top, right, bottom, left int) bento.Padding {
	switch {
	case top == 0 && right == 0 && bottom == 0 && left == 0:
		return bento.NewPadding()
	case top == right && top == bottom && top == left:
		return bento.NewPadding(top)
	case top == bottom && right == left:
		return bento.NewPadding(top, right)
	case (top+left)%2 == 0:
		return bento.NewPadding().WithTop(top).WithRight(right).WithBottom(bottom).WithLeft(left)
	}
	return bento.NewPadding(top, right, bottom, left)
}

type splitResult struct {
	segs, spacers []bento.Rect
	panicked      string
}

func (a splitResult) equal(b splitResult) bool {
	return rects(a.segs) == rects(b.segs) && rects(a.spacers) == rects(b.spacers) && a.panicked == b.panicked
}

func rects(rs []bento.Rect) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "[%d,%d %dx%d]", r.X, r.Y, r.Width, r.Height)
	}
	return b.String()
}

func (a splitResult) String() string {
	s := rects(a.segs)
	if a.spacers != nil {
		s += " spacers " + rects(a.spacers)
	}
	if a.panicked != "" {
		s = "panic: " + a.panicked
	}
	return s
}

func splitOnce(l bento.Layout, area bento.Rect, spacers bool) (res splitResult) {
	defer func() {
		if r := recover(); r != nil {
			if f := panicFrame(string(debug.Stack())); strings.HasPrefix(f, "main.") {
				harnessError("panic in the harness: " + string(debug.Stack()))
			}
			res.panicked = fmt.Sprint(r)
		}
	}()
	if spacers {
		segs, sp := l.SplitWithSpacers(area)
		return splitResult{segs: segs, spacers: append([]bento.Rect{}, sp...)}
	}
	return splitResult{segs: l.Split(area)}
}

func runLay(rc *runCtx) {
	s := rc.sc.Lay
	shared := make([]bento.Layout, len(s.Layouts))
	for i := range s.Layouts {
		shared[i] = s.Layouts[i].build()
	}
	// what each split gives when nothing else goes on
	type key struct {
		j    string
		more string
	}
	mk := func(j LayJob) key {
		k := j
		k.More, k.Spacers = nil, false
		return key{fmt.Sprint(k), fmt.Sprint(j.More)}
	}
	want := map[key]splitResult{}
	for _, t := range s.Tasks {
		for _, j := range t.Jobs {
			if _, ok := want[mk(j)]; ok {
				continue
			}
			sp := s.Layouts[j.Layout]
			sp.Cons = append(append([]ConSpec{}, sp.Cons...), j.More...)
			area := bento.NewRect(j.W, j.H).Positioned(j.X, j.Y)
			w := splitOnce(sp.build(), area, true)
			want[mk(j)] = w
			rc.checkSplit(&sp, area, w)
		}
	}
	var wg sync.WaitGroup
	running := 0
	for i := range s.Tasks {
		t := &s.Tasks[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			if t.After > 0 {
				time.Sleep(us(t.After))
			}
			for n, j := range t.Jobs {
				running++
				if running > 1 {
					rc.probe("concurrent_splits")
				}
				l := shared[j.Layout]
				if len(j.More) > 0 {
					l = l.WithConstraints(cons(j.More)...)
				}
				y()
				area := bento.NewRect(j.W, j.H).Positioned(j.X, j.Y)
				got := splitOnce(l, area, j.Spacers)
				running--
				w := want[mk(j)]
				if !j.Spacers {
					w.spacers = nil
				}
				rc.ev("split", i, n, got.String())
				rc.probe("checked")
				if !got.equal(w) {
					rc.bad("P15", "differs", "goroutine %d, split %d of %v with %s gives %v, but gave %v before", i, n, area, layName(l), got, w)
				}
				sp := s.Layouts[j.Layout]
				sp.Cons = append(append([]ConSpec{}, sp.Cons...), j.More...)
				rc.checkSplit(&sp, area, got)
			}
		}()
	}
	wg.Wait()
	for i := range s.Layouts {
		if a, b := layName(shared[i]), layName(s.Layouts[i].build()); a != b {
			rc.bad("P15", "layout-changed", "after the splits the layout is %s, it was %s", a, b)
		}
	}
}

func layName(l bento.Layout) string {
	d := "vertical"
	if l.Direction == bento.DirectionHorizontal {
		d = "horizontal"
	}
	return fmt.Sprintf("{%s %v padding %v flex %d spacing %T(%v)}", d, l.Constraints, l.Padding, l.Flex, l.Spacing, l.Spacing)
}

// checkSplit checks one result against what every split promises.
func (rc *runCtx) checkSplit(sp *LaySpec, area bento.Rect, res splitResult) {
	l := layName(sp.build())
	bad := func(code, f string, a ...any) {
		rc.bad("P16", code, "splitting %v with %s: %s; result %v", area, l, fmt.Sprintf(f, a...), res)
	}
	if res.panicked != "" {
		bad("panic", "panic: %s", res.panicked)
		return
	}
	n := len(sp.Cons)
	if len(res.segs) != n {
		bad("count", "%d rectangles for %d constraints", len(res.segs), n)
		return
	}
	if res.spacers != nil && len(res.spacers) != n+1 {
		bad("spacer-count", "%d spacers for %d constraints", len(res.spacers), n)
	}
	if s := bento.Splitted(res.segs); n > 0 {
		var got []bento.Rect
		switch n {
		case 1:
			got = []bento.Rect{s.Unwrap()}
		case 2:
			a, b := s.Unwrap2()
			got = []bento.Rect{a, b}
		case 3:
			a, b, c := s.Unwrap3()
			got = []bento.Rect{a, b, c}
		case 4:
			a, b, c, d := s.Unwrap4()
			got = []bento.Rect{a, b, c, d}
		default:
			got = make([]bento.Rect, n)
			into := make([]*bento.Rect, n)
			for i := range into {
				into[i] = &got[i]
			}
			into[n/2], got[n/2] = nil, s[n/2]
			s.Assign(into...)
		}
		if rects(got) != rects(res.segs) {
			bad("apart", "taken apart, the rectangles are %v", rects(got))
		}
	}
	// the padded area
	in := area
	in.X += min(sp.Pad[3], area.Width)
	in.Y += min(sp.Pad[0], area.Height)
	in.Width = max(0, area.Width-sp.Pad[1]-sp.Pad[3])
	in.Height = max(0, area.Height-sp.Pad[0]-sp.Pad[2])
	empty := area.Width < sp.Pad[1]+sp.Pad[3] || area.Height < sp.Pad[0]+sp.Pad[2]
	along := func(r bento.Rect) (int, int) {
		if sp.Horizontal {
			return r.X, r.Right()
		}
		return r.Y, r.Bottom()
	}
	lo, hi := along(in)
	check := func(what string, rs []bento.Rect) {
		for i, r := range rs {
			if r.Width < 0 || r.Height < 0 {
				bad("negative", "%s %d is %v", what, i, r)
			}
			if r.X < area.X || r.Y < area.Y || r.Right() > area.Right() || r.Bottom() > area.Bottom() {
				bad("outside", "%s %d (%v) is outside the area", what, i, r)
			}
			if empty {
				if r.Width > 0 && r.Height > 0 {
					bad("outside", "%s %d (%v) is not empty, but the padding leaves nothing", what, i, r)
				}
				continue
			}
			a, b := along(r)
			if a < lo || b > hi {
				bad("outside", "%s %d (%v) is outside the padded area %v", what, i, r, in)
			}
			if sp.Horizontal && (r.Y != in.Y || r.Height != in.Height) || !sp.Horizontal && (r.X != in.X || r.Width != in.Width) {
				bad("across", "%s %d (%v) does not span the padded area %v", what, i, r, in)
			}
			if i > 0 {
				pa, pb := along(rs[i-1])
				if a < pa && !sp.overlaps() {
					bad("order", "%s %d (%v) comes before the one preceding it", what, i, r)
				}
				if a < pb && !sp.overlaps() && what == "segment" {
					bad("overlap", "%s %d (%v) overlaps the one preceding it", what, i, r)
				}
			}
		}
	}
	check("segment", res.segs)
	check("spacer", res.spacers)
	if empty {
		return
	}
	if !sp.overlaps() {
		rc.metConstraints(sp, hi-lo, res, along, bad)
	}
	rc.spaceGiven(sp, area, lo, hi-lo, res, along)
}

// metConstraints checks that constraints that can all be met are met.
func (rc *runCtx) metConstraints(sp *LaySpec, size int, res splitResult, along func(bento.Rect) (int, int), bad func(code, f string, a ...any)) {
	n := len(sp.Cons)
	if n == 0 {
		return
	}
	spacing := sp.Spacing
	if sp.NoSpacing {
		spacing = 0
	}
	gaps := n - 1
	if bento.Flex(sp.Flex) == bento.FlexSpaceAround {
		gaps = n + 1
	}
	need := spacing * gaps
	room := 0 // what the segments can take at most; -1: no limit
	for _, c := range sp.Cons {
		switch c.Kind {
		case "len":
			need += c.N
			room += c.N
		case "max":
			room += c.N
		case "min":
			need += c.N
			room += 1 << 30
		default:
			return
		}
	}
	if need > size {
		return
	}
	fill := bento.Flex(sp.Flex) == bento.FlexLegacy || bento.Flex(sp.Flex) == bento.FlexSpaceBetween && n < 2
	if bento.Flex(sp.Flex) == bento.FlexSpaceAround && n < 2 {
		fill = false
	}
	if fill && room+spacing*(n-1) < size {
		return // segments have to fill the area, more than they want to
	}
	rc.probe("satisfiable_split")
	for i, c := range sp.Cons {
		a, b := along(res.segs[i])
		w := b - a
		if sp.Flex >= int(bento.FlexSpaceBetween) || sp.Flex == int(bento.FlexCenter) { // rounding
			if d := w - c.N; d == 1 || d == -1 {
				continue
			}
		}
		switch {
		case c.Kind == "len" && w != c.N, c.Kind == "min" && w < c.N, c.Kind == "max" && w > c.N:
			bad("unmet", "segment %d is %d long, although all constraints can be met", i, w)
		}
	}
}

// overlaps says whether neighbouring segments are meant to overlap.
func (l *LaySpec) overlaps() bool { return l.Overlap && l.Spacing > 0 && !l.NoSpacing }
