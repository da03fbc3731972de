package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/rivo/uniseg"
)

// vt is the simulated terminal's screen: it interprets the byte stream the
// application writes the way an xterm-like terminal does.
type vt struct {
	w, h       int
	main, alt  [][]vcell
	altOn      bool
	x, y       int
	wrap       bool // the cursor is past the last column
	savedX     int
	savedY     int
	cur        vstyle
	cursorOn   bool
	bracketed  bool
	otherModes map[string]bool

	buf     []byte // incomplete sequence
	lastX   int    // cell a combining character would join; -1: none
	lastY   int
	unknown []string // sequences the terminal does not understand
	ctrl    int      // control characters seen while on the alternate screen
	resizes int      // how often the window was resized
	cleared int      // the value of resizes when the screen was last cleared
	bytes   int
}

type vcell struct {
	sym string // "" continues the wide character to the left
	w   int
	st  vstyle
}

type vstyle struct {
	fg, bg string // "" default, else the SGR parameters
	attr   uint16
}

const (
	aBold uint16 = 1 << iota
	aDim
	aItalic
	aUnderline
	aSlow
	aRapid
	aReverse
	aHidden
	aCrossed
	aOther
)

func blankCell(st vstyle) vcell { return vcell{" ", 1, vstyle{bg: st.bg}} }

func newGrid(w, h int) [][]vcell {
	g := make([][]vcell, h)
	for i := range g {
		g[i] = make([]vcell, w)
		for j := range g[i] {
			g[i][j] = blankCell(vstyle{})
		}
	}
	return g
}

func newVT(w, h int) *vt {
	v := &vt{w: w, h: h, main: newGrid(w, h), alt: newGrid(w, h), cursorOn: true, lastX: -1, otherModes: map[string]bool{}}
	for i, r := range v.main {
		for j := range r {
			v.main[i][j].sym = string(rune('a' + (i*7+j)%26))
		}
	}
	return v
}

func regrid(g [][]vcell, w, h int) [][]vcell {
	n := newGrid(w, h)
	for y := 0; y < h && y < len(g); y++ {
		copy(n[y], g[y])
		if w < len(g[y]) && w > 0 && g[y][w].w == 0 && n[y][w-1].w == 2 {
			n[y][w-1] = blankCell(vstyle{}) // half of a wide character was cut off
		}
	}
	return n
}

func (v *vt) resize(w, h int) {
	v.resizes++
	v.main, v.alt = regrid(v.main, w, h), regrid(v.alt, w, h)
	v.w, v.h = w, h
	v.x, v.y = min(v.x, max(0, w-1)), min(v.y, max(0, h-1))
	v.wrap, v.lastX = false, -1
}

func (v *vt) grid() [][]vcell {
	if v.altOn {
		return v.alt
	}
	return v.main
}

func (v *vt) write(p []byte) {
	v.bytes += len(p)
	v.buf = append(v.buf, p...)
	for len(v.buf) > 0 {
		n := v.one(v.buf)
		if n == 0 {
			break
		}
		v.buf = v.buf[n:]
	}
	if len(v.buf) == 0 {
		v.buf = nil
	}
}

// one interprets the first element of b and returns its length (0: incomplete).
func (v *vt) one(b []byte) int {
	c := b[0]
	switch {
	case c == 0x1b:
		if len(b) < 2 {
			return 0
		}
		if b[1] == '[' {
			i := 2
			for i < len(b) && b[i] >= 0x20 && b[i] <= 0x3f {
				i++
			}
			if i == len(b) {
				return 0
			}
			if b[i] == 0x1b { // an escape character aborts the sequence
				v.unknown = append(v.unknown, "aborted CSI")
				return i
			}
			if b[i] < 0x40 || b[i] > 0x7e {
				v.unknown = append(v.unknown, fmt.Sprintf("CSI %s%q", b[2:i], b[i]))
				return i + 1
			}
			v.csi(string(b[2:i]), b[i])
			return i + 1
		}
		v.unknown = append(v.unknown, fmt.Sprintf("ESC %q", b[1]))
		if b[1] == 0x1b {
			return 1
		}
		return 2
	case c < 0x20 || c == 0x7f:
		v.control(c)
		return 1
	default:
		if !utf8.FullRune(b) {
			return 0
		}
		r, n := utf8.DecodeRune(b)
		if r >= 0x80 && r < 0xa0 {
			v.ctrl++
			return n
		}
		v.print(r)
		return n
	}
}

func (v *vt) control(c byte) {
	if v.altOn {
		v.ctrl++
	}
	v.lastX = -1
	switch c {
	case '\n':
		v.wrap = false
		if !v.altOn {
			v.x = 0
		}
		v.lf()
	case '\r':
		v.x, v.wrap = 0, false
	case '\b':
		v.x, v.wrap = max(0, v.x-1), false
	case '\t':
		v.x, v.wrap = max(0, min(v.w-1, (v.x/8+1)*8)), false
	}
}

func (v *vt) lf() {
	if v.y+1 < v.h {
		v.y++
		return
	}
	g := v.grid()
	if len(g) == 0 {
		return
	}
	copy(g, g[1:])
	row := make([]vcell, v.w)
	for i := range row {
		row[i] = blankCell(vstyle{})
	}
	g[len(g)-1] = row
}

// blank clears a cell about to be overwritten, and with it the other half of
// a wide character it belongs to.
func (v *vt) blank(x, y int) {
	g := v.grid()
	if g[y][x].w == 0 && x > 0 && g[y][x-1].w == 2 {
		g[y][x-1] = vcell{" ", 1, g[y][x-1].st}
	}
	if g[y][x].w == 2 && x+1 < v.w {
		g[y][x+1] = vcell{" ", 1, g[y][x+1].st}
	}
}

func (v *vt) print(r rune) {
	if v.w == 0 || v.h == 0 {
		return
	}
	g := v.grid()
	if v.lastX >= 0 && v.lastX < v.w && v.lastY < v.h {
		joined := g[v.lastY][v.lastX].sym + string(r)
		if uniseg.GraphemeClusterCount(joined) == 1 {
			c := &g[v.lastY][v.lastX]
			c.sym = joined
			if nw := uniseg.StringWidth(joined); nw == 2 && c.w == 1 && v.lastX+1 < v.w {
				v.blank(v.lastX+1, v.lastY)
				c.w = 2
				g[v.lastY][v.lastX+1] = vcell{"", 0, c.st}
				if v.x == v.lastX+1 {
					v.advance(1)
				}
			}
			return
		}
	}
	w := uniseg.StringWidth(string(r))
	if w == 0 { // a stray zero-width character: terminals drop it
		return
	}
	if v.wrap {
		v.x, v.wrap = 0, false
		v.lf()
	}
	if w == 2 && v.x+1 >= v.w { // does not fit: terminals wrap
		if v.w < 2 {
			return
		}
		v.x = 0
		v.lf()
	}
	g = v.grid()
	v.blank(v.x, v.y)
	if w == 2 {
		v.blank(v.x+1, v.y)
		g[v.y][v.x+1] = vcell{"", 0, v.cur}
	}
	g[v.y][v.x] = vcell{string(r), w, v.cur}
	v.lastX, v.lastY = v.x, v.y
	v.advance(w)
}

func (v *vt) advance(n int) {
	v.x += n
	if v.x >= v.w {
		v.x, v.wrap = v.w-1, true
	}
}

func (v *vt) csi(par string, fin byte) {
	v.lastX = -1
	num := func(i, def int) int {
		f := strings.Split(par, ";")
		if i < len(f) {
			if k, err := strconv.Atoi(f[i]); err == nil && k > 0 {
				return k
			}
		}
		return def
	}
	switch {
	case fin == 'm' && !strings.HasPrefix(par, "?"):
		v.sgr(par)
	case fin == 'H' || fin == 'f':
		v.y, v.x, v.wrap = min(num(0, 1), max(1, v.h))-1, min(num(1, 1), max(1, v.w))-1, false
	case fin == 'J' || fin == 'K':
		k, _ := strconv.Atoi(par)
		g := v.grid()
		if fin == 'J' && k == 2 {
			v.cleared = v.resizes
		}
		for y := range g {
			for x := range g[y] {
				before := y < v.y || y == v.y && x < v.x
				at := y == v.y && x == v.x
				in := k == 2 || k == 3 || k == 0 && !before || k == 1 && (before || at)
				if fin == 'K' && y != v.y {
					in = false
				}
				if in {
					g[y][x] = blankCell(v.cur)
				}
			}
		}
		v.wrap = false
	case (fin == 'h' || fin == 'l') && strings.HasPrefix(par, "?"):
		for _, m := range strings.Split(par[1:], ";") {
			v.mode(m, fin == 'h')
		}
	default:
		v.unknown = append(v.unknown, fmt.Sprintf("CSI %s%c", par, fin))
	}
}

func (v *vt) mode(m string, on bool) {
	switch m {
	case "25":
		v.cursorOn = on
	case "2004":
		v.bracketed = on
	case "1049":
		if on && !v.altOn {
			v.savedX, v.savedY = v.x, v.y
			v.altOn = true
			v.alt = newGrid(v.w, v.h)
			v.cleared = v.resizes
		} else if !on && v.altOn {
			v.altOn = false
			v.x, v.y = min(v.savedX, max(0, v.w-1)), min(v.savedY, max(0, v.h-1))
			v.wrap = false
		}
	default:
		v.otherModes[m] = on
	}
}

func (v *vt) sgr(par string) { applySGR(&v.cur, par, &v.unknown) }

func applySGR(st *vstyle, par string, unknown *[]string) {
	f := strings.Split(par, ";")
	for i := 0; i < len(f); i++ {
		if strings.HasPrefix(f[i], "4:") {
			st.attr |= aUnderline
			continue
		}
		k := 0
		if f[i] != "" {
			var err error
			if k, err = strconv.Atoi(f[i]); err != nil {
				*unknown = append(*unknown, "SGR "+par)
				return
			}
		}
		switch {
		case k == 0:
			*st = vstyle{}
		case k == 1:
			st.attr |= aBold
		case k == 2:
			st.attr |= aDim
		case k == 3:
			st.attr |= aItalic
		case k == 4:
			st.attr |= aUnderline
		case k == 5:
			st.attr |= aSlow
		case k == 6:
			st.attr |= aRapid
		case k == 7:
			st.attr |= aReverse
		case k == 8:
			st.attr |= aHidden
		case k == 9:
			st.attr |= aCrossed
		case k == 22:
			st.attr &^= aBold | aDim
		case k == 23:
			st.attr &^= aItalic
		case k == 24:
			st.attr &^= aUnderline
		case k == 25:
			st.attr &^= aSlow | aRapid
		case k == 27:
			st.attr &^= aReverse
		case k == 28:
			st.attr &^= aHidden
		case k == 29:
			st.attr &^= aCrossed
		case k >= 30 && k <= 37 || k >= 90 && k <= 97:
			st.fg = strconv.Itoa(k)
		case k == 39:
			st.fg = ""
		case k >= 40 && k <= 47 || k >= 100 && k <= 107:
			st.bg = strconv.Itoa(k - 10)
		case k == 49:
			st.bg = ""
		case k == 38 || k == 48:
			n := 0
			if i+1 < len(f) && f[i+1] == "5" {
				n = 3
			} else if i+1 < len(f) && f[i+1] == "2" {
				n = 5
			}
			if n == 0 || i+n > len(f) {
				*unknown = append(*unknown, "SGR "+par)
				return
			}
			key := "38;" + strings.Join(f[i+1:i+n], ";")
			if k == 38 {
				st.fg = key
			} else {
				st.bg = key
			}
			i += n - 1
		default:
			*unknown = append(*unknown, "SGR "+par)
			st.attr |= aOther
		}
	}
}

func (c vcell) String() string {
	s := fmt.Sprintf("%q", c.sym)
	if c.st != (vstyle{}) {
		s += fmt.Sprintf("{fg=%s bg=%s attr=%03x}", c.st.fg, c.st.bg, c.st.attr)
	}
	return s
}
