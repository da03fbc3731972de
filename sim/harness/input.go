package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/metafates/bento"
)

// Input is something the user does at the terminal.
type Input struct {
	After int    // microseconds after the previous input
	Kind  string // text, ctrl, seq, alt, altseq, esc, mouse, x10, focus, blur, paste, csi, raw
	S     string `json:",omitempty"`
	Rep   int    `json:",omitempty"` // how often a paste repeats it; 0: once
	N     int    `json:",omitempty"` // index or button
	X     int    `json:",omitempty"`
	Y     int    `json:",omitempty"`
	R     bool   `json:",omitempty"` // release
	Cuts  []int  `json:",omitempty"` // where a paste is cut into pieces (gaps)
}

// bytes is what the terminal sends.
func (in *Input) bytes() string {
	switch in.Kind {
	case "text":
		return in.S
	case "ctrl":
		return string(rune(in.ctrl()))
	case "seq":
		return keySeqs[in.N%len(keySeqs)].s
	case "altseq":
		s := keySeqs[in.N%len(keySeqs)]
		if s.k.Alt {
			return s.s
		}
		return "\x1b" + s.s
	case "alt":
		return "\x1b" + firstRune(in.S)
	case "altctrl":
		return "\x1b" + string(rune(in.ctrl()))
	case "esc":
		return "\x1b"
	case "mouse":
		f := "M"
		if in.R {
			f = "m"
		}
		return fmt.Sprintf("\x1b[<%d;%d;%d%s", in.N&0xff, in.X+1, in.Y+1, f)
	case "x10":
		return "\x1b[M" + string([]byte{byte(32 + in.N&0x7f), byte(33 + in.X%223), byte(33 + in.Y%223)})
	case "focus":
		return "\x1b[I"
	case "blur":
		return "\x1b[O"
	case "paste":
		return "\x1b[200~" + in.pasted(true) + "\x1b[201~"
	case "byte":
		return string([]byte{junk[in.N%len(junk)]})
	case "csi":
		return "\x1b[" + strconv.Itoa(40+in.N%50) + ";9" + string("uvwxyt"[in.N%6])
	}
	return ""
}

// pasted is the text of a paste; the end marker cannot be part of it.
// Where there is a character of the private use area from junkRune on, the
// terminal sends a byte that is part of no character.
func (in *Input) pasted(sent bool) string {
	s := strings.Repeat(in.S, min(max(1, in.Rep), 1<<18/(len(in.S)+1)))
	for strings.Contains(s, "\x1b[201~") {
		s = strings.ReplaceAll(s, "\x1b[201~", "")
	}
	var b []byte
	for _, r := range s {
		if i := int(r) - junkRune; i < 0 || i >= len(junk) {
			b = utf8.AppendRune(b, r)
		} else if sent {
			b = append(b, junk[i])
		}
	}
	return string(b)
}

func firstRune(s string) string {
	for i, r := range s {
		if i == 0 && r > ' ' && r != 0x7f && r != '[' && r != 'O' {
			return string(r)
		}
	}
	return "q"
}

// ctrl is the control character of a ctrl key.
func (in *Input) ctrl() int {
	c := in.N % 33
	if c == 27 {
		c = 3
	}
	if c == 32 {
		c = 127
	}
	return c
}

// segs cuts the bytes into the pieces in which they arrive.
func (in *Input) segs() []inSeg {
	b := in.bytes()
	var out []inSeg
	if in.Kind == "paste" {
		last := 0
		for _, c := range in.Cuts {
			if c > last && c < len(b) {
				out = append(out, inSeg{b: []byte(b[last:c]), gap: true})
				last = c
			}
		}
		return append(out, inSeg{b: []byte(b[last:])})
	}
	if in.Kind == "text" { // every key press is an event of its own
		for _, r := range b {
			out = append(out, inSeg{b: []byte(string(r))})
		}
		return out
	}
	return []inSeg{{b: []byte(b), gap: in.Kind == "esc"}}
}

// want is what the model must be told: a list of messages; typed characters
// one by one.
func (in *Input) want() []bento.Msg {
	switch in.Kind {
	case "text":
		var out []bento.Msg
		for _, r := range in.S {
			out = append(out, runeKey(r))
		}
		return out
	case "ctrl":
		return []bento.Msg{bento.KeyMsg{Type: bento.KeyType(in.ctrl())}}
	case "altctrl":
		return []bento.Msg{bento.KeyMsg{Type: bento.KeyType(in.ctrl()), Alt: true}}
	case "seq":
		return []bento.Msg{keySeqs[in.N%len(keySeqs)].k}
	case "altseq":
		k := keySeqs[in.N%len(keySeqs)].k
		k.Alt = true
		return []bento.Msg{k}
	case "alt":
		r, _ := utf8.DecodeRuneInString(firstRune(in.S))
		return []bento.Msg{bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune{r}, Alt: true}}
	case "esc":
		return []bento.Msg{bento.KeyMsg{Type: bento.KeyEscape}}
	case "mouse":
		return []bento.Msg{mouseMsg(in.N&0xff, in.X, in.Y, in.R, true)}
	case "x10":
		return []bento.Msg{mouseMsg(in.N&0x7f, in.X%223, in.Y%223, false, false)}
	case "focus":
		return []bento.Msg{bento.FocusMsg{}}
	case "blur":
		return []bento.Msg{bento.BlurMsg{}}
	case "paste":
		return []bento.Msg{bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune(in.pasted(false)), Paste: true}}
	}
	return nil
}

func runeKey(r rune) bento.KeyMsg {
	if r == ' ' {
		return bento.KeyMsg{Type: bento.KeySpace, Runes: []rune{' '}}
	}
	return bento.KeyMsg{Type: bento.KeyRunes, Runes: []rune{r}}
}

// mouseMsg decodes a button code the way the xterm documentation defines it.
func mouseMsg(b, x, y int, release, sgr bool) bento.MouseMsg {
	m := bento.MouseMsg{X: x, Y: y, Shift: b&4 != 0, Alt: b&8 != 0, Ctrl: b&16 != 0}
	low := b & 3
	wheel := false
	switch {
	case b&128 != 0:
		m.Button = []bento.MouseButton{bento.MouseButtonBackward, bento.MouseButtonForward, bento.MouseButton10, bento.MouseButton11}[low]
	case b&64 != 0:
		m.Button = []bento.MouseButton{bento.MouseButtonWheelUp, bento.MouseButtonWheelDown, bento.MouseButtonWheelLeft, bento.MouseButtonWheelRight}[low]
		wheel = true
	case low == 3:
		m.Button, m.Action = bento.MouseButtonNone, bento.MouseActionRelease
	default:
		m.Button = []bento.MouseButton{bento.MouseButtonLeft, bento.MouseButtonMiddle, bento.MouseButtonRight}[low]
	}
	if wheel {
		return m
	}
	if b&32 != 0 {
		m.Action = bento.MouseActionMotion
	} else if sgr && release {
		m.Action = bento.MouseActionRelease
	}
	return m
}

// junk are bytes no character begins with.
var junk = []byte{0x80, 0x9b, 0xa0, 0xbf, 0xc0, 0xc1, 0xf5, 0xf8, 0xfe, 0xff}

const junkRune = 0xf780

// single splits grouped typed characters.
func single(ms []bento.Msg) (out []bento.Msg) {
	for _, m := range ms {
		k, ok := m.(bento.KeyMsg)
		if ok && !k.Alt && !k.Paste && (k.Type == bento.KeyRunes || k.Type == bento.KeySpace) && len(k.Runes) > 0 {
			for _, r := range k.Runes {
				out = append(out, runeKey(r))
			}
			continue
		}
		if t := fmt.Sprintf("%T", m); strings.Contains(t, "unknownCSI") || strings.Contains(t, "unknownInputByte") {
			continue
		}
		out = append(out, m)
	}
	return
}

// inputs compares what the model saw with what was done at the terminal.
func (a *appRun) inputs() {
	rc := a.rc
	if len(a.causes) > 1 || !a.causes["quit"] {
		return
	}
	var want []bento.Msg
	for i := range a.sc.Bytes {
		want = append(want, a.sc.Bytes[i].want()...)
	}
	got := single(a.seen)
	if n := len(got); n > 0 { // the key that ends the run
		got = got[:n-1]
	}
	rc.probe("inputs_compared")
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			rc.bad("P12", "lost", "event %d of %d never reached the model: %s", i, len(want), show(want[i]))
			return
		case i >= len(want):
			rc.bad("P12", "invented", "the model is told %s after the last event", show(got[i]))
			return
		case !same(got[i], want[i]):
			rc.bad("P12", "wrong", "event %d is %s, the model is told %s", i, show(want[i]), show(got[i]))
			return
		}
	}
}

func same(a, b bento.Msg) bool {
	x, ok1 := a.(bento.KeyMsg)
	z, ok2 := b.(bento.KeyMsg)
	if ok1 && ok2 {
		return x.Type == z.Type && x.Alt == z.Alt && x.Paste == z.Paste && (x.Type != bento.KeyRunes || string(x.Runes) == string(z.Runes))
	}
	return reflect.DeepEqual(a, b)
}

func show(m bento.Msg) string {
	switch m := m.(type) {
	case bento.KeyMsg:
		p := ""
		if m.Paste {
			p = fmt.Sprintf(" pasted, %d characters", len(m.Runes))
		}
		return fmt.Sprintf("key %q%s", trunc(m.String()), p)
	}
	return fmt.Sprintf("%T%+v", m, m)
}
