package main

import (
	"fmt"
	"strings"

	"github.com/metafates/bento"
)

// What keys and mouse events are called (P33).

// specialNames are the names of the keys that are not characters.
var specialNames = map[bento.KeyType]string{
	bento.KeyCtrlAt: "ctrl+@", bento.KeyTab: "tab", bento.KeyEnter: "enter", bento.KeyEscape: "esc",
	bento.KeyCtrlBackslash: `ctrl+\`, bento.KeyCtrlCloseBracket: "ctrl+]", bento.KeyCtrlCaret: "ctrl+^",
	bento.KeyCtrlUnderscore: "ctrl+_", bento.KeyBackspace: "backspace",
	bento.KeyShiftTab: "shift+tab", bento.KeyPgUp: "pgup", bento.KeyPgDown: "pgdown",
	bento.KeyCtrlPgUp: "ctrl+pgup", bento.KeyCtrlPgDown: "ctrl+pgdown",
	bento.KeyDelete: "delete", bento.KeyInsert: "insert", bento.KeySpace: " ",
	bento.KeyUp: "up", bento.KeyDown: "down", bento.KeyRight: "right", bento.KeyLeft: "left",
	bento.KeyHome: "home", bento.KeyEnd: "end",
	bento.KeyCtrlUp: "ctrl+up", bento.KeyCtrlDown: "ctrl+down", bento.KeyCtrlRight: "ctrl+right",
	bento.KeyCtrlLeft: "ctrl+left", bento.KeyCtrlHome: "ctrl+home", bento.KeyCtrlEnd: "ctrl+end",
	bento.KeyShiftUp: "shift+up", bento.KeyShiftDown: "shift+down", bento.KeyShiftRight: "shift+right",
	bento.KeyShiftLeft: "shift+left", bento.KeyShiftHome: "shift+home", bento.KeyShiftEnd: "shift+end",
	bento.KeyCtrlShiftUp: "ctrl+shift+up", bento.KeyCtrlShiftDown: "ctrl+shift+down",
	bento.KeyCtrlShiftRight: "ctrl+shift+right", bento.KeyCtrlShiftLeft: "ctrl+shift+left",
	bento.KeyCtrlShiftHome: "ctrl+shift+home", bento.KeyCtrlShiftEnd: "ctrl+shift+end",
}

func init() {
	for i := 0; i < 26; i++ { // ctrl+i is tab, ctrl+m is enter
		if t := bento.KeyCtrlA + bento.KeyType(i); specialNames[t] == "" {
			specialNames[t] = "ctrl+" + string(rune('a'+i))
		}
	}
	fs := []bento.KeyType{bento.KeyF1, bento.KeyF2, bento.KeyF3, bento.KeyF4, bento.KeyF5, bento.KeyF6, bento.KeyF7, bento.KeyF8, bento.KeyF9, bento.KeyF10, bento.KeyF11, bento.KeyF12, bento.KeyF13, bento.KeyF14, bento.KeyF15, bento.KeyF16, bento.KeyF17, bento.KeyF18, bento.KeyF19, bento.KeyF20}
	for i, t := range fs {
		specialNames[t] = fmt.Sprintf("f%d", i+1)
	}
}

func keyName(k bento.KeyMsg) string {
	s := specialNames[k.Type]
	if k.Type == bento.KeyRunes {
		s = string(k.Runes)
		if k.Paste {
			s = "[" + s + "]"
		}
	}
	if k.Alt {
		s = "alt+" + s
	}
	return s
}

var buttonNames = map[bento.MouseButton]string{
	bento.MouseButtonLeft: "left", bento.MouseButtonMiddle: "middle", bento.MouseButtonRight: "right",
	bento.MouseButtonWheelUp: "wheel up", bento.MouseButtonWheelDown: "wheel down",
	bento.MouseButtonWheelLeft: "wheel left", bento.MouseButtonWheelRight: "wheel right",
	bento.MouseButtonBackward: "backward", bento.MouseButtonForward: "forward",
	bento.MouseButton10: "button 10", bento.MouseButton11: "button 11",
}

func mouseName(m bento.MouseMsg) string {
	s := ""
	if m.Ctrl {
		s = "ctrl+"
	}
	if m.Alt {
		s += "alt+"
	}
	if m.Shift {
		s += "shift+"
	}
	act := map[bento.MouseAction]string{bento.MouseActionPress: "press", bento.MouseActionRelease: "release", bento.MouseActionMotion: "motion"}[m.Action]
	switch b := buttonNames[m.Button]; {
	case m.Button == bento.MouseButtonNone && act == "press":
		return s + "unknown"
	case m.Button == bento.MouseButtonNone:
		return s + act
	case strings.HasPrefix(b, "wheel"):
		return s + b
	default:
		return s + b + " " + act
	}
}

func nameOf(m bento.Msg) (string, bool) {
	switch m := m.(type) {
	case bento.KeyMsg:
		return m.String(), true
	case bento.MouseMsg:
		return m.String(), true
	}
	return "", false
}

// saw keeps an input message the model is told, and its name.
func (a *appRun) saw(m bento.Msg) {
	n, _ := nameOf(m)
	a.seen = append(a.seen, m)
	a.named = append(a.named, n)
}

// names checks what the input messages of the run are called.
func (a *appRun) names() {
	rc := a.rc
	pressed, pasted := map[string]bento.Msg{}, map[string]bool{}
	for i, m := range a.seen {
		n, ok := nameOf(m)
		if !ok {
			continue
		}
		rc.probe("name_compared")
		if n != a.named[i] {
			rc.bad("P33", "unstable", "%s was called %q when it was pressed and is called %q later", what(m), trunc(a.named[i]), trunc(n))
			return
		}
		want := ""
		switch m := m.(type) {
		case bento.KeyMsg:
			want = keyName(m)
			if t := m.Type.String(); t != specialNames[m.Type] && m.Type != bento.KeyRunes {
				rc.bad("P33", "type", "the key type %d is called %q, not %q", int(m.Type), t, specialNames[m.Type])
			}
		case bento.MouseMsg:
			want = mouseName(m)
		}
		k, key := m.(bento.KeyMsg)
		switch {
		case key && k.Paste:
			pasted[n] = true
		case key && len(k.Runes) > 1: // typed faster than read
		default:
			if key {
				k.Runes = append([]rune(nil), k.Runes...)
				m = k
			} else {
				ms := m.(bento.MouseMsg)
				ms.X, ms.Y = 0, 0
				m = ms
			}
			if p, ok := pressed[n]; ok && what(p) != what(m) {
				rc.bad("P33", "ambiguous", "%s and %s are both called %q", what(p), what(m), trunc(n))
				return
			}
			pressed[n] = m
		}
		if n != want {
			rc.bad("P33", "name", "%s is called %q, not %q", what(m), trunc(n), trunc(want))
			return
		}
	}
	for n := range pasted {
		if p, ok := pressed[n]; ok {
			rc.bad("P33", "paste", "a pasted text is called %q, as is %s", trunc(n), what(p))
			return
		}
	}
}

// what describes an input message without calling it by its name.
func what(m bento.Msg) string {
	switch m := m.(type) {
	case bento.KeyMsg:
		if m.Type == bento.KeySpace { // typed or sent by the keypad
			m.Runes = nil
		}
		return fmt.Sprintf("the key with type %d, characters %q, alt %v, paste %v", int(m.Type), trunc(string(m.Runes)), m.Alt, m.Paste)
	case bento.MouseMsg:
		return fmt.Sprintf("the mouse event with button %d, action %d, shift %v, alt %v, ctrl %v", int(m.Button), int(m.Action), m.Shift, m.Alt, m.Ctrl)
	}
	return fmt.Sprintf("%T", m)
}
