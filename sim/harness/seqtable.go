package main

import "github.com/metafates/bento"

// keySeqs are the byte sequences terminals send for special keys.
var keySeqs = []struct {
	s string
	k bento.KeyMsg
}{
	{"\x1b[A", bento.KeyMsg{Type: bento.KeyUp}},
	{"\x1b[B", bento.KeyMsg{Type: bento.KeyDown}},
	{"\x1b[C", bento.KeyMsg{Type: bento.KeyRight}},
	{"\x1b[D", bento.KeyMsg{Type: bento.KeyLeft}},
	{"\x1b[1;2A", bento.KeyMsg{Type: bento.KeyShiftUp}},
	{"\x1b[1;2B", bento.KeyMsg{Type: bento.KeyShiftDown}},
	{"\x1b[1;2C", bento.KeyMsg{Type: bento.KeyShiftRight}},
	{"\x1b[1;2D", bento.KeyMsg{Type: bento.KeyShiftLeft}},
	{"\x1b[OA", bento.KeyMsg{Type: bento.KeyShiftUp}},
	{"\x1b[OB", bento.KeyMsg{Type: bento.KeyShiftDown}},
	{"\x1b[OC", bento.KeyMsg{Type: bento.KeyShiftRight}},
	{"\x1b[OD", bento.KeyMsg{Type: bento.KeyShiftLeft}},
	{"\x1b[a", bento.KeyMsg{Type: bento.KeyShiftUp}},
	{"\x1b[b", bento.KeyMsg{Type: bento.KeyShiftDown}},
	{"\x1b[c", bento.KeyMsg{Type: bento.KeyShiftRight}},
	{"\x1b[d", bento.KeyMsg{Type: bento.KeyShiftLeft}},
	{"\x1b[1;3A", bento.KeyMsg{Type: bento.KeyUp, Alt: true}},
	{"\x1b[1;3B", bento.KeyMsg{Type: bento.KeyDown, Alt: true}},
	{"\x1b[1;3C", bento.KeyMsg{Type: bento.KeyRight, Alt: true}},
	{"\x1b[1;3D", bento.KeyMsg{Type: bento.KeyLeft, Alt: true}},
	{"\x1b[1;4A", bento.KeyMsg{Type: bento.KeyShiftUp, Alt: true}},
	{"\x1b[1;4B", bento.KeyMsg{Type: bento.KeyShiftDown, Alt: true}},
	{"\x1b[1;4C", bento.KeyMsg{Type: bento.KeyShiftRight, Alt: true}},
	{"\x1b[1;4D", bento.KeyMsg{Type: bento.KeyShiftLeft, Alt: true}},
	{"\x1b[1;5A", bento.KeyMsg{Type: bento.KeyCtrlUp}},
	{"\x1b[1;5B", bento.KeyMsg{Type: bento.KeyCtrlDown}},
	{"\x1b[1;5C", bento.KeyMsg{Type: bento.KeyCtrlRight}},
	{"\x1b[1;5D", bento.KeyMsg{Type: bento.KeyCtrlLeft}},
	{"\x1b[Oa", bento.KeyMsg{Type: bento.KeyCtrlUp, Alt: true}},
	{"\x1b[Ob", bento.KeyMsg{Type: bento.KeyCtrlDown, Alt: true}},
	{"\x1b[Oc", bento.KeyMsg{Type: bento.KeyCtrlRight, Alt: true}},
	{"\x1b[Od", bento.KeyMsg{Type: bento.KeyCtrlLeft, Alt: true}},
	{"\x1b[1;6A", bento.KeyMsg{Type: bento.KeyCtrlShiftUp}},
	{"\x1b[1;6B", bento.KeyMsg{Type: bento.KeyCtrlShiftDown}},
	{"\x1b[1;6C", bento.KeyMsg{Type: bento.KeyCtrlShiftRight}},
	{"\x1b[1;6D", bento.KeyMsg{Type: bento.KeyCtrlShiftLeft}},
	{"\x1b[1;7A", bento.KeyMsg{Type: bento.KeyCtrlUp, Alt: true}},
	{"\x1b[1;7B", bento.KeyMsg{Type: bento.KeyCtrlDown, Alt: true}},
	{"\x1b[1;7C", bento.KeyMsg{Type: bento.KeyCtrlRight, Alt: true}},
	{"\x1b[1;7D", bento.KeyMsg{Type: bento.KeyCtrlLeft, Alt: true}},
	{"\x1b[1;8A", bento.KeyMsg{Type: bento.KeyCtrlShiftUp, Alt: true}},
	{"\x1b[1;8B", bento.KeyMsg{Type: bento.KeyCtrlShiftDown, Alt: true}},
	{"\x1b[1;8C", bento.KeyMsg{Type: bento.KeyCtrlShiftRight, Alt: true}},
	{"\x1b[1;8D", bento.KeyMsg{Type: bento.KeyCtrlShiftLeft, Alt: true}},
	{"\x1b[Z", bento.KeyMsg{Type: bento.KeyShiftTab}},
	{"\x1b[2~", bento.KeyMsg{Type: bento.KeyInsert}},
	{"\x1b[3;2~", bento.KeyMsg{Type: bento.KeyInsert, Alt: true}},
	{"\x1b[3~", bento.KeyMsg{Type: bento.KeyDelete}},
	{"\x1b[3;3~", bento.KeyMsg{Type: bento.KeyDelete, Alt: true}},
	{"\x1b[5~", bento.KeyMsg{Type: bento.KeyPgUp}},
	{"\x1b[5;3~", bento.KeyMsg{Type: bento.KeyPgUp, Alt: true}},
	{"\x1b[5;5~", bento.KeyMsg{Type: bento.KeyCtrlPgUp}},
	{"\x1b[5^", bento.KeyMsg{Type: bento.KeyCtrlPgUp}},
	{"\x1b[5;7~", bento.KeyMsg{Type: bento.KeyCtrlPgUp, Alt: true}},
	{"\x1b[6~", bento.KeyMsg{Type: bento.KeyPgDown}},
	{"\x1b[6;3~", bento.KeyMsg{Type: bento.KeyPgDown, Alt: true}},
	{"\x1b[6;5~", bento.KeyMsg{Type: bento.KeyCtrlPgDown}},
	{"\x1b[6^", bento.KeyMsg{Type: bento.KeyCtrlPgDown}},
	{"\x1b[6;7~", bento.KeyMsg{Type: bento.KeyCtrlPgDown, Alt: true}},
	{"\x1b[1~", bento.KeyMsg{Type: bento.KeyHome}},
	{"\x1b[H", bento.KeyMsg{Type: bento.KeyHome}},
	{"\x1b[1;3H", bento.KeyMsg{Type: bento.KeyHome, Alt: true}},
	{"\x1b[1;5H", bento.KeyMsg{Type: bento.KeyCtrlHome}},
	{"\x1b[1;7H", bento.KeyMsg{Type: bento.KeyCtrlHome, Alt: true}},
	{"\x1b[1;2H", bento.KeyMsg{Type: bento.KeyShiftHome}},
	{"\x1b[1;4H", bento.KeyMsg{Type: bento.KeyShiftHome, Alt: true}},
	{"\x1b[1;6H", bento.KeyMsg{Type: bento.KeyCtrlShiftHome}},
	{"\x1b[1;8H", bento.KeyMsg{Type: bento.KeyCtrlShiftHome, Alt: true}},
	{"\x1b[4~", bento.KeyMsg{Type: bento.KeyEnd}},
	{"\x1b[F", bento.KeyMsg{Type: bento.KeyEnd}},
	{"\x1b[1;3F", bento.KeyMsg{Type: bento.KeyEnd, Alt: true}},
	{"\x1b[1;5F", bento.KeyMsg{Type: bento.KeyCtrlEnd}},
	{"\x1b[1;7F", bento.KeyMsg{Type: bento.KeyCtrlEnd, Alt: true}},
	{"\x1b[1;2F", bento.KeyMsg{Type: bento.KeyShiftEnd}},
	{"\x1b[1;4F", bento.KeyMsg{Type: bento.KeyShiftEnd, Alt: true}},
	{"\x1b[1;6F", bento.KeyMsg{Type: bento.KeyCtrlShiftEnd}},
	{"\x1b[1;8F", bento.KeyMsg{Type: bento.KeyCtrlShiftEnd, Alt: true}},
	{"\x1b[7~", bento.KeyMsg{Type: bento.KeyHome}},
	{"\x1b[7^", bento.KeyMsg{Type: bento.KeyCtrlHome}},
	{"\x1b[7$", bento.KeyMsg{Type: bento.KeyShiftHome}},
	{"\x1b[7@", bento.KeyMsg{Type: bento.KeyCtrlShiftHome}},
	{"\x1b[8~", bento.KeyMsg{Type: bento.KeyEnd}},
	{"\x1b[8^", bento.KeyMsg{Type: bento.KeyCtrlEnd}},
	{"\x1b[8$", bento.KeyMsg{Type: bento.KeyShiftEnd}},
	{"\x1b[8@", bento.KeyMsg{Type: bento.KeyCtrlShiftEnd}},
	{"\x1b[[A", bento.KeyMsg{Type: bento.KeyF1}},
	{"\x1b[[B", bento.KeyMsg{Type: bento.KeyF2}},
	{"\x1b[[C", bento.KeyMsg{Type: bento.KeyF3}},
	{"\x1b[[D", bento.KeyMsg{Type: bento.KeyF4}},
	{"\x1b[[E", bento.KeyMsg{Type: bento.KeyF5}},
	{"\x1bOP", bento.KeyMsg{Type: bento.KeyF1}},
	{"\x1bOQ", bento.KeyMsg{Type: bento.KeyF2}},
	{"\x1bOR", bento.KeyMsg{Type: bento.KeyF3}},
	{"\x1bOS", bento.KeyMsg{Type: bento.KeyF4}},
	{"\x1b[1;3P", bento.KeyMsg{Type: bento.KeyF1, Alt: true}},
	{"\x1b[1;3Q", bento.KeyMsg{Type: bento.KeyF2, Alt: true}},
	{"\x1b[1;3R", bento.KeyMsg{Type: bento.KeyF3, Alt: true}},
	{"\x1b[1;3S", bento.KeyMsg{Type: bento.KeyF4, Alt: true}},
	{"\x1b[11~", bento.KeyMsg{Type: bento.KeyF1}},
	{"\x1b[12~", bento.KeyMsg{Type: bento.KeyF2}},
	{"\x1b[13~", bento.KeyMsg{Type: bento.KeyF3}},
	{"\x1b[14~", bento.KeyMsg{Type: bento.KeyF4}},
	{"\x1b[15~", bento.KeyMsg{Type: bento.KeyF5}},
	{"\x1b[15;3~", bento.KeyMsg{Type: bento.KeyF5, Alt: true}},
	{"\x1b[17~", bento.KeyMsg{Type: bento.KeyF6}},
	{"\x1b[18~", bento.KeyMsg{Type: bento.KeyF7}},
	{"\x1b[19~", bento.KeyMsg{Type: bento.KeyF8}},
	{"\x1b[20~", bento.KeyMsg{Type: bento.KeyF9}},
	{"\x1b[21~", bento.KeyMsg{Type: bento.KeyF10}},
	{"\x1b[17;3~", bento.KeyMsg{Type: bento.KeyF6, Alt: true}},
	{"\x1b[18;3~", bento.KeyMsg{Type: bento.KeyF7, Alt: true}},
	{"\x1b[19;3~", bento.KeyMsg{Type: bento.KeyF8, Alt: true}},
	{"\x1b[20;3~", bento.KeyMsg{Type: bento.KeyF9, Alt: true}},
	{"\x1b[21;3~", bento.KeyMsg{Type: bento.KeyF10, Alt: true}},
	{"\x1b[23~", bento.KeyMsg{Type: bento.KeyF11}},
	{"\x1b[24~", bento.KeyMsg{Type: bento.KeyF12}},
	{"\x1b[23;3~", bento.KeyMsg{Type: bento.KeyF11, Alt: true}},
	{"\x1b[24;3~", bento.KeyMsg{Type: bento.KeyF12, Alt: true}},
	{"\x1b[1;2P", bento.KeyMsg{Type: bento.KeyF13}},
	{"\x1b[1;2Q", bento.KeyMsg{Type: bento.KeyF14}},
	{"\x1b[25~", bento.KeyMsg{Type: bento.KeyF13}},
	{"\x1b[26~", bento.KeyMsg{Type: bento.KeyF14}},
	{"\x1b[25;3~", bento.KeyMsg{Type: bento.KeyF13, Alt: true}},
	{"\x1b[26;3~", bento.KeyMsg{Type: bento.KeyF14, Alt: true}},
	{"\x1b[1;2R", bento.KeyMsg{Type: bento.KeyF15}},
	{"\x1b[1;2S", bento.KeyMsg{Type: bento.KeyF16}},
	{"\x1b[28~", bento.KeyMsg{Type: bento.KeyF15}},
	{"\x1b[29~", bento.KeyMsg{Type: bento.KeyF16}},
	{"\x1b[28;3~", bento.KeyMsg{Type: bento.KeyF15, Alt: true}},
	{"\x1b[29;3~", bento.KeyMsg{Type: bento.KeyF16, Alt: true}},
	{"\x1b[15;2~", bento.KeyMsg{Type: bento.KeyF17}},
	{"\x1b[17;2~", bento.KeyMsg{Type: bento.KeyF18}},
	{"\x1b[18;2~", bento.KeyMsg{Type: bento.KeyF19}},
	{"\x1b[19;2~", bento.KeyMsg{Type: bento.KeyF20}},
	{"\x1b[31~", bento.KeyMsg{Type: bento.KeyF17}},
	{"\x1b[32~", bento.KeyMsg{Type: bento.KeyF18}},
	{"\x1b[33~", bento.KeyMsg{Type: bento.KeyF19}},
	{"\x1b[34~", bento.KeyMsg{Type: bento.KeyF20}},
}
