package termemu

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

// C12: what SendKey writes, against an encoder transcribed from keyboard-protocol.rst and a
// decoder of its own. Where the document leaves a choice every choice is accepted.

type vfKeyDef struct {
	code KeyCode
	name string
	num  int  // Kitty number
	fin  byte // Kitty final byte
	alt  int  // alternative number with '~', 0 for none
	leg  string
	kp   rune    // keypad: the text it stands for
	kpk  KeyCode // keypad: or the key it stands for
}

// leg: "ss3" F1-F4; "cur" cursor keys; "~" CSI number ~; "" CSI u in legacy mode too; other: special
var vfKeyDefs = []vfKeyDef{
	{KeyUp, "UP", 1, 'A', 0, "cur", 0, 0},
	{KeyDown, "DOWN", 1, 'B', 0, "cur", 0, 0},
	{KeyRight, "RIGHT", 1, 'C', 0, "cur", 0, 0},
	{KeyLeft, "LEFT", 1, 'D', 0, "cur", 0, 0},
	{KeyHome, "HOME", 1, 'H', 7, "cur", 0, 0},
	{KeyEnd, "END", 1, 'F', 8, "cur", 0, 0},
	{KeyInsert, "INSERT", 2, '~', 0, "~", 0, 0},
	{KeyDelete, "DELETE", 3, '~', 0, "~", 0, 0},
	{KeyPageUp, "PAGE_UP", 5, '~', 0, "~", 0, 0},
	{KeyPageDown, "PAGE_DOWN", 6, '~', 0, "~", 0, 0},
	{KeyBackspace, "BACKSPACE", 127, 'u', 0, "c0", 0, 0},
	{KeyTab, "TAB", 9, 'u', 0, "c0", 0, 0},
	{KeyEnter, "ENTER", 13, 'u', 0, "c0", 0, 0},
	{KeyEscape, "ESCAPE", 27, 'u', 0, "c0", 0, 0},
	{KeyF1, "F1", 1, 'P', 11, "ss3", 0, 0},
	{KeyF2, "F2", 1, 'Q', 12, "ss3", 0, 0},
	{KeyF3, "F3", 13, '~', 0, "f3", 0, 0},
	{KeyF4, "F4", 1, 'S', 14, "ss3", 0, 0},
	{KeyF5, "F5", 15, '~', 0, "~", 0, 0},
	{KeyF6, "F6", 17, '~', 0, "~", 0, 0},
	{KeyF7, "F7", 18, '~', 0, "~", 0, 0},
	{KeyF8, "F8", 19, '~', 0, "~", 0, 0},
	{KeyF9, "F9", 20, '~', 0, "~", 0, 0},
	{KeyF10, "F10", 21, '~', 0, "~", 0, 0},
	{KeyF11, "F11", 23, '~', 0, "~", 0, 0},
	{KeyF12, "F12", 24, '~', 0, "~", 0, 0},
	{KeyF13, "F13", 57376, 'u', 0, "", 0, 0},
	{KeyF14, "F14", 57377, 'u', 0, "", 0, 0},
	{KeyF15, "F15", 57378, 'u', 0, "", 0, 0},
	{KeyF16, "F16", 57379, 'u', 0, "", 0, 0},
	{KeyF17, "F17", 57380, 'u', 0, "", 0, 0},
	{KeyF18, "F18", 57381, 'u', 0, "", 0, 0},
	{KeyF19, "F19", 57382, 'u', 0, "", 0, 0},
	{KeyF20, "F20", 57383, 'u', 0, "", 0, 0},
	{KeyF21, "F21", 57384, 'u', 0, "", 0, 0},
	{KeyF22, "F22", 57385, 'u', 0, "", 0, 0},
	{KeyF23, "F23", 57386, 'u', 0, "", 0, 0},
	{KeyF24, "F24", 57387, 'u', 0, "", 0, 0},
	{KeyF25, "F25", 57388, 'u', 0, "", 0, 0},
	{KeyF26, "F26", 57389, 'u', 0, "", 0, 0},
	{KeyF27, "F27", 57390, 'u', 0, "", 0, 0},
	{KeyF28, "F28", 57391, 'u', 0, "", 0, 0},
	{KeyF29, "F29", 57392, 'u', 0, "", 0, 0},
	{KeyF30, "F30", 57393, 'u', 0, "", 0, 0},
	{KeyF31, "F31", 57394, 'u', 0, "", 0, 0},
	{KeyF32, "F32", 57395, 'u', 0, "", 0, 0},
	{KeyF33, "F33", 57396, 'u', 0, "", 0, 0},
	{KeyF34, "F34", 57397, 'u', 0, "", 0, 0},
	{KeyF35, "F35", 57398, 'u', 0, "", 0, 0},
	{KeyCapsLock, "CAPS_LOCK", 57358, 'u', 0, "lock", 0, 0},
	{KeyScrollLock, "SCROLL_LOCK", 57359, 'u', 0, "lock", 0, 0},
	{KeyNumLock, "NUM_LOCK", 57360, 'u', 0, "lock", 0, 0},
	{KeyPrintScreen, "PRINT_SCREEN", 57361, 'u', 0, "", 0, 0},
	{KeyPause, "PAUSE", 57362, 'u', 0, "", 0, 0},
	{KeyMenu, "MENU", 57363, 'u', 0, "menu", 0, 0},
	{KeyKP0, "KP_0", 57399, 'u', 0, "kp", '0', 0},
	{KeyKP1, "KP_1", 57400, 'u', 0, "kp", '1', 0},
	{KeyKP2, "KP_2", 57401, 'u', 0, "kp", '2', 0},
	{KeyKP3, "KP_3", 57402, 'u', 0, "kp", '3', 0},
	{KeyKP4, "KP_4", 57403, 'u', 0, "kp", '4', 0},
	{KeyKP5, "KP_5", 57404, 'u', 0, "kp", '5', 0},
	{KeyKP6, "KP_6", 57405, 'u', 0, "kp", '6', 0},
	{KeyKP7, "KP_7", 57406, 'u', 0, "kp", '7', 0},
	{KeyKP8, "KP_8", 57407, 'u', 0, "kp", '8', 0},
	{KeyKP9, "KP_9", 57408, 'u', 0, "kp", '9', 0},
	{KeyKPDecimal, "KP_DECIMAL", 57409, 'u', 0, "kp", '.', 0},
	{KeyKPDivide, "KP_DIVIDE", 57410, 'u', 0, "kp", '/', 0},
	{KeyKPMultiply, "KP_MULTIPLY", 57411, 'u', 0, "kp", '*', 0},
	{KeyKPSubtract, "KP_SUBTRACT", 57412, 'u', 0, "kp", '-', 0},
	{KeyKPAdd, "KP_ADD", 57413, 'u', 0, "kp", '+', 0},
	{KeyKPEnter, "KP_ENTER", 57414, 'u', 0, "kp", 0, KeyEnter},
	{KeyKPEqual, "KP_EQUAL", 57415, 'u', 0, "kp", '=', 0},
	{KeyKPSeparator, "KP_SEPARATOR", 57416, 'u', 0, "kp", ',', 0},
	{KeyKPLeft, "KP_LEFT", 57417, 'u', 0, "kp", 0, KeyLeft},
	{KeyKPRight, "KP_RIGHT", 57418, 'u', 0, "kp", 0, KeyRight},
	{KeyKPUp, "KP_UP", 57419, 'u', 0, "kp", 0, KeyUp},
	{KeyKPDown, "KP_DOWN", 57420, 'u', 0, "kp", 0, KeyDown},
	{KeyKPPageUp, "KP_PAGE_UP", 57421, 'u', 0, "kp", 0, KeyPageUp},
	{KeyKPPageDown, "KP_PAGE_DOWN", 57422, 'u', 0, "kp", 0, KeyPageDown},
	{KeyKPHome, "KP_HOME", 57423, 'u', 0, "kp", 0, KeyHome},
	{KeyKPEnd, "KP_END", 57424, 'u', 0, "kp", 0, KeyEnd},
	{KeyKPInsert, "KP_INSERT", 57425, 'u', 0, "kp", 0, KeyInsert},
	{KeyKPDelete, "KP_DELETE", 57426, 'u', 0, "kp", 0, KeyDelete},
	{KeyKPBegin, "KP_BEGIN", 1, 'E', 57427, "begin", 0, 0},
	{KeyMediaPlay, "MEDIA_PLAY", 57428, 'u', 0, "", 0, 0},
	{KeyMediaPause, "MEDIA_PAUSE", 57429, 'u', 0, "", 0, 0},
	{KeyMediaPlayPause, "MEDIA_PLAY_PAUSE", 57430, 'u', 0, "", 0, 0},
	{KeyMediaReverse, "MEDIA_REVERSE", 57431, 'u', 0, "", 0, 0},
	{KeyMediaStop, "MEDIA_STOP", 57432, 'u', 0, "", 0, 0},
	{KeyMediaFastForward, "MEDIA_FAST_FORWARD", 57433, 'u', 0, "", 0, 0},
	{KeyMediaRewind, "MEDIA_REWIND", 57434, 'u', 0, "", 0, 0},
	{KeyMediaTrackNext, "MEDIA_TRACK_NEXT", 57435, 'u', 0, "", 0, 0},
	{KeyMediaTrackPrev, "MEDIA_TRACK_PREVIOUS", 57436, 'u', 0, "", 0, 0},
	{KeyMediaRecord, "MEDIA_RECORD", 57437, 'u', 0, "", 0, 0},
	{KeyVolumeDown, "LOWER_VOLUME", 57438, 'u', 0, "", 0, 0},
	{KeyVolumeUp, "RAISE_VOLUME", 57439, 'u', 0, "", 0, 0},
	{KeyVolumeMute, "MUTE_VOLUME", 57440, 'u', 0, "", 0, 0},
	{KeyLeftShift, "LEFT_SHIFT", 57441, 'u', 0, "mod", 0, 0},
	{KeyLeftControl, "LEFT_CONTROL", 57442, 'u', 0, "mod", 0, 0},
	{KeyLeftAlt, "LEFT_ALT", 57443, 'u', 0, "mod", 0, 0},
	{KeyLeftSuper, "LEFT_SUPER", 57444, 'u', 0, "mod", 0, 0},
	{KeyLeftHyper, "LEFT_HYPER", 57445, 'u', 0, "mod", 0, 0},
	{KeyLeftMeta, "LEFT_META", 57446, 'u', 0, "mod", 0, 0},
	{KeyRightShift, "RIGHT_SHIFT", 57447, 'u', 0, "mod", 0, 0},
	{KeyRightControl, "RIGHT_CONTROL", 57448, 'u', 0, "mod", 0, 0},
	{KeyRightAlt, "RIGHT_ALT", 57449, 'u', 0, "mod", 0, 0},
	{KeyRightSuper, "RIGHT_SUPER", 57450, 'u', 0, "mod", 0, 0},
	{KeyRightHyper, "RIGHT_HYPER", 57451, 'u', 0, "mod", 0, 0},
	{KeyRightMeta, "RIGHT_META", 57452, 'u', 0, "mod", 0, 0},
	{KeyISOLevel3Shift, "ISO_LEVEL3_SHIFT", 57453, 'u', 0, "mod", 0, 0},
	{KeyISOLevel5Shift, "ISO_LEVEL5_SHIFT", 57454, 'u', 0, "mod", 0, 0},
}

var (
	vfKeyByCode = map[KeyCode]*vfKeyDef{}
	vfKeyByNum  = map[string]KeyCode{} // "number final"
)

const (
	vfShift, vfAlt, vfCtrl, vfSuper, vfHyper, vfMeta = 1, 2, 4, 8, 16, 32
	vfCaps, vfNum                                    = 64, 128
	vfLocks                                          = 192
	vfFD, vfFE, vfFA, vfFK, vfFT                     = 1, 2, 4, 8, 16
)

type vfKeyCfg struct {
	flags, mok  int
	app, keypad bool
	alt         bool
}

// vfAccept is a set of acceptable encodings.
type vfAccept struct {
	s    []string
	skip bool
}

func (a *vfAccept) add(s ...string) { a.s = append(a.s, s...) }

func (a *vfAccept) has(s string) bool {
	for _, x := range a.s {
		if x == s {
			return true
		}
	}
	return false
}

// vfModFields lists the acceptable modifier fields.
func vfModFields(m int, event KeyEventType, events bool) []string {
	n := strconv.Itoa(m + 1)
	if events && event != KeyPress {
		return []string{n + ":" + strconv.Itoa(int(event))}
	}
	f := []string{n}
	if events {
		f = append(f, n+":1")
	}
	if m == 0 {
		f[0] = ""
	}
	return f
}

// vfCSI assembles key;mods;text final.
func vfCSI(key, mods, text string, fin byte) string {
	if text != "" && mods == "" {
		mods = "1"
	}
	s := key
	if mods != "" {
		s += ";" + mods
	}
	if text != "" {
		s += ";" + text
	}
	if fin != 'u' && fin != '~' && mods == "" {
		s = ""
	}
	return "\x1b[" + s + string(fin)
}

func vfNumField(code rune, ev *KeyEvent, flags int) string {
	s := strconv.Itoa(int(code))
	if flags&vfFA == 0 {
		return s
	}
	sh, base := "", ""
	if ev.Mod&vfShift != 0 && ev.Shifted != 0 {
		sh = strconv.Itoa(int(ev.Shifted))
	}
	if ev.BaseLayout != 0 {
		base = strconv.Itoa(int(ev.BaseLayout))
	}
	switch {
	case base != "":
		return s + ":" + sh + ":" + base
	case sh != "":
		return s + ":" + sh
	}
	return s
}

func vfTextField(rs []rune) string {
	var p []string
	for _, r := range rs {
		if r < 0x20 || r >= 0x7f && r < 0xa0 {
			continue
		}
		p = append(p, strconv.Itoa(int(r)))
	}
	return strings.Join(p, ":")
}

// vfKittyKey: the functional keys and those with a C0 number.
func (a *vfAccept) kittyKey(d *vfKeyDef, ev *KeyEvent, m int, event KeyEventType, flags int, texts ...string) {
	if len(texts) == 0 {
		texts = []string{""}
	}
	for _, mf := range vfModFields(m, event, flags&vfFE != 0) {
		for _, tx := range texts {
			if d.fin == 'u' {
				a.add(vfCSI(vfNumField(rune(d.num), ev, flags), mf, tx, 'u'))
				if ev.Shifted != 0 || ev.BaseLayout != 0 {
					// alternates of a key that has none
					a.add(vfCSI(strconv.Itoa(d.num), mf, tx, 'u'))
				}
				continue
			}
			a.add(vfCSI(strconv.Itoa(d.num), mf, "", d.fin))
			if d.alt != 0 {
				a.add(vfCSI(strconv.Itoa(d.alt), mf, "", '~'))
			}
		}
	}
}

// legacyKey: functional keys in legacy mode.
func (a *vfAccept) legacyKey(d *vfKeyDef, m int, app bool) {
	m &^= vfLocks
	mod := strconv.Itoa(m + 1)
	switch d.leg {
	case "cur":
		switch {
		case m != 0:
			a.add("\x1b[1;" + mod + string(d.fin))
		case app:
			a.add("\x1bO" + string(d.fin))
		default:
			a.add("\x1b[" + string(d.fin))
		}
	case "~", "menu":
		n := d.num
		if d.leg == "menu" {
			n = 29
		}
		if m == 0 {
			a.add(fmt.Sprintf("\x1b[%d~", n))
		} else {
			a.add(fmt.Sprintf("\x1b[%d;%s~", n, mod))
		}
	case "ss3", "f3":
		fin := string(d.fin)
		if d.leg == "f3" {
			fin = "R"
			if m != 0 {
				a.add("\x1b[13;" + mod + "~")
			}
		}
		if m == 0 {
			a.add("\x1bO" + fin)
		} else {
			a.add("\x1b[1;" + mod + fin)
		}
	default:
		if m == 0 {
			a.add(fmt.Sprintf("\x1b[%du", d.num))
		} else {
			a.add(fmt.Sprintf("\x1b[%d;%su", d.num, mod))
		}
	}
}

// legacyC0: Enter, Escape, Backspace and Tab in legacy mode.
func (a *vfAccept) legacyC0(d *vfKeyDef, m int) {
	m &^= vfLocks
	if m&(vfSuper|vfHyper|vfMeta) != 0 {
		a.add(fmt.Sprintf("\x1b[%d;%du", d.num, m+1))
		return
	}
	body := string(rune(d.num))
	switch {
	case d.code == KeyBackspace && m&vfCtrl != 0:
		body = "\b"
	case d.code == KeyTab && m&vfShift != 0:
		body = "\x1b[Z"
	}
	if m&vfAlt != 0 {
		body = "\x1b" + body
	}
	a.add(body)
	if m&(vfAlt|vfCtrl|vfShift) == vfAlt|vfCtrl|vfShift {
		a.add(fmt.Sprintf("\x1b[%d;%du", d.num, m+1))
	}
}

func vfMok(m, code int) string { return fmt.Sprintf("\x1b[27;%d;%d~", m+1, code) }

var vfCtrlTable = map[rune]byte{
	' ': 0, '/': 31, '0': 48, '1': 49, '2': 0, '3': 27, '4': 28, '5': 29, '6': 30, '7': 31, '8': 127, '9': 57, '?': 127, '@': 0,
	'[': 27, '\\': 28, ']': 29, '^': 30, '_': 31, '~': 30,
}

func vfCtrlByte(r rune) string {
	if r >= 'a' && r <= 'z' {
		return string(r - 96)
	}
	if r >= 'A' && r <= 'Z' {
		return string(r - 64)
	}
	if b, ok := vfCtrlTable[r]; ok {
		return string(rune(b))
	}
	return string(r)
}

// vfBase picks a base layout key: any, or one that is close to the key's other codes.
func vfBase(r *vfRand, ev *KeyEvent) rune {
	if r.p(50) {
		b := vfPick(r, []rune{ev.Rune, ev.Rune ^ 32, ev.Rune - 32, ev.Rune + 32, ev.Rune - 1, ev.Rune + 1, ev.Rune + 128, ev.Rune + 256, ev.Shifted, ev.Shifted + 1, 1, 27, 127, 128, 255, 256, 0x3b1, 0x10ffff})
		if b > 0 && b <= 0x10ffff {
			return b
		}
	}
	return vfPick(r, []rune{'c', 'q', ';'})
}

// vfShiftedOf is the character a text key produces with shift, and whether it is known.
func vfShiftedOf(ev *KeyEvent) (rune, bool) {
	switch {
	case unicode.IsUpper(ev.Rune):
		return ev.Rune, ev.Shifted == 0 || ev.Shifted == ev.Rune
	case ev.Shifted != 0:
		return ev.Shifted, true
	case unicode.IsLower(ev.Rune):
		u := unicode.ToUpper(ev.Rune)
		return u, u != ev.Rune && unicode.ToLower(u) == ev.Rune
	}
	return ev.Rune, ev.Rune == ' '
}

func vfKeySpec(ev KeyEvent, cfg *vfKeyCfg) (a vfAccept) {
	F, m := cfg.flags, int(ev.Mod)
	event := ev.Event
	if event == 0 {
		event = KeyPress
	}
	if event == KeyRelease && F&vfFE == 0 {
		a.add("")
		return
	}
	esc := F&(vfFD|vfFK) != 0 // keys without text are escape codes
	tm := m &^ vfLocks
	texts := []string{""}
	if F&vfFK != 0 && F&vfFT != 0 {
		texts[0] = vfTextField(ev.Text)
		if texts[0] != "" && event == KeyRelease {
			texts = append(texts, "")
		}
	}
	if ev.Code == KeyRune {
		a.textKey(ev, cfg, event)
		return
	}
	d := vfKeyByCode[ev.Code]
	switch d.leg {
	case "mod":
		if F&vfFK == 0 {
			a.add("")
			return
		}
		a.kittyKey(d, &ev, m, event, F, texts...)
	case "lock":
		if F&vfFK == 0 {
			a.add("")
			for _, l := range []int{m, tm} {
				for _, mf := range vfModFields(l, event, F&vfFE != 0) {
					a.add(vfCSI(vfNumField(rune(d.num), &ev, F), mf, "", 'u'), vfCSI(strconv.Itoa(d.num), mf, "", 'u'))
				}
			}
			return
		}
		a.kittyKey(d, &ev, m, event, F, texts...)
	case "c0":
		switch {
		case F&vfFK != 0:
			a.kittyKey(d, &ev, m, event, F, texts...)
		case ev.Code == KeyEscape:
			if F&vfFD != 0 {
				a.kittyKey(d, &ev, m, event, F)
				return
			}
			if event != KeyRelease {
				a.legacyMok(d, tm, cfg)
			} else {
				a.add("")
			}
			if F != 0 { // reporting events, or nothing that concerns it
				a.kittyKey(d, &ev, m, event, F)
				a.kittyKey(d, &ev, tm, event, F)
			}
		case event == KeyRelease:
			a.add("")
		default:
			a.legacyMok(d, tm, cfg)
			if F != 0 && (tm != 0 || F&vfFE != 0 && event == KeyRepeat) {
				a.kittyKey(d, &ev, tm, event, F)
				a.kittyKey(d, &ev, m, event, F)
			}
		}
	case "kp":
		if esc && (d.kp == 0 || tm != 0 || F&vfFK != 0) {
			if d.kp != 0 {
				if texts[0] == "" && F&vfFK != 0 && F&vfFT != 0 && tm&^vfShift == 0 {
					texts = append(texts, strconv.Itoa(int(d.kp)))
				}
				if F&vfFK == 0 {
					a.kittyKey(d, &ev, tm, event, F, texts...)
				}
			}
			a.kittyKey(d, &ev, m, event, F, texts...)
			if F&vfFK == 0 && tm == vfShift && d.kp != 0 {
				a.skip = true // text or not
			}
			return
		}
		if esc { // text without modifiers under disambiguate
			a.kittyKey(d, &ev, m, event, F)
			a.kittyKey(d, &ev, tm, event, F)
			a.add(string(d.kp))
			if event == KeyRelease {
				a.add("")
			}
			return
		}
		ev.Code, ev.Rune = d.kpk, d.kp
		if d.kp != 0 {
			ev.Code = KeyRune
		}
		if ev.Code == KeyRune && m&vfShift != 0 && ev.Shifted == 0 {
			ev.Shifted = d.kp
			b := vfKeySpec(ev, cfg)
			ev.Shifted = 0
			c := vfKeySpec(ev, cfg)
			a.add(append(b.s, c.s...)...)
			a.skip = b.skip
			return
		}
		return vfKeySpec(ev, cfg)
	case "begin":
		if esc {
			a.kittyKey(d, &ev, m, event, F, texts...)
			return
		}
		b := vfKeySpec(KeyEvent{Code: KeyRune, Rune: '5', Shifted: '5', Mod: ev.Mod, Event: ev.Event, BaseLayout: ev.BaseLayout, Text: ev.Text}, cfg)
		a.add(b.s...)
		b = vfKeySpec(KeyEvent{Code: KeyRune, Rune: '5', Shifted: ev.Shifted, Mod: ev.Mod, Event: ev.Event, BaseLayout: ev.BaseLayout, Text: ev.Text}, cfg)
		a.add(b.s...)
		a.kittyKey(d, &ev, m, event, F)
		a.kittyKey(d, &ev, tm, event, F)
		a.add("\x1bOE")
		a.skip = m&vfShift != 0
	default:
		if F == 0 {
			a.legacyKey(d, m, cfg.app)
			return
		}
		a.kittyKey(d, &ev, m, event, F, texts...)
		if !esc && event == KeyPress {
			a.legacyKey(d, m, cfg.app)
		}
		if !esc && F&vfFE == 0 {
			a.legacyKey(d, m, cfg.app)
		}
	}
	return
}

// legacyMok: a C0 key without Kitty flags that concern it.
func (a *vfAccept) legacyMok(d *vfKeyDef, tm int, cfg *vfKeyCfg) {
	if cfg.flags != 0 || cfg.mok == 0 || tm == 0 {
		a.legacyC0(d, tm)
		return
	}
	a.add(vfMok(tm, d.num))
	switch {
	case cfg.mok != 2, d.code == KeyTab && tm == vfShift:
		a.legacyC0(d, tm)
	case tm&(vfSuper|vfHyper|vfMeta) != 0:
		a.legacyC0(d, tm)
	}
}

func (a *vfAccept) textKey(ev KeyEvent, cfg *vfKeyCfg, event KeyEventType) {
	F, m := cfg.flags, int(ev.Mod)
	r := ev.Rune
	tm := m &^ vfLocks
	shift := m&vfShift != 0
	upper := unicode.IsUpper(r)
	sh, known := r, true
	if shift {
		if sh, known = vfShiftedOf(&ev); !known {
			a.skip = true
			return
		}
	}
	base := r
	alt := ev // with the shifted key
	if shift && upper {
		base = unicode.ToLower(r)
		if unicode.ToUpper(base) != r || base == r {
			a.skip = true
			return
		}
		alt.Shifted = r
	}
	other := tm &^ vfShift
	// The text, when only shift matters.
	plain := []rune{sh}
	if m&vfCaps != 0 && unicode.IsLetter(r) {
		plain = append(plain, unicode.ToUpper(sh), unicode.ToLower(sh))
	}
	fields := []string{vfNumField(base, &alt, F)}
	if shift && !upper && ev.Shifted == 0 && unicode.IsLower(r) {
		alt.Shifted = sh
		fields = append(fields, vfNumField(base, &alt, F))
	}
	csi := func(mods int, flags int, texts ...string) {
		if upper && !shift {
			a.skip = true // not the unshifted key
			return
		}
		for _, kf := range fields {
			for _, mf := range vfModFields(mods, event, flags&vfFE != 0) {
				for _, tx := range texts {
					a.add(vfCSI(kf, mf, tx, 'u'))
				}
			}
		}
	}
	text := func() {
		for _, p := range plain {
			a.add(string(p))
		}
		if len(ev.Text) > 0 {
			a.add(string(ev.Text))
		}
	}
	if F&vfFK != 0 {
		texts := []string{""}
		if F&vfFT != 0 {
			if len(ev.Text) > 0 {
				texts[0] = vfTextField(ev.Text)
			} else if other == 0 {
				texts = texts[:0]
				for _, p := range plain {
					texts = append(texts, vfTextField([]rune{p}))
				}
			}
			if event == KeyRelease {
				texts = append(texts, "")
			}
		}
		csi(m, F, texts...)
		return
	}
	if F&vfFD != 0 {
		if other != 0 {
			csi(tm, F, "")
			return
		}
		if event == KeyRelease {
			a.add("")
			return
		}
		text()
		return
	}
	// Legacy, or flags that concern only escape codes.
	if other == 0 && (F != 0 || cfg.mok == 0 || tm == 0) {
		if event == KeyRelease {
			a.add("")
			return
		}
		text()
		return
	}
	if event != KeyPress && F&vfFE != 0 {
		// Whether these keys have events without an escape code is left open.
		csi(tm, F, "")
		csi(m, F, "")
		a.add("")
	}
	legacy := func() {
		odd := other&(vfSuper|vfHyper|vfMeta) != 0 || other&vfCtrl != 0 && shift && r != ' '
		if odd || r == ' ' && tm == vfCtrl|vfShift|vfAlt {
			csi(tm, F, "")
			csi(tm, 0, "")
			if F&vfFA != 0 { // the alternates may be left out
				a.add(vfCSI(strconv.Itoa(int(base)), strconv.Itoa(tm+1), "", 'u'))
			}
			if odd {
				return
			}
		}
		if r >= 0x80 && other != 0 {
			a.skip = true
			return
		}
		pre := ""
		if other&vfAlt != 0 {
			pre = "\x1b"
		}
		if other&vfCtrl != 0 {
			a.add(pre + vfCtrlByte(r))
			return
		}
		for _, p := range plain {
			a.add(pre + string(p))
		}
	}
	if F != 0 || cfg.mok == 0 {
		legacy()
		return
	}
	for _, c := range []rune{r, base, sh} {
		a.add(vfMok(tm, int(c)))
	}
	switch {
	case other == 0:
		text()
	case cfg.mok != 2, other&(vfSuper|vfHyper|vfMeta) != 0:
		legacy()
	}
}

// vfKeyDecoded is what an application makes of an escape code.
type vfKeyDecoded struct {
	code    KeyCode
	r       rune
	mods    int
	event   KeyEventType
	shifted rune
	base    rune
	text    string
}

// vfDecodeKey reads CSI u, CSI ~ and CSI letter forms.
func vfDecodeKey(s string) (d vfKeyDecoded, ok bool) {
	if len(s) < 3 || s[:2] != "\x1b[" || s == "\x1b[Z" {
		return
	}
	fin := s[len(s)-1]
	fields := strings.Split(s[2:len(s)-1], ";")
	num := 1
	if fields[0] != "" {
		for i, f := range strings.Split(fields[0], ":") {
			n, err := strconv.Atoi(f)
			if f == "" && i == 1 {
				continue
			}
			if err != nil || i > 2 {
				return
			}
			switch i {
			case 0:
				num = n
			case 1:
				d.shifted = rune(n)
			case 2:
				d.base = rune(n)
			}
		}
	}
	d.event = KeyPress
	if len(fields) > 1 {
		a, b, ev := strings.Cut(fields[1], ":")
		n, err := strconv.Atoi(a)
		if err != nil || n < 1 || n > 256 {
			return
		}
		d.mods = n - 1
		if ev {
			e, err := strconv.Atoi(b)
			if err != nil || e < 1 || e > 3 {
				return
			}
			d.event = KeyEventType(e)
		}
	}
	if fin == '~' && num == 27 && len(fields) == 3 {
		n, err := strconv.Atoi(fields[2])
		if err != nil {
			return
		}
		num, fin = n, 'u'
	} else if len(fields) > 2 {
		if fin != 'u' || len(fields) > 3 {
			return
		}
		d.text = fields[2]
	}
	if fin == 'R' && num == 1 {
		d.code = KeyF3
		return d, true
	}
	if fin == '~' && num == 29 {
		d.code = KeyMenu
		return d, true
	}
	if c, found := vfKeyByNum[fmt.Sprintf("%d %c", num, fin)]; found {
		d.code = c
		return d, true
	}
	if fin != 'u' || num >= 57344 && num <= 63743 {
		return
	}
	d.code, d.r = KeyRune, rune(num)
	return d, true
}

func vfKeyName(ev KeyEvent) string {
	n := "?"
	if ev.Code == KeyRune {
		n = fmt.Sprintf("rune %q", ev.Rune)
	} else if d := vfKeyByCode[ev.Code]; d != nil {
		n = d.name
	}
	return fmt.Sprintf("{%s mods %08b event %d shifted %q base %q text %q}", n, ev.Mod, ev.Event, ev.Shifted, ev.BaseLayout, string(ev.Text))
}

type vfKeyRig struct {
	s     *vfSess
	cfg   vfKeyCfg
	other int // flags of the screen not shown
}

// vfNewKeyRig brings a terminal into a configuration with the application's own sequences.
func vfNewKeyRig(cfg vfKeyCfg, r *vfRand) *vfKeyRig {
	s := newVFSess(8, 3, TextReadModeRune, false)
	s.resize = true
	in := ""
	if cfg.alt {
		// The main screen has other flags.
		in += fmt.Sprintf("\x1b[=%du\x1b[?1049h", 31&^cfg.flags)
	}
	switch r.n(3) {
	case 0:
		in += fmt.Sprintf("\x1b[=%du", cfg.flags)
	case 1:
		in += fmt.Sprintf("\x1b[=%du\x1b[>%du", r.n(32), cfg.flags)
	default:
		x := r.n(32)
		in += fmt.Sprintf("\x1b[=%du\x1b[=%d;2u\x1b[=%d;3u", x, cfg.flags, x&^cfg.flags)
	}
	in += fmt.Sprintf("\x1b[>4;%dm", cfg.mok)
	b := map[bool]string{true: "h", false: "l"}
	in += "\x1b[?1" + b[cfg.app] + map[bool]string{true: "\x1b=", false: "\x1b>"}[cfg.keypad]
	k := &vfKeyRig{s: s, cfg: cfg}
	if cfg.alt {
		k.other = 31 &^ cfg.flags
	}
	if s.feed(in) != nil {
		return nil // C01
	}
	s.be.out = s.be.out[:0]
	return k
}

// reconfigure changes part of the configuration of a rig in use.
func (k *vfKeyRig) reconfigure(r *vfRand) bool {
	in := ""
	onoff := map[bool]string{true: "h", false: "l"}
	for n := r.in(1, 2); n > 0; n-- {
		switch r.n(6) {
		case 0, 1:
			f := r.n(32)
			if r.p(40) {
				f = k.cfg.flags ^ 1<<r.n(5)
			}
			switch {
			case r.p(30):
				in += fmt.Sprintf("\x1b[>%du", f)
			case r.p(20):
				in += fmt.Sprintf("\x1b[<u\x1b[=%du", f)
			case r.p(30):
				in += fmt.Sprintf("\x1b[=%d;2u\x1b[=%d;3u", f&^k.cfg.flags, k.cfg.flags&^f)
			default:
				in += fmt.Sprintf("\x1b[=%du", f)
			}
			k.cfg.flags = f
		case 2:
			k.cfg.alt = !k.cfg.alt
			in += "\x1b[?1049" + onoff[k.cfg.alt]
			k.cfg.flags, k.other = k.other, k.cfg.flags
		case 3:
			k.cfg.mok = r.n(3)
			in += fmt.Sprintf("\x1b[>4;%dm", k.cfg.mok)
		case 4:
			k.cfg.app = !k.cfg.app
			in += "\x1b[?1" + onoff[k.cfg.app]
		default:
			k.cfg.keypad = !k.cfg.keypad
			in += map[bool]string{true: "\x1b=", false: "\x1b>"}[k.cfg.keypad]
		}
	}
	if r.p(20) {
		in += vfPick(r, []string{"a", "\r\n", "\x1b[2J", "\x1b[31mx\x1b[m", "\x1b[?25l", "\x1b]0;x\a", "\x1b[?2004h", "\x1b[?1000h"})
	}
	if k.s.feed(in) != nil {
		return false
	}
	switch r.n(12) { // neither the size nor the frontend has a say
	case 0, 1:
		_ = k.s.t.Resize(vfPick(r, []int{r.in(1, 30), 80, 132}), r.in(1, 30))
	case 2:
		k.s.t.SetFrontend(k.s.fe)
	}
	return true
}

// check sends one event and judges the bytes.
func (k *vfKeyRig) check(c *vfCtx, ev KeyEvent) {
	want := vfKeySpec(ev, &k.cfg)
	if want.skip {
		c.res.Counters["events whose encoding is left open"]++
		return
	}
	k.s.be.out = k.s.be.out[:0]
	if ev.Text != nil {
		// The tables stay out of the library's reach, and an event that is
		// sent again is the same event.
		ev.Text = append(make([]rune, 0, len(ev.Text)+2), ev.Text...)
		if ev.Mod&3 == 0 {
			_, _ = k.s.t.SendKey(ev)
			k.s.be.out = k.s.be.out[:0]
		}
	}
	n, err := k.s.t.SendKey(ev)
	out := k.s.be.out
	got := string(out)
	F := k.cfg.flags
	trivial := len(out) == 0 || len(out) == 1 && out[0] >= 0x20
	h := vfHashStr(got) ^ uint64(F)<<40 ^ uint64(k.cfg.mok)<<50 ^ uint64(ev.Code)<<54
	c.eval(!trivial, vfMix(h))
	bad := ""
	switch {
	case err != nil || n != len(out):
		bad = fmt.Sprintf("SendKey returned %d, %v for %d bytes", n, err, len(out))
	case !want.has(got):
		bad = fmt.Sprintf("wrote %q, want one of %q", got, want.s)
	case len(out) > 2 && out[0] == 0x1b && out[1] == '[' && got != "\x1b[Z":
		d, ok := vfDecodeKey(got)
		code, r := ev.Code, rune(0)
		if ev.Code == KeyRune {
			r = ev.Rune
			if ev.Mod&ModShift != 0 && d.r == unicode.ToLower(r) {
				r = d.r
			}
			if d.r == ev.Shifted && F == 0 {
				r = d.r // modifyOtherKeys sends the shifted character
			}
			if F == 0 && d.r == unicode.ToUpper(r) {
				r = d.r
			}
		}
		if def := vfKeyByCode[ev.Code]; def != nil && def.leg == "kp" || ev.Code == KeyKPBegin {
			if d.code == KeyRune || d.code != ev.Code && F&(vfFD|vfFK) == 0 {
				code, r = d.code, d.r
			}
		}
		event := ev.Event
		if event == 0 || F&vfFE == 0 {
			event = KeyPress
		}
		if event == KeyRepeat && F&(vfFD|vfFK) == 0 {
			event = d.event
		}
		mods := int(ev.Mod)
		if d.mods&vfLocks == 0 {
			mods &^= vfLocks
		}
		if !ok || d.code != code || d.r != r || d.mods != mods || d.event != event {
			bad = fmt.Sprintf("%q decodes to %+v", got, d)
		}
		c.res.Counters["escape codes decoded back"]++
	}
	if bad != "" {
		c.violate(fmt.Sprintf("%s: %s", vfKeyName(ev), bad), fmt.Sprintf("flags %d modifyOtherKeys %d application cursor %v keypad %v alternate screen %v\nevent %s\n%s", F, k.cfg.mok, k.cfg.app, k.cfg.keypad, k.cfg.alt, vfKeyName(ev), bad))
	}
}

var vfKeyTexts = [][]rune{nil, {'x'}, {'é', 'x'}, {'a', 0x301}, {0x1b, 'q', 0x85}, {'\r'}, {0x1f600},
	{'a', 'a'}, {'l', 'l', 'x', 'l'}, {'世', '世'}, {';', ':'}, {'0'}, {'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j'}, {0x7f, 'x'}, {0xa0, ' '}, {0x1f468, 0x200d, 0x1f469}, {'x', '\t', 'x'}}

// vfRandKey returns a key event of any kind.
func vfRandKey(r *vfRand) KeyEvent {
	ev := KeyEvent{Mod: KeyMod(r.n(256)), Event: KeyEventType(r.n(4))}
	if r.p(60) {
		ev.Mod &= vfPick(r, []KeyMod{0, ModShift, ModCtrl, ModAlt, ModShift | ModCtrl, 15})
	}
	if r.p(50) {
		ev.Code = vfKeyDefs[r.n(len(vfKeyDefs))].code
		return ev
	}
	ev.Code = KeyRune
	ev.Rune = rune(r.in(0x20, 0x7e))
	if r.p(20) {
		ev.Rune = vfRandRune(r)
	}
	if r.p(30) && !unicode.IsUpper(ev.Rune) {
		ev.Shifted = vfPick(r, []rune{unicode.ToUpper(ev.Rune), '#', '%', 'É'})
	}
	if r.p(20) {
		ev.BaseLayout = vfBase(r, &ev)
	}
	if r.p(20) {
		ev.Text = vfPick(r, vfKeyTexts)
	}
	return ev
}

// vfKeyHistory sends the same few events, and close relatives of them, again
// and again to one terminal whose modes change in between.
func vfKeyHistory(c *vfCtx, r *vfRand, cfg vfKeyCfg) {
	k := vfNewKeyRig(cfg, r)
	if k == nil {
		c.count("configurations that could not be set", 1)
		return
	}
	var pool []KeyEvent
	for n := r.in(2, 8); n > 0; n-- {
		pool = append(pool, vfRandKey(r))
	}
	for n := r.in(1, 8); n > 0; n-- {
		ev := vfPick(r, pool)
		switch r.n(5) {
		case 0:
			ev.Event = KeyEventType(r.n(4))
		case 1:
			ev.Mod ^= 1 << r.n(8)
		case 2:
			if ev.Code == KeyRune {
				ev.Text = vfPick(r, vfKeyTexts)
			}
		case 3:
			if ev.Code == KeyRune {
				ev.BaseLayout = vfBase(r, &ev)
			}
		default:
			if ev.Code == KeyRune && !unicode.IsUpper(ev.Rune) {
				ev.Shifted = vfPick(r, []rune{0, '#', '%', 'É'})
			}
		}
		pool = append(pool, ev)
	}
	for n := r.in(4, 40); n > 0 && !c.full(); n-- {
		for m := r.in(2, 12); m > 0; m-- {
			k.check(c, vfPick(r, pool))
		}
		if !k.reconfigure(r) {
			c.count("configurations that could not be set", 1)
			return
		}
		c.count("configurations changed in use", 1)
	}
	c.progress.Add(1)
}

func vfRandRune(r *vfRand) rune {
	for {
		var x rune
		switch r.n(4) {
		case 0:
			x = rune(r.in(0xa0, 0x24f))
		case 1:
			x = rune(r.in(0x370, 0x1fff))
		case 2:
			x = rune(r.in(0x2000, 0xd7ff))
		default:
			x = rune(r.in(0x10000, 0x3ffff))
		}
		if x >= 0x20 && !unicode.Is(unicode.Lt, x) {
			return x
		}
	}
}

func init() {
	for i := range vfKeyDefs {
		d := &vfKeyDefs[i]
		vfKeyByCode[d.code] = d
		vfKeyByNum[fmt.Sprintf("%d %c", d.num, d.fin)] = d.code
		if d.alt != 0 {
			vfKeyByNum[fmt.Sprintf("%d ~", d.alt)] = d.code
		}
	}
	vfChecks["C12"] = func(c *vfCtx) {
		// 32 flag sets x 3 modifyOtherKeys x application cursor x keypad x screen
		const nc = 32 * 3 * 2 * 2 * 2
		cfgOf := func(i int) vfKeyCfg {
			return vfKeyCfg{flags: i % 32, mok: i / 32 % 3, app: i/96%2 == 1, keypad: i/192%2 == 1, alt: i/384%2 == 1}
		}
		nh := c.scale(400, 6000)
		c.cases(nc*2+nh, func(i int, r *vfRand) {
			if i >= nc*2 {
				vfKeyHistory(c, r, cfgOf(r.n(nc)))
				return
			}
			cfg := cfgOf(i % nc)
			k := vfNewKeyRig(cfg, r)
			if k == nil {
				c.count("configurations that could not be set", 1)
				return
			}
			c.count("configurations", 1)
			events := []KeyEventType{0, KeyPress, KeyRepeat, KeyRelease}
			if i < nc {
				// the quick tier samples the alternate screen instead of
				// enumerating it
				sparse := cfg.alt && !c.thorough()
				for di := range vfKeyDefs {
					for m := 0; m < 256; m++ {
						if sparse && r.n(12) != 0 {
							continue
						}
						for _, e := range events {
							ev := KeyEvent{Code: vfKeyDefs[di].code, Mod: KeyMod(m), Event: e}
							k.check(c, ev)
							if m%16 == 3 && !c.full() {
								ev.BaseLayout, ev.Shifted = rune(r.in(0, 1))*'c', rune(r.in(0, 1))*'%'
								ev.Text = vfPick(r, vfKeyTexts)
								k.check(c, ev)
							}
							if r.n(100000) == 0 {
								k.s.be.out = k.s.be.out[:0]
								_, _ = k.s.t.SendKey(ev)
								c.sample("flags %d mok %d app %v: %s -> %q", cfg.flags, cfg.mok, cfg.app, vfKeyName(ev), k.s.be.out)
							}
						}
					}
					c.progress.Add(1)
					if c.full() {
						return
					}
				}
				if sparse {
					c.count("alternate-screen configurations with functional keys sampled", 1)
					return
				}
				c.count("functional keys enumerated (keys x modifiers x events)", int64(len(vfKeyDefs)*256*4))
				return
			}
			reps := 1
			if c.thorough() {
				reps = 6
			}
			for rep := 0; rep < reps; rep++ {
				for x := rune(0x20); x < 0x7f; x++ {
					for m := 0; m < 256; m++ {
						if cfg.alt && !c.thorough() && r.n(12) != 0 {
							continue
						}
						e := vfPick(r, events)
						for _, e2 := range events {
							if !c.thorough() && e2 != e && m%8 != int(x)%8 {
								continue
							}
							ev := KeyEvent{Code: KeyRune, Rune: x, Mod: KeyMod(m), Event: e2}
							if r.p(50) && !unicode.IsUpper(x) {
								ev.Shifted = vfPick(r, []rune{unicode.ToUpper(x), '#', '%', 'É'})
							}
							if r.p(40) {
								ev.BaseLayout = vfBase(r, &ev)
							}
							if r.p(40) {
								ev.Text = vfPick(r, vfKeyTexts)
							}
							k.check(c, ev)
						}
					}
					c.progress.Add(1)
					if c.full() {
						return
					}
				}
			}
			for n := c.scale(3000, 30000); n > 0 && !c.full(); n-- {
				ev := KeyEvent{Code: KeyRune, Rune: vfRandRune(r), Mod: KeyMod(r.n(256)), Event: vfPick(r, events)}
				if r.p(50) {
					ev.Mod &= ModShift | ModCapsLock
				}
				if r.p(40) && !unicode.IsUpper(ev.Rune) {
					ev.Shifted = vfRandRune(r)
				}
				if r.p(40) {
					ev.BaseLayout = vfBase(r, &ev)
				}
				if r.p(40) {
					for k, n := 0, vfPick(r, []int{1, 1, 2, 3, 9, 40}); k < n; k++ {
						ev.Text = append(ev.Text, vfRandRune(r))
						if r.p(30) {
							ev.Text = append(ev.Text, ev.Text[r.n(len(ev.Text))])
						}
					}
				}
				k.check(c, ev)
			}
		})
	}
}
