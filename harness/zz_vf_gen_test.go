package termemu

// Generators of terminal operations: every operation knows its bytes and what the
// specification says it does.

import (
	"fmt"
	"strconv"
	"strings"
)

type vfOp struct {
	kind   string
	bytes  string
	apply  func(m *vfModel)
	resize bool
	w, h   int
	modes  []int // of a private mode change
	set    bool
	alts   []func(m *vfModel) // other outcomes that the definition allows
}

func (o vfOp) String() string {
	if o.resize {
		return fmt.Sprintf("Resize(%d,%d)", o.w, o.h)
	}
	return fmt.Sprintf("%s %q", o.kind, o.bytes)
}

type vfGen struct {
	r    *vfRand
	mode TextReadMode
	w, h int
	// Characters that text operations use.
	narrow, multi, wide []string
	zero                []string // combining fragments, grapheme mode only
	invalid             []string
	widePct             int
	zeroPct, invPct     int
	styleRich           bool
	curHint             func() Pos
	clean               bool // the last stream has no damaged sequences
	// What was used before comes back, the same or slightly changed.
	colors   [][]int
	lastPay  string
	lastText []string
	spots    []vfSpot
}

// vfSpot is a place that text was written to.
type vfSpot struct {
	x, y  int
	chars []string
}

// vary changes little: two characters change places, or one becomes another.
func (g *vfGen) vary(chars []string, other func() string) []string {
	chars = append([]string(nil), chars...)
	for k := g.r.in(1, 2); k > 0 && len(chars) > 0; k-- {
		i, j := g.r.n(len(chars)), g.r.n(len(chars))
		if g.r.p(60) {
			chars[i], chars[j] = chars[j], chars[i]
		} else {
			chars[i] = other()
		}
	}
	return chars
}

// rewrite writes to a place that it may have written to before, with much the same text.
func (g *vfGen) rewrite() vfOp {
	plain := func() string { return vfPick(g.r, g.narrow[:7]) }
	var sp vfSpot
	if len(g.spots) > 0 && g.r.p(75) {
		i := g.r.n(len(g.spots))
		g.spots[i].chars = g.vary(g.spots[i].chars, plain)
		sp = g.spots[i]
	} else {
		sp = vfSpot{x: g.r.n(g.w), y: g.r.n(g.h)}
		for n := g.r.in(1, vfMin(12, g.w-sp.x)); n > 0; n-- {
			sp.chars = append(sp.chars, plain())
		}
		if len(g.spots) > 3 {
			g.spots = g.spots[1:]
		}
		g.spots = append(g.spots, sp)
	}
	at, text := vfCUP(sp.x, sp.y), vfTextOp(strings.Join(sp.chars, ""))
	return vfOp{kind: "rewrite", bytes: at.bytes + text.bytes, apply: func(m *vfModel) { at.apply(m); text.apply(m) }}
}

func newVFGen(r *vfRand, mode TextReadMode, w, h int) *vfGen {
	g := &vfGen{r: r, mode: mode, w: w, h: h, widePct: 20, invPct: 4}
	g.narrow = []string{"a", "b", "c", "X", "Y", "0", "9", " ", "~", "!", "@", "[", "m", "\\"}
	g.multi = []string{"é", "ß", "Ж", "→", "█", "\u00a0", "ñ"}
	g.wide = []string{"世", "界", "한", "Ｗ", "😀", "🚀", "✅"}
	g.invalid = []string{"\xff", "\xc3(", "\xe2\x82x", "\xf0\x9fy", "\x80", "\xed\xa0\x80z"}
	if mode == TextReadModeGrapheme {
		g.multi = append(g.multi, "e\u0301", "n\u0303\u0323", "z"+strings.Repeat("\u0300\u0323\u0489", r.in(1, 20)), "क्षि", "กำ", "\u0600\u0660")
		g.wide = append(g.wide, "👩\u200d👩", "👍🏽", "🇺🇸", "❤\ufe0f", "각", "👨\u200d👩\u200d👧\u200d👦",
			"👩🏽\u200d❤\ufe0f\u200d💋\u200d👩🏿", "🏴\U000e0067\U000e0062\U000e0065\U000e006e\U000e0067\U000e007f", "1\ufe0f\u20e3", "世\U000e0100")
		g.zero = []string{"\u0301", "\u0308", "\ufe0f", "\u0323\u0301"}
	} else {
		g.multi = append(g.multi, "\u0301", "\u200d")
		g.wide = append(g.wide, "⸻")
	}
	return g
}

func (g *vfGen) char() string {
	switch {
	case g.r.p(g.widePct):
		return vfPick(g.r, g.wide)
	case g.r.p(g.invPct):
		return vfPick(g.r, g.invalid)
	case g.r.p(12):
		return vfPick(g.r, g.multi)
	case g.r.p(3):
		return g.exotic()
	}
	return vfPick(g.r, g.narrow)
}

// exotic picks a character from anywhere in Unicode.
func (g *vfGen) exotic() string {
	for {
		var c int
		switch g.r.n(10) {
		case 0: // C1 controls and Latin-1
			c = g.r.in(0x80, 0xff)
		case 1: // scripts with marks, joiners and prepended characters
			c = g.r.in(0x300, 0x1fff)
		case 2: // format characters, spaces and separators
			c = g.r.in(0x2000, 0x206f)
		case 3: // symbols of ambiguous width
			c = g.r.in(0x2070, 0x2fff)
		case 4: // CJK and Hangul
			c = g.r.in(0x3000, 0xd7ff)
		case 5: // private use, presentation forms, specials
			c = g.r.in(0xe000, 0xffff)
		case 6: // emoji
			c = g.r.in(0x1f000, 0x1faff)
		case 7: // tags and variation selectors
			c = g.r.in(0xe0000, 0xe01ef)
		case 8: // everything above
			c = g.r.in(0x10000, 0x10ffff)
		default:
			c = vfPick(g.r, []int{0xad, 0x600, 0x200b, 0x200c, 0x200e, 0x2028, 0x2060, 0xfeff, 0xfffe, 0xffff, 0xfffd, 0x10ffff, 0x0e33, 0x094d, 0x115f, 0x2e3a, 0x2e3b, 0x1f3fb})
		}
		if c == 0x200d || c >= 0xd800 && c < 0xe000 || c >= 0x1f1e6 && c <= 0x1f1ff {
			continue // carry over to the next text
		}
		return string(rune(c))
	}
}

func (g *vfGen) textOf(n int) string {
	var sb strings.Builder
	var chars []string
	if g.lastText != nil && g.r.p(6) {
		chars = g.vary(g.lastText, g.char)
		if len(chars) > n {
			chars = chars[:n]
		}
		sb.WriteString(strings.Join(chars, ""))
	}
	for i := len(chars); i < n && sb.Len() < 3600; i++ { // the terminal reads 4096 bytes at a time
		ch := g.char()
		sb.WriteString(ch)
		if n <= 100 {
			chars = append(chars, ch)
		}
	}
	if n > 1 && n <= 100 {
		g.lastText = chars
	}
	return sb.String()
}

func vfTextOp(t string) vfOp {
	return vfOp{kind: "text", bytes: t, apply: func(m *vfModel) { m.text(t) }}
}

func (g *vfGen) text() vfOp {
	if g.zeroPct > 0 && g.r.p(g.zeroPct) && len(g.zero) > 0 {
		t := vfPick(g.r, g.zero)
		if g.r.p(30) {
			t += g.textOf(2)
		}
		op := vfTextOp(t)
		op.kind = "text-zero"
		return op
	}
	if g.mode == TextReadModeGrapheme && g.r.p(4) {
		return g.pieces()
	}
	n := 1
	switch g.r.n(6) {
	case 0, 1:
		n = g.r.in(2, 4)
	case 2:
		n = g.r.in(1, g.w+2)
	case 3:
		n = g.r.in(g.w-2, g.w+1)
	case 4:
		if g.r.p(15) {
			n = g.r.in(g.w, 3*g.w*g.h/2+2)
			if n > 400 {
				n = 400
			}
		}
	}
	if n < 1 {
		n = 1
	}
	return vfTextOp(g.textOf(n))
}

// pieces writes characters that would form one cluster if a NUL, which does nothing, did
// not keep them apart. Each of them has a cell of its own.
func (g *vfGen) pieces() vfOp {
	var ps []string
	b := ""
	for i, n := 0, g.r.in(1, 4); i < n; i++ {
		p := vfPick(g.r, []string{"👍", "🏽", "🏽", "🇺", "🇸", "🇸", "ᄀ", "ᅡ", "가", "ᆨ", "e", "世"})
		ps = append(ps, p)
		b += "\x00" + p
	}
	return vfOp{kind: "text", bytes: b + "\x00", apply: func(m *vfModel) {
		scrolled, edge := false, false
		for _, p := range ps {
			m.text(p)
			scrolled, edge = scrolled || m.scrolled, edge || m.edge
		}
		m.scrolled, m.edge = scrolled, edge
	}}
}

// ---- parameters

func (g *vfGen) num(n int) string {
	if g.r.p(8) {
		return strings.Repeat("0", g.r.in(1, 4)) + strconv.Itoa(n)
	}
	return strconv.Itoa(n)
}

var vfHuge = []string{"65535", "65536", "2147483647", "2147483648", "4294967295", "4294967297",
	"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551617",
	"99999999999999999999999", "36893488147419103232", "1000000"}

const vfInf = 1 << 20

// count returns the text of a count parameter and its value; absent counts are 1.
func (g *vfGen) count(limit int) (string, int) {
	switch g.r.n(10) {
	case 0, 1:
		return "", 1
	case 2:
		return vfPick(g.r, vfHuge), vfInf
	case 3:
		n := g.r.in(limit-1, limit+2)
		if n < 1 {
			n = 1
		}
		return g.num(n), n
	case 4:
		n := g.r.in(limit, 3*limit+3)
		return g.num(n), n
	}
	n := g.r.in(1, limit+1)
	return g.num(n), n
}

// coord returns a 1-based coordinate parameter and its value; absent is 1.
func (g *vfGen) coord(limit int) (string, int) {
	switch g.r.n(12) {
	case 0:
		return "", 1
	case 1:
		return vfPick(g.r, vfHuge), vfInf
	case 2:
		return "0", 1
	case 3:
		n := g.r.in(limit, limit+3)
		return g.num(n), n
	}
	n := g.r.in(1, limit)
	return g.num(n), n
}

// extra sometimes adds parameters that the function does not define; they mean nothing.
func (g *vfGen) extra(p string) string {
	if p == "" || !g.r.p(6) {
		return p
	}
	for i, n := 0, g.r.in(1, 3); i < n; i++ {
		p += ";"
		if g.r.p(85) {
			p += g.num(g.r.in(0, 9))
		}
	}
	return p
}

// ---- cursor motion

func (g *vfGen) cup() vfOp {
	ys, y := g.coord(g.h)
	xs, x := g.coord(g.w)
	f := vfPick(g.r, []string{"H", "H", "H", "f"})
	p := ys + ";" + xs
	if xs == "" && g.r.p(50) {
		p = ys
	} else {
		p = g.extra(p)
	}
	return vfOp{kind: "CUP", bytes: "\x1b[" + p + f, apply: func(m *vfModel) { m.begin(); m.to(x-1, y-1) }}
}

func vfCUP(x, y int) vfOp {
	return vfOp{kind: "CUP", bytes: fmt.Sprintf("\x1b[%d;%dH", y+1, x+1), apply: func(m *vfModel) { m.begin(); m.to(x, y) }}
}

func vfMotion(kind, p string, n int) vfOp {
	op := vfOp{kind: kind}
	rel := func(dx, dy int) func(m *vfModel) {
		return func(m *vfModel) { m.begin(); m.to(m.s().cur.X+dx, m.s().cur.Y+dy) }
	}
	switch kind {
	case "CUU":
		op.bytes, op.apply = "\x1b["+p+"A", rel(0, -n)
	case "CUD":
		op.bytes, op.apply = "\x1b["+p+"B", rel(0, n)
	case "CUF":
		op.bytes, op.apply = "\x1b["+p+"C", rel(n, 0)
	case "CUB":
		op.bytes, op.apply = "\x1b["+p+"D", rel(-n, 0)
	case "CHA":
		op.bytes, op.apply = "\x1b["+p+"G", func(m *vfModel) { m.begin(); m.to(n-1, m.s().cur.Y) }
	case "VPA":
		op.bytes, op.apply = "\x1b["+p+"d", func(m *vfModel) { m.begin(); m.to(m.s().cur.X, n-1) }
	case "BS":
		op.bytes, op.apply = "\b", rel(-1, 0)
	case "DEL":
		op.bytes, op.apply = "\x7f", rel(-1, 0)
	case "HT":
		op.bytes, op.apply = "\t", func(m *vfModel) { m.begin(); m.to(m.s().cur.X/8*8+8, m.s().cur.Y) }
	case "CR":
		op.bytes, op.apply = "\r", func(m *vfModel) { m.begin(); m.s().cur.X = 0 }
	case "LF":
		op.bytes, op.apply = "\n", func(m *vfModel) { m.begin(); m.s().cur.X = 0; m.down(1) }
	case "FF":
		op.bytes, op.apply = "\f", func(m *vfModel) { m.begin(); m.down(1) }
	case "IND":
		op.bytes, op.apply = "\x1bD", func(m *vfModel) { m.begin(); m.down(1) }
	case "RI":
		op.bytes, op.apply = "\x1bM", func(m *vfModel) { m.begin(); m.up() }
	case "save":
		op.bytes, op.apply = "\x1b[s", func(m *vfModel) { m.begin(); m.s().saved = m.s().cur }
	case "restore":
		op.bytes, op.apply = "\x1b[u", func(m *vfModel) { m.begin(); m.s().cur = m.s().saved }
	default:
		panic("unknown motion " + kind)
	}
	return op
}

var vfMotions = []string{"CUU", "CUD", "CUF", "CUB", "CHA", "VPA", "BS", "DEL", "HT", "CR", "LF", "LF", "FF", "IND", "RI", "save", "restore"}

func (g *vfGen) motion() vfOp {
	kind := vfPick(g.r, vfMotions)
	p, n := "", 1
	switch kind {
	case "CUU", "CUD":
		p, n = g.count(g.h)
	case "CUF", "CUB":
		p, n = g.count(g.w)
	case "CHA":
		p, n = g.coord(g.w)
	case "VPA":
		p, n = g.coord(g.h)
	}
	return vfMotion(kind, g.extra(p), n)
}

// ---- erase and delete

func vfErase(kind, p string, n int) vfOp {
	op := vfOp{kind: kind}
	switch kind {
	case "ED":
		op.bytes = "\x1b[" + p + "J"
		op.apply = func(m *vfModel) {
			m.begin()
			c := m.s().cur
			switch n {
			case 0:
				m.erase(c.Y, c.X, m.w)
				for y := c.Y + 1; y < m.h; y++ {
					m.erase(y, 0, m.w)
				}
			case 1:
				for y := 0; y < c.Y; y++ {
					m.erase(y, 0, m.w)
				}
				m.erase(c.Y, 0, c.X+1)
			case 2:
				for y := 0; y < m.h; y++ {
					m.erase(y, 0, m.w)
				}
				m.s().cur = Pos{}
			}
		}
	case "EL":
		op.bytes = "\x1b[" + p + "K"
		op.apply = func(m *vfModel) {
			m.begin()
			c := m.s().cur
			switch n {
			case 0:
				m.erase(c.Y, c.X, m.w)
			case 1:
				m.erase(c.Y, 0, c.X+1)
			case 2:
				m.erase(c.Y, 0, m.w)
			}
		}
	case "ECH":
		op.bytes = "\x1b[" + p + "X"
		op.apply = func(m *vfModel) {
			m.begin()
			m.erase(m.s().cur.Y, m.s().cur.X, m.s().cur.X+n)
		}
	case "DCH":
		op.bytes = "\x1b[" + p + "P"
		op.apply = func(m *vfModel) { m.begin(); m.deleteChars(n) }
	}
	return op
}

func (g *vfGen) erase() vfOp {
	switch kind := vfPick(g.r, []string{"ED", "EL", "ECH", "DCH", "EL", "ECH", "DCH"}); kind {
	case "ED", "EL":
		n := g.r.n(3)
		p := g.num(n)
		if n == 0 && g.r.p(60) {
			p = ""
		}
		if g.r.p(5) {
			// not one of the functions: nothing may be erased
			p, n = vfPick(g.r, []string{"3", "4", "5", "8", "9", "10", "11", "20", "32", "100", "256", "257", "258",
				"65536", "65538", "4294967297", "4294967298", "18446744073709551617", "18446744073709551618"}), vfInf
		}
		return vfErase(kind, g.extra(p), n)
	default:
		p, n := g.count(g.w)
		return vfErase(kind, g.extra(p), n)
	}
}

// ---- scrolling

func vfScrollOp(kind, p string, n int) vfOp {
	op := vfOp{kind: kind}
	switch kind {
	case "SU":
		op.bytes = "\x1b[" + p + "S"
		op.apply = func(m *vfModel) { m.begin(); m.scroll(m.s().top, m.s().bot, -n) }
	case "SD":
		op.bytes = "\x1b[" + p + "T"
		op.apply = func(m *vfModel) { m.begin(); m.scroll(m.s().top, m.s().bot, n) }
	case "IL", "DL":
		final, sign := "L", 1
		if kind == "DL" {
			final, sign = "M", -1
		}
		op.bytes = "\x1b[" + p + final
		op.apply = func(m *vfModel) {
			m.begin()
			s := m.s()
			if s.cur.Y >= s.top && s.cur.Y <= s.bot {
				m.scroll(s.cur.Y, s.bot, sign*n)
			}
		}
		if kind == "DL" || kind == "IL" {
			// Implementations may or may not home the column; the property does not say.
			inner := op.apply
			op.alts = append(op.alts, func(m *vfModel) {
				inner(m)
				if m.scrolled {
					m.s().cur.X = 0
				}
			})
		}
	}
	return op
}

func (g *vfGen) scroll() vfOp {
	p, n := g.count(g.h)
	return vfScrollOp(vfPick(g.r, []string{"SU", "SD", "IL", "DL"}), g.extra(p), n)
}

// margins makes a DECSTBM request. Requests that lie below the screen are not generated.
func (g *vfGen) margins() vfOp {
	switch g.r.n(10) {
	case 0:
		return vfDECSTBM("", 1, 0)
	case 1: // inverted
		if g.h > 1 {
			b := g.r.in(1, g.h-1)
			t := g.r.in(b+1, g.h+3)
			return vfDECSTBM(fmt.Sprintf("%d;%d", t, b), t, b)
		}
	case 2: // bottom beyond the screen
		t := g.r.in(1, g.h)
		return vfDECSTBM(fmt.Sprintf("%d;%d", t, g.h+g.r.in(1, 310)), t, vfInf)
	case 3: // only the top
		t := g.r.in(1, g.h)
		return vfDECSTBM(g.num(t), t, 0)
	case 4: // only the bottom
		b := g.r.in(1, g.h)
		return vfDECSTBM(";"+g.num(b), 1, b)
	}
	t := g.r.in(1, g.h)
	b := g.r.in(t, g.h)
	return vfDECSTBM(g.extra(g.num(t)+";"+g.num(b)), t, b)
}

// vfDECSTBM sets the scroll region; bot 0 is the last row.
func vfDECSTBM(p string, top, bot int) vfOp {
	set := func(m *vfModel) {
		m.begin()
		b := bot
		if b == 0 || b > m.h {
			b = m.h
		}
		if top > b {
			return
		}
		m.s().top, m.s().bot = top-1, b-1
	}
	return vfOp{kind: "DECSTBM", bytes: "\x1b[" + p + "r", apply: set,
		// VT terminals also home the cursor; the property leaves it open.
		alts: []func(m *vfModel){func(m *vfModel) {
			old := [2]int{m.s().top, m.s().bot}
			set(m)
			if b := bot; top <= b || b == 0 {
				m.s().cur = Pos{}
			}
			_ = old
		}}}
}

// ---- attributes

var vfSGRSimple = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 22, 23, 24, 25, 27, 28, 29, 51, 52, 53, 54, 55, 39, 49}

func (g *vfGen) sgrParams(n int) []int {
	var ps []int
	if g.r.p(20) { // a theme: a reset, modes, and one of a few pairs of colours
		ps = append(ps, 0)
		for k := g.r.n(3); k > 0; k-- {
			ps = append(ps, g.r.in(1, 9))
		}
		for len(g.colors) < 4 {
			c := func() int { return vfPick(g.r, []int{0, 10, 255, g.r.n(256)}) }
			g.colors = append(g.colors, vfPick(g.r, [][]int{{2, c(), c(), c()}, {2, c(), c(), c()}, {5, c()}}))
		}
		what := []int{38, 48}
		if g.r.p(20) {
			what = []int{48, 38}
		}
		for _, x := range what {
			if g.r.p(80) {
				ps = append(append(ps, x), vfPick(g.r, g.colors)...)
			}
		}
		return ps
	}
	for i := 0; i < n; i++ {
		switch g.r.n(8) {
		case 0, 1:
			ps = append(ps, vfPick(g.r, vfSGRSimple))
		case 2:
			ps = append(ps, vfPick(g.r, []int{30, 40, 90, 100})+g.r.n(8))
		case 3:
			ps = append(ps, vfPick(g.r, []int{30, 40, 90, 100}))
		case 4:
			ps = append(ps, vfPick(g.r, []int{38, 48}), 5, vfPick(g.r, []int{0, 1, 7, 8, 9, 15, 16, 100, 231, 255, g.r.n(256)}))
		case 5:
			c := []int{0, 1, 7, 8, 127, 128, 255, g.r.n(256)}
			ps = append(ps, vfPick(g.r, []int{38, 48}), 2, vfPick(g.r, c), vfPick(g.r, c), vfPick(g.r, c))
		case 6:
			ps = append(ps, g.r.in(1, 9))
		case 7:
			ps = append(ps, vfPick(g.r, []int{1, 4, 7, 9, 53, 31, 44}))
		}
	}
	return ps
}

func vfSGR(ps []int) vfOp {
	fs := make([]string, len(ps))
	for i, p := range ps {
		fs[i] = strconv.Itoa(p)
	}
	return vfSGRText(strings.Join(fs, ";"), ps)
}

func vfSGRText(text string, ps []int) vfOp {
	return vfOp{kind: "SGR", bytes: "\x1b[" + text + "m", apply: func(m *vfModel) { m.begin(); m.style = vfFold(m.style, ps) }}
}

func (g *vfGen) sgr() vfOp {
	if g.r.p(5) {
		return vfSGRText("", nil)
	}
	n := g.r.in(1, 3)
	if g.r.p(10) {
		n = g.r.in(4, 14)
		if g.r.p(4) {
			n = g.r.in(15, 150)
		}
	}
	return vfSGR(g.sgrParams(n))
}

// ---- modes

func vfMode(p int, set bool) vfOp {
	return vfModeList([]int{p}, set)
}

func vfModeList(ps []int, set bool) vfOp {
	fs := make([]string, len(ps))
	for i, p := range ps {
		fs[i] = strconv.Itoa(p)
	}
	f := "l"
	if set {
		f = "h"
	}
	return vfOp{kind: "mode", modes: ps, set: set, bytes: "\x1b[?" + strings.Join(fs, ";") + f, apply: func(m *vfModel) {
		m.begin()
		for _, p := range ps {
			m.privateMode(p, set)
		}
	}}
}

// keypad switches the keypad mode with DECKPAM and DECKPNM.
func (g *vfGen) keypad() vfOp {
	on := g.r.p(50)
	return vfOp{kind: "keypad", bytes: map[bool]string{true: "\x1b=", false: "\x1b>"}[on], apply: func(m *vfModel) { m.begin(); m.setFlag(VFAppKeypad, on) }}
}

// modes makes a list of private modes: any length, repetitions, unknown numbers between.
func (g *vfGen) modes() vfOp {
	set := g.r.p(50)
	if g.r.p(60) {
		return vfMode(vfPick(g.r, vfPrivateModes), set)
	}
	return vfModeList(g.modeNumbers(), set)
}

func (g *vfGen) modeNumbers() []int {
	ps := []int{vfPick(g.r, vfPrivateModes)}
	n := g.r.in(1, 3) * g.r.in(1, 3)
	if g.r.p(3) {
		n = g.r.in(10, 80)
	}
	for len(ps) < n {
		switch g.r.n(8) {
		case 0:
			ps = append(ps, vfPick(g.r, ps))
		case 1:
			ps = append(ps, vfPick(g.r, []int{0, 2, 3, 5, 10, 40, 45, 47, 66, 1001, 1007, 1016, 1034, 1047, 1048, 2026, 9999, 1 << 24}))
		case 2:
			ps = append(ps, 1049)
		default:
			ps = append(ps, vfPick(g.r, vfPrivateModes))
		}
	}
	// Anything may come first.
	i := g.r.n(len(ps))
	ps[0], ps[i] = ps[i], ps[0]
	return ps
}

var vfPrivateModes = []int{1, 7, 9, 12, 25, 1000, 1002, 1003, 1004, 1005, 1006, 1015, 1049, 2004}

// ---- keyboard flags, queries, strings

func (g *vfGen) kbd() vfOp {
	flags := vfPick(g.r, []int{0, 1, 2, 4, 8, 16, 31, 5, 10, g.r.n(32)})
	switch g.r.n(6) {
	case 0:
		return vfOp{kind: "kbd=", bytes: fmt.Sprintf("\x1b[=%du", flags), apply: func(m *vfModel) { m.begin(); m.kbdSet(flags, 1) }}
	case 1:
		mode := g.r.in(1, 3)
		return vfOp{kind: "kbd=", bytes: fmt.Sprintf("\x1b[=%d;%du", flags, mode), apply: func(m *vfModel) { m.begin(); m.kbdSet(flags, mode) }}
	case 2, 3:
		return vfOp{kind: "kbd>", bytes: fmt.Sprintf("\x1b[>%du", flags), apply: func(m *vfModel) { m.begin(); m.kbdPush(flags) }}
	case 4:
		return vfOp{kind: "kbd<", bytes: "\x1b[<u", apply: func(m *vfModel) { m.begin(); m.kbdPop(1) }}
	}
	n := g.r.in(1, 4)
	return vfOp{kind: "kbd<", bytes: fmt.Sprintf("\x1b[<%du", n), apply: func(m *vfModel) { m.begin(); m.kbdPop(n) }}
}

func vfQuery(kind string) vfOp {
	op := vfOp{kind: "query-" + kind}
	switch kind {
	case "DA1":
		op.bytes, op.apply = "\x1b[c", func(m *vfModel) { m.begin(); m.reply("\x1b[?1;2c") }
	case "DA1z":
		op.bytes, op.apply = "\x1b[0c", func(m *vfModel) { m.begin(); m.reply("\x1b[?1;2c") }
	case "DA2":
		op.bytes, op.apply = "\x1b[>c", func(m *vfModel) { m.begin(); m.reply("\x1b[>1;4402;0c") }
	case "DA2z":
		op.bytes, op.apply = "\x1b[>0c", func(m *vfModel) { m.begin(); m.reply("\x1b[>1;4402;0c") }
	case "DSR":
		op.bytes, op.apply = "\x1b[5n", func(m *vfModel) { m.begin(); m.reply("\x1b[0n") }
	case "CPR":
		op.bytes, op.apply = "\x1b[6n", func(m *vfModel) { m.begin(); m.reply("\x1b[%d;%dR", m.s().cur.Y+1, m.s().cur.X+1) }
	case "KBD":
		op.bytes, op.apply = "\x1b[?u", func(m *vfModel) { m.begin(); m.reply("\x1b[?%du", m.s().kflags) }
	}
	return op
}

var vfQueries = []string{"DA1", "DA1z", "DA2", "DA2z", "DSR", "CPR", "CPR", "CPR", "KBD", "KBD"}

// vfPayloads are OSC strings without control bytes; none contains a terminator.
// nearly returns a string as long as p that differs in at most a few bytes.
func (g *vfGen) nearly(p string) string {
	if p == "" {
		return p
	}
	b := []byte(p)
	for k := g.r.in(0, 2); k > 0; k-- {
		i, j := g.r.n(len(b)), g.r.n(len(b))
		if g.r.p(50) && b[i] < 0x80 && b[j] < 0x80 {
			b[i], b[j] = b[j], b[i]
		} else if b[i] < 0x80 {
			b[i] = byte(g.r.in(32, 126))
		}
	}
	return string(b)
}

func (g *vfGen) payload() string {
	if g.lastPay != "" && g.r.p(25) { // much like the one before
		g.lastPay = g.nearly(g.lastPay)
		return g.lastPay
	}
	g.lastPay = g.newPayload()
	return g.lastPay
}

func (g *vfGen) newPayload() string {
	return vfPick(g.r, []string{"", "title", "a;b;c", "x y z", "/home/user/dir", "ünï", "世界 title", "\u2022 \u00dc", "1;2;3m",
		"[31mred", "0;0H", "?", "0;?", "c;?", "rgb:ff/00/80", "c;aGk=", "8;;http://x/y", "ﬀ\u061c\u2713", "é" + strconv.Itoa(g.r.n(1000)), strings.Repeat("long ", g.r.n(30)), "😀" + g.textOfASCII(6)})
}

func (g *vfGen) textOfASCII(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.r.in(32, 126))
	}
	return string(b)
}

func (g *vfGen) terminator() string { return vfPick(g.r, []string{"\a", "\a", "\x1b\\", "\x9c"}) }

func (g *vfGen) osc() vfOp {
	num := vfPick(g.r, []int{0, 2, 6, 7, 0, 2, 6, 7, 1, 4, 8, 9, 10, 11, 52, 104, 112, 133, 777, 3, 5, 12, 17, 50, 60, 105, 1337})
	if g.r.p(10) {
		num = g.r.in(8, 5000)
	}
	pay := g.payload()
	b := fmt.Sprintf("\x1b]%d;%s%s", num, pay, g.terminator())
	return vfOp{kind: "OSC", bytes: b, apply: func(m *vfModel) {
		m.begin()
		switch num {
		case 0, 2:
			m.setStr(VSWindowTitle, pay)
		case 6:
			m.setStr(VSCurrentDirectory, pay)
		case 7:
			m.setStr(VSCurrentFile, pay)
		}
	}}
}

func (g *vfGen) dcs() vfOp {
	body := vfPick(g.r, []string{"", "+q544e", "$qm", "$qr", "$q q", "$q\"p", "+p436f", "=1s", "!|0", "0$t", "1$r0m", "1;2|17/ab", "tmux;x", "q#0;2;0;0;0~~-"}) + g.payload()
	switch g.r.n(6) {
	case 0: // a passed-through sequence: every ESC is doubled
		body = "tmux;" + vfPick(g.r, []string{"\x1b\x1b[31m", "\x1b\x1b]0;inner\a", "\x1b\x1b]2;a\ab", "\x1b\x1b\a", "x\x1b\x1bPq"}) + g.payload()
	case 1: // control bytes are part of the string
		n := g.r.n(30)
		b := make([]byte, 0, n)
		for len(b) < n {
			c := byte(g.r.in(0, 127))
			if g.r.p(40) {
				c = vfPick(g.r, []byte{7, 7, 8, 9, 10, 11, 12, 13, 27, 27, '[', ']', 'P'})
			}
			if c == 0x18 || c == 0x1a || c == '\\' && len(b) > 0 && b[len(b)-1] == 27 {
				continue // cancels, or ends the string
			}
			b = append(b, c)
		}
		for len(b) > 0 && b[len(b)-1] == 27 {
			b = b[:len(b)-1]
		}
		body += string(b)
	}
	return vfOp{kind: "DCS", bytes: "\x1bP" + body + vfPick(g.r, []string{"\x1b\\", "\x1b\\", "\x9c"}), apply: func(m *vfModel) { m.begin() }}
}

// unknown makes a well-formed sequence that no part of the terminal interprets.
func (g *vfGen) unknown() vfOp {
	nop := func(m *vfModel) { m.begin() }
	params := func(max int) string {
		var sb strings.Builder
		for i, n := 0, g.r.n(max+1); i < n; i++ {
			if i > 0 {
				sb.WriteByte(';')
			}
			switch g.r.n(6) {
			case 0:
			case 1:
				sb.WriteString(vfPick(g.r, vfHuge))
			default:
				sb.WriteString(strconv.Itoa(g.r.n(2100)))
			}
		}
		return sb.String()
	}
	switch g.r.n(9) {
	case 0: // ESC final
		return vfOp{kind: "unk-esc", bytes: "\x1b" + string(vfPick(g.r, []byte("0123456789:;<?@ABCEFGHIJKLNOQRSTUVWYZ`abdefghijklmnopqrstuvwxyz{|}~"))), apply: nop}
	case 1: // ESC intermediates final
		n := g.r.in(1, 3)
		b := "\x1b"
		for i := 0; i < n; i++ {
			b += string(rune(g.r.in(0x20, 0x2f)))
		}
		return vfOp{kind: "unk-esc-int", bytes: b + string(rune(g.r.in(0x30, 0x7e))), apply: nop}
	case 2: // unknown final
		return vfOp{kind: "unk-csi", bytes: "\x1b[" + params(20) + string(vfPick(g.r, []byte("@EFINOQRUVWYZ[\\]^_`abegijkopqvwxyz{|}~"))), apply: nop}
	case 3: // intermediates
		b := "\x1b[" + vfPick(g.r, []string{"", "", "?", ">", "<", "="}) + params(4)
		for i, n := 0, g.r.in(1, 3); i < n; i++ {
			b += string(rune(g.r.in(0x20, 0x2f)))
		}
		return vfOp{kind: "unk-csi-int", bytes: b + string(rune(g.r.in(0x40, 0x7e))), apply: nop}
	case 4: // private prefix with an unknown final
		pre := vfPick(g.r, []byte("?><="))
		finals := map[byte]string{'?': "@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefgijknopqrstvwxyz{|}~",
			'>': "@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abdefghijklnopqrstvwxyz{|}~",
			'<': "@ABCDEFGHIJKLNOPQRSTUVWXYZ[\\]^_`abcdefghijklnopqrstvwxyz{|}~",
			'=': "@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstvwxyz{|}~"}
		return vfOp{kind: "unk-csi-priv", bytes: "\x1b[" + string(rune(pre)) + params(6) + string(vfPick(g.r, []byte(finals[pre]))), apply: nop}
	case 5: // colon sub-parameters
		return vfOp{kind: "unk-csi-colon", bytes: "\x1b[" + params(2) + ":" + params(3) + ":" + params(1) + string(rune(g.r.in(0x40, 0x7e))), apply: nop}
	case 6: // private mode numbers nobody interprets
		return vfOp{kind: "unk-mode", bytes: fmt.Sprintf("\x1b[?%d%c", vfPick(g.r, []int{0, 2, 3, 4, 5, 6, 8, 10, 13, 47, 66, 1001, 1007, 1010, 1047, 1048, 1050, 2005, 2026, 9999}), vfPick(g.r, []byte("hl"))), apply: nop}
	case 7: // charset designation
		return vfOp{kind: "unk-charset", bytes: "\x1b" + string(vfPick(g.r, []byte("()*+"))) + vfPick(g.r, []string{"B", "0", "A", "%5", "\"?"}), apply: nop}
	}
	// ANSI modes, window manipulation and other sequences without effect
	return vfOp{kind: "unk-misc", bytes: vfPick(g.r, []string{"\x1b[4h", "\x1b[4l", "\x1b[20h", "\x1b[2;4h", "\x1b[22;0t", "\x1b[23;0t", fmt.Sprintf("\x1b[%d;%d;%dt", vfPick(g.r, []int{4, 8, 14, 18, 22, 23, g.r.n(30)}), g.r.n(5), vfPick(g.r, []int{0, 1, 2, 3, 10, 100, 1 << 20})), fmt.Sprintf("\x1b[%d;%dt", vfPick(g.r, []int{22, 23, 22, 23, g.r.n(30)}), g.r.n(4)), "\x1b[8;24;80t", "\x1b[3J", "\x1b[3K", "\x1b[0n", "\x1b[7n", "\x1b[1c", "\x1b[?1;2m"}), apply: nop}
}

func (g *vfGen) resize() vfOp {
	w, h := g.w, g.h
	switch g.r.n(5) {
	case 0:
		w = vfClamp(w+g.r.in(-3, 3), 1, 310)
	case 1:
		h = vfClamp(h+g.r.in(-3, 3), 1, 300)
	case 2:
		w, h = vfClamp(w+g.r.in(-3, 3), 1, 310), vfClamp(h+g.r.in(-3, 3), 1, 300)
	default:
		w, h = vfSize(g.r)
	}
	g.w, g.h = w, h
	return vfOp{kind: "resize", resize: true, w: w, h: h, apply: func(m *vfModel) { m.resize(w, h) }}
}

// vfSize picks a screen size, small ones most of the time.
// vfSmall limits vfSize to what a long history can afford.
var vfSmall bool

func vfSize(r *vfRand) (w, h int) {
	if vfSmall {
		return r.in(1, 12), r.in(1, 6)
	}
	if r.p(2) {
		return 80, 14 // the size of a new terminal
	}
	if r.p(1) { // coordinates that need more than two digits, or more than eight bits
		switch r.n(48) {
		case 5:
			return vfPick(r, []int{511, 512, 513, 640, 999, 1000, 1023, 1024, 1025, r.in(500, 1100), r.in(1100, 2200)}), r.in(1, 3)
		case 6:
			return r.in(1, 3), vfPick(r, []int{511, 512, 513, 1000, 1024, r.in(500, 1100)})
		case 7:
			return vfPick(r, []int{4095, 4096, 4097, r.in(3000, 5000)}), 1
		case 8, 9, 10, 11, 12, 13, 14, 15:
			return r.in(120, 135), r.in(1, 4)
		case 16, 17, 18, 19, 20, 21, 22, 23:
			return r.in(220, 300), r.in(1, 4)
		case 24, 25, 26, 27, 28, 29, 30, 31:
			return r.in(1, 4), r.in(95, 135)
		case 32, 33, 34, 35, 36, 37, 38, 39:
			return r.in(1, 4), r.in(250, 270)
		}
		return vfPick(r, []int{r.in(90, 110), 132, 255, 256, 257}), r.in(2, 30)
	}
	switch r.n(12) {
	case 0:
		return r.in(1, 3), r.in(1, 3)
	case 1:
		return r.in(1, 4), r.in(3, 12) // taller than wide
	case 2:
		return r.in(16, 40), r.in(2, 5)
	case 3:
		return 1, r.in(1, 6)
	case 4:
		return r.in(1, 20), 1
	}
	return r.in(2, 12), r.in(2, 7)
}
