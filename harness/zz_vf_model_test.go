package termemu

// Executable specification of the terminal, written from the properties and the
// control-function definitions, independent of the screen buffers' code.

import (
	"fmt"
	"unicode"

	"github.com/rivo/uniseg"
)

type vfScr struct {
	cells    vfGrid
	cur      Pos
	saved    Pos
	top, bot int
	wrap     bool
	kflags   int
	kstack   []int
}

type vfModel struct {
	w, h    int
	mode    TextReadMode
	grid    bool // blank wide characters that a write starts inside of
	scr     [2]vfScr
	alt     int
	style   vfStyle
	flags   [viewFlagCount]bool
	ints    [viewIntCount]int
	strs    [viewStringCount]string
	told    map[string]bool // which view settings the frontend has been told
	replies []byte
	lost    [][]vfCell // rows scrolled off the top of the main screen
	bells   int

	// effects of the last operation
	scrolled bool // a scroll region moved
	edge     bool // the operation met an edge of the screen or region
	inWide   bool // a write started inside a wide character
}

func vfBlankRow(w int, st vfStyle) []vfCell {
	row := make([]vfCell, w)
	for i := range row {
		row[i] = vfCell{" ", 1, st}
	}
	return row
}

func vfBlankGrid(w, h int, st vfStyle) vfGrid {
	g := make(vfGrid, h)
	for y := range g {
		g[y] = vfBlankRow(w, st)
	}
	return g
}

func newVFModel(w, h int, mode TextReadMode, grid bool) *vfModel {
	m := &vfModel{w: w, h: h, mode: mode, grid: grid, told: map[string]bool{}}
	for i := range m.scr {
		m.scr[i] = vfScr{cells: vfBlankGrid(w, h, vfStyle{}), bot: h - 1}
	}
	return m
}

func (m *vfModel) s() *vfScr { return &m.scr[m.alt] }

func vfClamp(v, lo, hi int) int {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func (m *vfModel) begin() { m.scrolled, m.edge, m.inWide = false, false, false }

// ---- text

// vfZeroWidth reports whether text consists of combining characters and joiners only.
func vfZeroWidth(text string) bool {
	for _, r := range text {
		if !unicode.Is(unicode.Mn, r) && !unicode.Is(unicode.Me, r) && r != 0x200d {
			return false
		}
	}
	return text != ""
}

// vfWide returns the columns of the character that covers x.
func vfWide(row []vfCell, x int) (start, end int) {
	start = x
	for start > 0 && row[start].w == 0 {
		start--
	}
	end = start + 1
	for end < len(row) && row[end].w == 0 {
		end++
	}
	return
}

// breakAt blanks the character that straddles the left edge of column x.
func (m *vfModel) breakAt(row []vfCell, x int) {
	if x <= 0 || x >= len(row) || row[x].w != 0 {
		return
	}
	a, b := vfWide(row, x)
	for i := a; i < b; i++ {
		row[i] = vfCell{" ", 1, m.style}
	}
}

func (m *vfModel) cellsFor(text string, w int) []vfCell {
	out := []vfCell{{text, w, m.style}}
	for i := 1; i < w; i++ {
		out = append(out, vfCell{"", 0, m.style})
	}
	return out
}

// putChar stores one character in the row of the cursor, starting at x.
func (m *vfModel) putChar(x int, text string, w int) {
	s := m.s()
	row := s.cells[s.cur.Y]
	ch := m.cellsFor(text, w)
	if row[x].w == 0 {
		m.inWide = true
		_, end := vfWide(row, x)
		if !m.grid && end+w <= m.w {
			// The wide character stays; the new one goes after it.
			if n := x + w - end; n > 0 {
				m.breakAt(row, end+n)
				row = append(append([]vfCell(nil), row[:end]...), row[end+n:]...)
			} else {
				row = append([]vfCell(nil), row...)
			}
			row = append(append(append([]vfCell(nil), row[:end]...), ch...), row[end:]...)
			m.breakAt(row, m.w)
			s.cells[s.cur.Y] = row[:m.w]
			return
		}
		m.breakAt(row, x)
	}
	m.breakAt(row, x+w)
	copy(row[x:], ch)
}

func (m *vfModel) writeChar(text string, w int) {
	s := m.s()
	if w > m.w {
		text, w = "\ufffd", 1
	}
	if s.cur.X+w > m.w {
		m.edge = true
		if s.wrap {
			s.cur.X = 0
			m.down(1)
		} else {
			s.cur.X = m.w - w
		}
	}
	m.putChar(s.cur.X, text, w)
	s.cur.X += w
	if s.cur.X >= m.w {
		m.edge = true
		if s.wrap {
			s.cur.X = 0
			m.down(1)
		} else {
			s.cur.X = m.w - 1
		}
	}
}

// join adds a zero-width or forced fragment to the character before the cursor.
func (m *vfModel) join(text string, w int) {
	s := m.s()
	if s.cur.X > 0 {
		row := s.cells[s.cur.Y]
		a, b := vfWide(row, s.cur.X-1)
		joined := row[a].text + text
		cl, rest, jw, _ := uniseg.FirstGraphemeClusterInString(joined, -1)
		if rest == "" && cl == joined {
			if jw < 1 {
				jw = 1
			}
			if jw == b-a {
				row[a].text = joined
				return
			}
		}
	}
	if w > 0 {
		m.writeChar(text, w)
	}
}

// text writes one read's worth of printable bytes.
func (m *vfModel) text(t string) {
	m.begin()
	force := false
	for _, c := range vfSegment(t, m.mode) {
		if m.mode == TextReadModeGrapheme {
			zero := vfZeroWidth(c.text)
			if zero || force {
				m.join(c.text, c.w)
				rs := []rune(c.text)
				force = zero && rs[len(rs)-1] == 0x200d
				continue
			}
		}
		m.writeChar(c.text, c.w)
	}
}

// ---- scrolling

// scroll shifts the rows [top,bot] down by n (up when negative).
func (m *vfModel) scroll(top, bot, n int) {
	s := m.s()
	if top > bot || n == 0 {
		return
	}
	m.scrolled = true
	size := bot - top + 1
	n = vfClamp(n, -size, size)
	if n < 0 {
		if top == 0 && m.alt == 0 {
			for y := 0; y < -n; y++ {
				m.lost = append(m.lost, append([]vfCell(nil), s.cells[y]...))
			}
		}
		copy(s.cells[top:bot+1], s.cells[top-n:bot+1])
		for y := bot + n + 1; y <= bot; y++ {
			s.cells[y] = vfBlankRow(m.w, m.style)
		}
		return
	}
	copy(s.cells[top+n:bot+1], s.cells[top:bot+1-n])
	for y := top; y < top+n; y++ {
		s.cells[y] = vfBlankRow(m.w, m.style)
	}
}

// down moves the cursor n rows down; crossing the bottom margin scrolls the region.
func (m *vfModel) down(n int) {
	s := m.s()
	in := s.cur.Y <= s.bot
	s.cur.Y += n
	if in && s.cur.Y > s.bot {
		m.edge = true
		m.scroll(s.top, s.bot, s.bot-s.cur.Y)
		s.cur.Y = s.bot
	}
	s.cur.Y = vfClamp(s.cur.Y, 0, m.h-1)
}

func (m *vfModel) up() {
	s := m.s()
	if s.cur.Y == s.top {
		m.edge = true
		m.scroll(s.top, s.bot, 1)
		return
	}
	s.cur.Y = vfClamp(s.cur.Y-1, 0, m.h-1)
}

func (m *vfModel) to(x, y int) {
	s := m.s()
	if x < 0 || y < 0 || x >= m.w || y >= m.h {
		m.edge = true
	}
	s.cur = Pos{vfClamp(x, 0, m.w-1), vfClamp(y, 0, m.h-1)}
}

// ---- erasing

func (m *vfModel) erase(y, x1, x2 int) {
	row := m.s().cells[y]
	x1, x2 = vfClamp(x1, 0, m.w), vfClamp(x2, 0, m.w)
	if x1 >= x2 {
		return
	}
	m.breakAt(row, x1)
	m.breakAt(row, x2)
	for x := x1; x < x2; x++ {
		row[x] = vfCell{" ", 1, m.style}
	}
}

func (m *vfModel) deleteChars(n int) {
	s := m.s()
	x, row := s.cur.X, s.cells[s.cur.Y]
	n = vfClamp(n, 0, m.w-x)
	if n == 0 {
		return
	}
	m.breakAt(row, x)
	m.breakAt(row, x+n)
	row = append(append([]vfCell(nil), row[:x]...), row[x+n:]...)
	s.cells[s.cur.Y] = append(row, vfBlankRow(n, m.style)...)
}

// ---- resize

func (m *vfModel) resize(w, h int) {
	m.begin()
	for i := range m.scr {
		s := &m.scr[i]
		full := s.top == 0 && s.bot == m.h-1
		g := make(vfGrid, h)
		for y := range g {
			if y >= m.h {
				g[y] = vfBlankRow(w, m.style)
				continue
			}
			row := append([]vfCell(nil), s.cells[y]...)
			if w < m.w {
				m.breakAt(row, w)
				row = row[:w]
			} else {
				row = append(row, vfBlankRow(w-m.w, m.style)...)
			}
			g[y] = row
		}
		s.cells = g
		s.cur = Pos{vfClamp(s.cur.X, 0, w-1), vfClamp(s.cur.Y, 0, h-1)}
		s.saved = Pos{vfClamp(s.saved.X, 0, w-1), vfClamp(s.saved.Y, 0, h-1)}
		if full {
			s.top, s.bot = 0, h-1
		}
	}
	m.w, m.h = w, h
}

// ---- modes, keyboard flags, queries

func (m *vfModel) setFlag(f ViewFlag, v bool) { m.flags[f] = v; m.told[fmt.Sprint("f", f)] = true }
func (m *vfModel) setInt(f ViewInt, v int)    { m.ints[f] = v; m.told[fmt.Sprint("i", f)] = true }
func (m *vfModel) setStr(f ViewString, v string) {
	m.strs[f] = v
	m.told[fmt.Sprint("s", f)] = true
}

func (m *vfModel) privateMode(p int, set bool) {
	iv := func(v int) int {
		if set {
			return v
		}
		return 0
	}
	switch p {
	case 1:
		m.setFlag(VFAppCursorKeys, set)
	case 7:
		m.s().wrap = set
	case 9:
		m.setInt(VIMouseMode, iv(MMPress))
	case 12:
		m.setFlag(VFBlinkCursor, set)
	case 25:
		m.setFlag(VFShowCursor, set)
	case 1000:
		m.setInt(VIMouseMode, iv(MMPressRelease))
	case 1002:
		m.setInt(VIMouseMode, iv(MMPressReleaseMove))
	case 1003:
		m.setInt(VIMouseMode, iv(MMPressReleaseMoveAll))
	case 1004:
		m.setFlag(VFReportFocus, set)
	case 1005, 1015:
		m.setInt(VIMouseEncoding, iv(MEUTF8))
	case 1006:
		m.setInt(VIMouseEncoding, iv(MESGR))
	case 1049:
		m.alt = iv(1)
	case 2004:
		m.setFlag(VFBracketedPaste, set)
	}
}

func (m *vfModel) kbdSet(flags, mode int) {
	s := m.s()
	switch mode {
	case 1:
		s.kflags = flags
	case 2:
		s.kflags |= flags
	case 3:
		s.kflags &^= flags
	}
}

func (m *vfModel) kbdPush(flags int) {
	s := m.s()
	s.kstack = append(s.kstack, s.kflags)
	if len(s.kstack) > 32 {
		s.kstack = s.kstack[1:]
	}
	s.kflags = flags
}

func (m *vfModel) kbdPop(n int) {
	s := m.s()
	for ; n > 0; n-- {
		if len(s.kstack) == 0 {
			s.kflags = 0
			return
		}
		s.kflags = s.kstack[len(s.kstack)-1]
		s.kstack = s.kstack[:len(s.kstack)-1]
	}
}

func (m *vfModel) reply(format string, args ...any) {
	m.replies = append(m.replies, fmt.Sprintf(format, args...)...)
}

// sync takes over what can be observed of the active screen.
func (m *vfModel) sync(sn vfSnap) {
	s := m.s()
	m.w, m.h = sn.w, sn.h
	s.cells = sn.cells.clone()
	s.cur, s.top, s.bot, s.wrap = sn.cur, sn.top, sn.bot, sn.wrap
	m.style = sn.style
}

// diff compares the active screen with what is observed.
func (m *vfModel) diff(sn vfSnap) string {
	s := m.s()
	switch {
	case sn.w != m.w || sn.h != m.h:
		return fmt.Sprintf("size is %dx%d, want %dx%d", sn.w, sn.h, m.w, m.h)
	case sn.cur != s.cur:
		return fmt.Sprintf("cursor is at (%d,%d), want (%d,%d)", sn.cur.X, sn.cur.Y, s.cur.X, s.cur.Y)
	case sn.top != s.top || sn.bot != s.bot:
		return fmt.Sprintf("scroll region is [%d,%d], want [%d,%d]", sn.top, sn.bot, s.top, s.bot)
	case sn.wrap != s.wrap:
		return fmt.Sprintf("autowrap is %v, want %v", sn.wrap, s.wrap)
	case sn.style != m.style:
		return fmt.Sprintf("style is %v, want %v", sn.style, m.style)
	}
	return vfDiffCells(sn.cells, s.cells)
}
