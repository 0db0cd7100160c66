package termemu

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
)

// C01 and C02: hostile streams. C01 watches for panics and lack of progress; C02 checks
// the well-formedness of both buffers after every input and every Resize.

// anyOp mixes everything the generators know.
func (g *vfGen) anyOp() vfOp {
	switch g.r.n(24) {
	case 0, 1, 2, 3, 4, 5:
		return g.text()
	case 6, 7:
		return g.erase()
	case 8, 9:
		return g.scroll()
	case 10, 11:
		return g.cup()
	case 12, 13:
		return g.motion()
	case 14:
		return g.margins()
	case 15:
		return g.sgr()
	case 16:
		return g.modes()
	case 17:
		return g.kbd()
	case 18:
		return vfQuery(vfPick(g.r, vfQueries))
	case 19:
		return g.osc()
	case 20:
		if g.r.p(30) {
			return g.keypad()
		}
		return g.unknown()
	case 21:
		return g.wrapMode()
	case 22:
		return vfMode(1049, g.r.p(50))
	}
	return vfMotion(vfPick(g.r, []string{"LF", "IND", "RI", "FF"}), "", 1)
}

var vfHostileText = []string{
	"\u0301", "\u200d", "\ufe0f", "🇺", "🇸", "🇺🇸🇫", "👩\u200d", "\u200d👩", "각", "ᄀ", "ᅡ", "ᆨ", "\u0600", "\u0600a", "⸻", "﷽", "\u1160",
	"e\u0301\u0301\u0301\u0301\u0301\u0301", "क्\u200dष", "👨\u200d👩\u200d👧\u200d👦", "☝🏿", "\ufeff", "\u00ad", "\u200b", "\u2028", "\u0085", "\u009b31m",
	"\xff\xfe", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\x80\x80", "\xc0\xaf", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x9c", "\x9b", "\x90",
	"\x00", "\x05", "\x0b", "\x0e", "\x0f", "\x18", "\x1a", "\x1b", "\x1b\x1b", "\x7f", "1\ufe0f\u20e3", "#\u20e3", "\U000e0061", "\u0e33", "\u0903",
}

var vfHostileCSI = []string{
	"\x1b[", "\x1b[?", "\x1b[>", "\x1b[=", "\x1b[<", "\x1b]", "\x1bP", "\x1b]0", "\x1b]2;", "\x1b]52;c;", "\x1b[38;2;", "\x1b[1;", "\x1b[;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;m",
	"\x1b[0L", "\x1b[0M", "\x1b[0P", "\x1b[0X", "\x1b[0S", "\x1b[0T", "\x1b[0A", "\x1b[0B", "\x1b[0;0r", "\x1b[5;3r", "\x1b[99;100r", "\x1b[38;5;999m", "\x1b[38;2;999;-1;3m", "\x1b[38;9m",
	"\x1b[99999999999999999999;99999999999999999999H", "\x1b[18446744073709551615S", "\x1b[9223372036854775807L", "\x1b[2147483648;2147483648r", "\x1b[9223372036854775807T",
	"\x1b[4294967295X", "\x1b[9223372036854775808P", "\x1b[2147483647M", "\x1b[>4;m", "\x1b[>4;99m", "\x1b[>99;1m", "\x1b[=999999;9u", "\x1b[<99999999999u", "\x1b[>9223372036854775807u", "\x1b[?1049;1049;1049h", "\x1b[?9999999999999h",
	"\x1bc", "\x1b#8", "\x1b7", "\x1b8", "\x1b=", "\x1b>", "\x1b(0", "\x1b%G", "\x1b^x\x1b\\", "\x1b_x\x1b\\", "\x1bXx\x1b\\", "\x1b\\", "\x1b[!p", "\x1b[3b", "\x1b[999999b", "\x1b[4h", "\x1b[2@", "\x1b[9I", "\x1b[9Z", "\x1b[`", "\x1b[3g",
	"\x1b[1\x1b[2J", "\x1b[\x0a1H", "\x1b]0;a\x1bb\a", "\x1b]\a", "\x1b];\a", "\x1b]abc\a", "\x1b]0\x1b\\", "\x1b]99999999999999999999;x\a", "\x1b[-1A", "\x1b[1-m", "\x1b[\x80m", "\x1b[é", "\x1bé",
	"\x1b[s", "\x1b[u", "\x1b[0J", "\x1b[3J", "\x1b[9J", "\x1b[9K", "\x1b[6n", "\x1b[99n", "\x1b[?6n", "\x1b[c", "\x1b[=c", "\x1b[5c",
}

// hostile makes bytes without regard to what is defined.
func (g *vfGen) hostile() vfOp {
	var sb strings.Builder
	switch g.r.n(9) {
	case 8: // numbers of any length wherever a number can stand
		num := g.digits()
		if g.r.p(20) {
			num = strings.Repeat("0", g.r.n(40)) + num
		}
		sb.WriteString(vfPick(g.r, []string{
			"\x1b]" + num + ";x\a", "\x1b]" + num + "\a", "\x1b]" + num + ";" + g.digits() + ";?\x1b\\", "\x1b]0" + num + ";t\x1b\\", "\x1b]" + num + num + ";y\x9c",
			"\x1bP" + num + ";" + g.digits() + "q" + g.digits() + "\x1b\\", "\x1bP" + num + "\x1b\\",
			"\x1b[" + vfPick(g.r, []string{"", "?", ">", "=", "<", "1;", "?25;", "38;5;", "38;2;1;", "48;2;1;2;", ">4;", "=1;"}) + num + string(rune(g.r.in(0x40, 0x7e))),
			"\x1b[" + num + ";" + g.digits() + vfPick(g.r, []string{"", ";", ";" + g.digits()}) + string(rune(g.r.in(0x40, 0x7e))),
		}))
	case 0:
		n := g.r.in(1, 40)
		for i := 0; i < n; i++ {
			sb.WriteByte(byte(g.r.n(256)))
		}
	case 1, 2:
		for i, n := 0, g.r.in(1, 5); i < n; i++ {
			sb.WriteString(vfPick(g.r, vfHostileText))
		}
	case 3, 4:
		sb.WriteString(vfPick(g.r, vfHostileCSI))
	case 5: // random sequence
		sb.WriteString("\x1b[")
		for i, n := 0, g.r.n(6); i < n; i++ {
			sb.WriteString(vfPick(g.r, []string{"", ";", ":", "?", ">", "=", "<", "0", "1", "2", "5", "38", "48", "1049", "7", "25", "99", "-", " ", "!", "$", strconv.Itoa(g.r.n(300)), vfPick(g.r, vfHuge)}))
			if g.r.p(50) {
				sb.WriteByte(';')
			}
		}
		sb.WriteByte(byte(g.r.in(0x40, 0x7e)))
	case 6: // an ordinary operation, damaged
		b := []byte(g.anyOp().bytes)
		for i, n := 0, g.r.in(1, 2); i < n && len(b) > 0; i++ {
			p := g.r.n(len(b))
			switch g.r.n(3) {
			case 0:
				b[p] = byte(g.r.n(256))
			case 1:
				b = append(b[:p], b[p+1:]...)
			default:
				b = append(b[:p], append([]byte{byte(g.r.n(256))}, b[p:]...)...)
			}
		}
		sb.Write(b)
	case 7: // wide and combining characters at the right edge
		if g.r.p(1) { // clusters without end
			sb.WriteString(vfPick(g.r, []string{"e", "世", "", "\xc3", "👩"}) + strings.Repeat(vfPick(g.r, []string{"\u0301", "\u0300\u0323", "\u200d👩", "🇺", "\ufe0f", "\U000e0067", "क्"}), g.r.in(50, 3000)))
		}
		fmt.Fprintf(&sb, "\x1b[%d;%dH", g.r.in(1, g.h), vfClamp(g.w-g.r.n(3), 1, g.w))
		for i, n := 0, g.r.in(1, 4); i < n; i++ {
			if g.r.p(50) {
				sb.WriteString(g.char())
			} else {
				sb.WriteString(vfPick(g.r, vfHostileText))
			}
		}
	}
	return vfOp{kind: "hostile", bytes: sb.String()}
}

// digits is a number of up to 25 digits, often one next to where an integer wraps around.
func (g *vfGen) digits() string {
	if g.r.p(50) {
		n := new(big.Int).Lsh(big.NewInt(int64(g.r.in(1, 7))), uint(vfPick(g.r, []int{7, 8, 15, 16, 24, 31, 32, 33, 62, 63, 64, 65})))
		return n.Add(n, big.NewInt(int64(g.r.in(-300, 300)))).Text(10)
	}
	b := make([]byte, vfPick(g.r, []int{1, 2, 3, 4, 5, 9, 10, 11, 18, 19, 19, 19, 20, 20, 21, 25}))
	for i := range b {
		b[i] = byte(g.r.in('0', '9'))
	}
	return string(b)
}

// vfStripSGR removes the SGR sequences of a rendered line.
func vfStripSGR(s string) (string, bool) {
	var sb strings.Builder
	for {
		i := strings.Index(s, "\x1b[")
		if i < 0 {
			sb.WriteString(s)
			return sb.String(), !strings.Contains(sb.String(), "\x1b")
		}
		sb.WriteString(s[:i])
		j := i + 2
		for j < len(s) && (s[j] == ';' || s[j] == ':' || s[j] >= '0' && s[j] <= '9') {
			j++
		}
		if j >= len(s) || s[j] != 'm' {
			return sb.String(), false
		}
		s = s[j+1:]
	}
}

// vfLineText concatenates what a styled line shows.
func vfLineText(l Line) string {
	var sb strings.Builder
	for _, sp := range l.Spans {
		if sp.Text != "" {
			sb.WriteString(sp.Text)
			continue
		}
		for i := 0; i < sp.Width; i++ {
			sb.WriteRune(sp.Rune)
		}
	}
	return sb.String()
}

// vfWellFormed checks the invariants of C02.
func vfWellFormed(s *vfSess, w, h int) (string, [2]vfSnap) {
	var bad string
	var sn [2]vfSnap
	s.locked(func() {
		for i, scr := range []screen{s.t.mainScreen, s.t.altScreen} {
			name := [...]string{"main", "alternate"}[i]
			var err error
			sn[i], err = vfSnapScreen(scr, s.mode)
			n := sn[i]
			switch {
			case n.w != w || n.h != h:
				bad = fmt.Sprintf("%s buffer has size %dx%d on a %dx%d terminal", name, n.w, n.h, w, h)
			case err != nil:
				bad = fmt.Sprintf("%s buffer: %v", name, err)
			case n.cur.X < 0 || n.cur.Y < 0 || n.cur.X >= w || n.cur.Y >= h:
				bad = fmt.Sprintf("%s buffer: cursor (%d,%d) is outside the %dx%d screen", name, n.cur.X, n.cur.Y, w, h)
			case n.top < 0 || n.bot >= h || n.top > n.bot:
				bad = fmt.Sprintf("%s buffer: scroll region [%d,%d] of %d rows", name, n.top, n.bot, h)
			}
			if bad != "" {
				return
			}
			for y := 0; y < h; y++ {
				l := scr.StyledLine(0, w, y)
				sum := 0
				for _, sp := range l.Spans {
					sum += sp.Width
				}
				if l.Width != sum {
					bad = fmt.Sprintf("%s buffer: row %d says width %d, its runs sum to %d", name, y, l.Width, sum)
					return
				}
				if a, b := scr.Line(y), vfLineText(l); a != b {
					bad = fmt.Sprintf("%s buffer: Line(%d) is %q, StyledLine shows %q", name, y, a, b)
					return
				}
			}
		}
		if tw, th := s.t.Size(); tw != w || th != h {
			bad = fmt.Sprintf("Size() is %dx%d, want %dx%d", tw, th, w, h)
			return
		}
		for y := 0; y < h; y++ {
			styled := vfLineText(s.t.StyledLine(0, w, y))
			if a := s.t.Line(y); a != styled {
				bad = fmt.Sprintf("Line(%d) is %q, StyledLine shows %q", y, a, styled)
				return
			}
			ansi, ok := vfStripSGR(s.t.ANSILine(y))
			if !ok || ansi != styled {
				bad = fmt.Sprintf("ANSILine(%d) shows %q, StyledLine %q", y, s.t.ANSILine(y), styled)
				return
			}
		}
		if s.fe.cursorN > 0 {
			if cu := s.fe.cursor; cu.X < 0 || cu.Y < 0 || cu.X >= w || cu.Y >= h {
				bad = fmt.Sprintf("the frontend was told cursor (%d,%d) on a %dx%d screen", cu.X, cu.Y, w, h)
			}
		}
	})
	return bad, sn
}

// vfAccessors calls every read accessor with in-range arguments.
func vfAccessors(s *vfSess, r *vfRand) {
	s.locked(func() {
		w, h := s.t.Size()
		for y := 0; y < h; y++ {
			_ = s.t.Line(y)
			_ = s.t.ANSILine(y)
			_ = s.t.StyledLine(0, w, y)
			x := r.n(w)
			_ = s.t.StyledLine(x, r.in(1, w-x), y)
			_ = s.t.StyledLine(w-1, 1, y)
		}
		_ = s.t.StyledLines(Region{0, 0, w, h})
		x, y := r.n(w), r.n(h)
		_ = s.t.StyledLines(Region{x, y, r.in(x+1, w), r.in(y+1, h)})
		_ = s.t.StyledLines(Region{x, y, r.in(x, w), r.in(y, h)}) // may be empty
		_ = s.t.StyledLines(Region{x, y, x, y})
		_ = s.t.StyledLine(x, 0, y)
		for _, scr := range []screen{s.t.mainScreen, s.t.altScreen} {
			_ = scr.Size()
			_ = scr.CursorPos()
			for y := 0; y < h; y++ {
				_ = scr.Line(y)
				_ = scr.StyledLine(0, w, y)
			}
		}
	})
}

// vfPrint calls PrintTerminal, which writes to the standard output.
func vfPrint(s *vfSess) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		return
	}
	defer null.Close()
	out := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = out }()
	s.t.PrintTerminal() // nothing else runs at this point
}

func vfHistory(hist []string) string {
	if len(hist) > 300 {
		hist = hist[len(hist)-300:]
	}
	return strings.Join(hist, "\n")
}

func vfHostileSize(r *vfRand) (int, int) {
	switch r.n(14) {
	case 0:
		return 1, 1
	case 1:
		return 200, r.in(1, 60)
	case 2:
		return r.in(1, 3), r.in(40, 120)
	case 3:
		return 80, 24
	case 4:
		return 80, 14
	}
	return vfSize(r)
}

// vfHostileRun drives one terminal with hostile input; after each read check is called.
func vfHostileRun(c *vfCtx, r *vfRand, mode TextReadMode, grid bool, steps int, check func(s *vfSess, w, h int, key uint64) string) {
	w, h := vfHostileSize(r)
	g := newVFGen(r, mode, w, h)
	g.zeroPct = 10
	g.widePct = vfPick(r, []int{10, 40})
	s := newVFSess(w, h, mode, grid)
	if r.p(50) {
		s.be.endErr = vfPick(r, vfReadErrors)
	}
	if r.p(15) {
		zr := vfSeed(r.u64())
		s.be.zero = func() bool { return zr.p(20) }
	}
	hist := []string{fmt.Sprintf("size %dx%d mode %d grid %v", w, h, mode, grid)}
	step := 0
	fed := false
	key := vfMix(uint64(w)<<20 ^ uint64(h)<<8 ^ uint64(mode))
	fail := func(what, detail string) {
		c.violate(what, what+"\n"+detail+"\n"+vfHistory(hist))
	}
	var carry string
	err := s.run(func() ([]byte, bool) {
		c.progress.Add(1)
		if fed {
			fed = false
			if bad := check(s, w, h, key); bad != "" {
				fail(bad, "")
				return nil, false
			}
		}
		for {
			if step >= steps {
				return nil, false
			}
			step++
			if carry == "" && r.p(8) || carry != "" && r.p(15) {
				op := g.resize()
				if r.p(15) {
					w, h = vfHostileSize(r)
				} else {
					w, h = op.w, op.h
				}
				g.w, g.h = w, h
				hist = append(hist, fmt.Sprintf("Resize(%d,%d)", w, h))
				key = vfMix(key ^ uint64(w)<<32 ^ uint64(h))
				if !s.t.TryLock() {
					fail("the loop holds the lock while it waits for input", "")
					return nil, false
				}
				s.t.Unlock()
				if err := s.t.Resize(w, h); err != nil {
					fail("Resize failed", err.Error())
					return nil, false
				}
				c.count("resizes", 1)
				if bad := check(s, w, h, key); bad != "" {
					fail(bad, "")
					return nil, false
				}
				continue
			}
			b := carry
			carry = ""
			if b == "" {
				for i, n := 0, r.in(1, 3); i < n; i++ {
					if r.p(45) {
						b += g.hostile().bytes
					} else {
						b += g.anyOp().bytes
					}
				}
			}
			if len(b) > 1 && r.p(30) { // the read ends anywhere
				k := r.in(1, len(b)-1)
				carry = b[k:]
				b = b[:k]
			}
			if b == "" {
				continue
			}
			hist = append(hist, strconv.Quote(b))
			key = vfMix(key ^ vfHashStr(b))
			fed = true
			return []byte(b), true
		}
	})
	if err != nil {
		fail(vfPanicSite(err), err.Error())
		return
	}
	func() {
		var e error
		defer func() {
			if e != nil {
				fail(vfPanicSite(e), e.Error())
			}
		}()
		defer vfRecover(&e)
		vfAccessors(s, r)
		if len(hist) < 14 {
			c.sample("%s", strings.Join(hist, " "))
		}
	}()
}

func init() {
	vfChecks["C02"] = func(c *vfCtx) {
		c.cases(c.scale(120000, 1500000), func(i int, r *vfRand) {
			mode := vfBothModes(i)
			vfHostileRun(c, r, mode, false, r.in(10, 60), func(s *vfSess, w, h int, key uint64) string {
				bad, sn := vfWellFormed(s, w, h)
				multi := false
				for _, n := range sn {
					for y := range n.cells {
						for _, cell := range n.cells[y] {
							if cell.w == 0 {
								multi = true
							}
						}
					}
				}
				c.eval(true, vfMix(sn[0].key()^sn[1].key()<<1))
				if multi {
					c.count("checked screens with wide characters", 1)
				}
				if len(s.be.out) > 0 && bad == "" {
					bad = vfCheckReports(s.be.out, w, h)
					s.be.out = s.be.out[:0]
				}
				return bad
			})
		})
	}
	vfChecks["C01"] = func(c *vfCtx) {
		c.cases(c.scale(120000, 1500000), func(i int, r *vfRand) {
			mode := vfBothModes(i)
			n := 0
			vfHostileRun(c, r, mode, i%7 == 0, r.in(10, 80), func(s *vfSess, w, h int, key uint64) (bad string) {
				c.eval(true, key)
				if n++; n%4 == 0 {
					var e error
					func() {
						defer vfRecover(&e)
						vfAccessors(s, r)
						if n%64 == 0 || n == 4 && i%16 == 0 {
							vfPrint(s)
						}
					}()
					c.count("accessor sweeps", 1)
					if e != nil {
						return "accessor: " + e.Error()
					}
				}
				return ""
			})
		})
	}
}

// vfCheckReports looks for cursor position reports outside the screen. The size may have
// changed since the report only by a Resize, before which the log is emptied.
func vfCheckReports(out []byte, w, h int) string {
	for i := 0; i < len(out); i++ {
		if out[i] != 0x1b {
			continue
		}
		var y, x int
		if n, _ := fmt.Sscanf(string(out[i:]), "\x1b[%d;%dR", &y, &x); n == 2 {
			end := strings.IndexAny(string(out[i+2:]), "Rcnu")
			if end < 0 || out[i+2+end] != 'R' {
				continue
			}
			if x < 1 || y < 1 || x > w || y > h {
				return fmt.Sprintf("cursor position report row %d column %d on a %dx%d screen", y, x, w, h)
			}
		}
	}
	return ""
}
