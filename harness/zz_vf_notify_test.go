package termemu

import (
	"bytes"
	"fmt"
	"strings"
)

// C10: a mirror that repaints only what is announced. C11: rendering and interpreting again.

// vfMirror keeps a copy of the screen from the announcements alone.
type vfMirror struct {
	s       *vfSess
	g       vfGrid
	w, h    int
	regions int64
	bad     string
	lost    [][]vfCell
	scrolls []int
	partial bool // read back only the announced columns
}

func newVFMirror(s *vfSess, w, h int) *vfMirror {
	m := &vfMirror{s: s, w: w, h: h, g: vfBlankGrid(w, h, vfStyle{})}
	s.fe.onRegion = m.region
	s.fe.onScroll = m.scroll
	return m
}

func (m *vfMirror) region(r Region, _ ChangeReason) {
	m.regions++
	tw, _ := m.s.t.Size()
	if x, x2 := vfClamp(r.X, 0, tw), vfClamp(r.X2, 0, tw); m.partial && x < x2 {
		y1, y2 := vfClamp(r.Y, 0, m.h), vfClamp(r.Y2, 0, m.h)
		var lines []Line
		if m.regions%3 == 0 && y1 < y2 {
			if lines = m.s.t.StyledLines(Region{x, y1, x2, y2}); len(lines) != y2-y1 {
				m.bad = fmt.Sprintf("StyledLines of rows %d-%d returns %d lines", y1, y2, len(lines))
				return
			}
		}
		for y := y1; y < y2; y++ {
			line := Line{}
			if lines != nil {
				line = lines[y-y1]
			} else {
				line = m.s.t.StyledLine(x, x2-x, y)
			}
			row, err := vfRowCells(line, x2-x, m.s.mode, nil)
			if err != nil {
				if m.bad == "" {
					m.bad = fmt.Sprintf("columns %d-%d of row %d read inside RegionChanged: %v", x, x2, y, err)
				}
				return
			}
			for i := range row {
				if x+i < m.w {
					m.g[y][x+i] = row[i]
				}
			}
		}
		return
	}
	for y := vfClamp(r.Y, 0, m.h); y < vfClamp(r.Y2, 0, m.h); y++ {
		row, err := vfRowCells(m.s.t.StyledLine(0, tw, y), tw, m.s.mode, nil)
		if err != nil {
			if m.bad == "" {
				m.bad = fmt.Sprintf("row %d read inside RegionChanged: %v", y, err)
			}
			return
		}
		for x := vfClamp(r.X, 0, m.w); x < vfClamp(r.X2, 0, m.w) && x < len(row); x++ {
			m.g[y][x] = row[x]
		}
	}
}

func (m *vfMirror) scroll(n int) {
	w, h := m.s.t.Size()
	m.scrolls = append(m.scrolls, n)
	for y := 0; y < n && y < h; y++ {
		row, err := vfRowCells(m.s.t.StyledLine(0, w, y), w, m.s.mode, nil)
		if err != nil && m.bad == "" {
			m.bad = fmt.Sprintf("row %d read inside ScrollLines: %v", y, err)
		}
		m.lost = append(m.lost, row)
	}
}

// resize prepares for a Resize: what overlaps is kept, the rest is unknown.
func (m *vfMirror) resize(w, h int) {
	g := make(vfGrid, h)
	for y := range g {
		g[y] = make([]vfCell, w)
		for x := range g[y] {
			if y < m.h && x < m.w {
				g[y][x] = m.g[y][x]
			} else {
				g[y][x] = vfCell{"?", 9, vfStyle{}}
			}
		}
	}
	m.g, m.w, m.h = g, w, h
}

// vfTold compares the last notified values with the terminal's.
func vfTold(s *vfSess, initial *vfFront) string {
	f := s.fe
	bad := ""
	s.locked(func() {
		cur := s.t.screen().CursorPos()
		if f.cursor != cur {
			bad = fmt.Sprintf("cursor last notified as (%d,%d), it is at (%d,%d)", f.cursor.X, f.cursor.Y, cur.X, cur.Y)
			return
		}
		if a, b := vfDecodeStyle(f.style), vfDecodeStyle(s.t.screen().Style()); a != b {
			bad = fmt.Sprintf("style last notified as %v, it is %v", a, b)
			return
		}
		for v := ViewFlag(0); v < viewFlagCount; v++ {
			told, ok := f.flags[v]
			if !ok {
				told = initial.flags[v]
			}
			if now := s.t.GetViewFlag(v); told != now {
				bad = fmt.Sprintf("view flag %d last notified as %v, it is %v", v, told, now)
				return
			}
		}
		for v := ViewInt(0); v < viewIntCount; v++ {
			told, ok := f.ints[v]
			if !ok {
				told = initial.ints[v]
			}
			if now := s.t.GetViewInt(v); told != now {
				bad = fmt.Sprintf("view int %d last notified as %v, it is %v", v, told, now)
				return
			}
		}
		for v := ViewString(0); v < viewStringCount; v++ {
			told, ok := f.strs[v]
			if !ok {
				told = initial.strs[v]
			}
			if now := s.t.GetViewString(v); told != now {
				bad = fmt.Sprintf("view string %d last notified as %q, it is %q", v, told, now)
				return
			}
		}
	})
	return bad
}

// swapFrontend replaces the frontend by one that has been told the same.
func (s *vfSess) swapFrontend() {
	old := s.fe
	s.fe = newVFFront()
	s.fe.t, s.fe.cursor, s.fe.style = old.t, old.cursor, old.style
	for v, x := range old.flags {
		s.fe.flags[v] = x
	}
	for v, x := range old.ints {
		s.fe.ints[v] = x
	}
	for v, x := range old.strs {
		s.fe.strs[v] = x
	}
	s.fe.onRegion, s.fe.onScroll, s.fe.onCursor, s.fe.onAny = old.onRegion, old.onScroll, old.onCursor, old.onAny
	old.onRegion, old.onScroll, old.onCursor, old.onAny = nil, nil, nil, nil
	s.t.SetFrontend(s.fe)
}

func vfInitialView(s *vfSess) *vfFront {
	f := newVFFront()
	s.locked(func() {
		for v := ViewFlag(0); v < viewFlagCount; v++ {
			f.flags[v] = s.t.GetViewFlag(v)
		}
		for v := ViewInt(0); v < viewIntCount; v++ {
			f.ints[v] = s.t.GetViewInt(v)
		}
		for v := ViewString(0); v < viewStringCount; v++ {
			f.strs[v] = s.t.GetViewString(v)
		}
	})
	return f
}

// modifyOther sets xterm's modifyOtherKeys.
func (g *vfGen) modifyOther() vfOp {
	n := g.r.n(3)
	return vfOp{kind: "mok", bytes: fmt.Sprintf("\x1b[>4;%dm", n), apply: func(m *vfModel) { m.begin(); m.setInt(VIModifyOtherKeys, n) }}
}

func vfSameRows(a, b [][]vfCell) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !vfSameRow(a[i], b[i]) {
			return false
		}
	}
	return true
}

// vfScrollWatch tells whether the rows lost in the last step were announced. It speaks
// only when the screen ended up as the model says, so that a scroll that moved the wrong
// rows is judged elsewhere.
func vfLostCheck(op vfOp, post vfSnap, m *vfModel, mir *vfMirror, top, bot int, curY int) string {
	if m.diff(post) != "" {
		return ""
	}
	if (op.kind == "DL" || op.kind == "IL") && curY == 0 {
		return "" // a deleted line is not necessarily scrolled off
	}
	if m.alt == 1 {
		if len(mir.lost) > 0 {
			return fmt.Sprintf("ScrollLines %v on the alternate screen", mir.scrolls)
		}
		return ""
	}
	if !vfSameRows(mir.lost, m.lost) {
		return fmt.Sprintf("%d rows left the top of the main screen; ScrollLines announced %v, when the top rows were %v; lost %v", len(m.lost), mir.scrolls, vfGrid(mir.lost), vfGrid(m.lost))
	}
	return ""
}

func init() {
	vfChecks["C10"] = func(c *vfCtx) {
		c.cases(c.scale(270000, 3500000), func(i int, r *vfRand) {
			mode := vfBothModes(i)
			w, h, steps := c.session(r, 20, 70)
			g := newVFGen(r, mode, w, h)
			g.widePct = vfPick(r, []int{5, 20, 60})
			g.zeroPct = 6
			s := newVFSess(w, h, mode, false)
			k := &vfWork{c: c, s: s, m: newVFModel(w, h, mode, false), steps: steps}
			k.judged = func(vfOp) bool { return false }
			mir := newVFMirror(s, w, h)
			mir.partial = r.p(50)
			initial := vfInitialView(s)
			prevRegions := int64(0)
			k.after = func(op vfOp, pre, post vfSnap) string {
				d := ""
				if mir.bad != "" {
					d = mir.bad
				} else if d = vfDiffCells(mir.g, post.cells); d != "" {
					d = "the mirror is stale: " + d
				} else if d = vfTold(s, initial); d == "" && op.kind != "multi" {
					d = vfLostCheck(op, post, k.m, mir, pre.top, pre.bot, pre.cur.Y)
				}
				c.eval(pre.key() != post.key() || mir.regions != prevRegions, vfMix(pre.key()^vfHashStr(op.String())^uint64(mode)))
				prevRegions = mir.regions
				c.count("op "+op.kind, 1)
				if len(mir.lost) > 0 {
					c.count("rows announced through ScrollLines", int64(len(mir.lost)))
				}
				mir.lost, mir.scrolls = nil, nil
				k.m.lost = nil
				return d
			}
			next := vfMenu(r,
				vfChoice{30, g.text}, vfChoice{12, g.erase}, vfChoice{14, g.scroll}, vfChoice{14, func() vfOp { return g.cupNear(k.m) }},
				vfChoice{10, g.motion}, vfChoice{6, g.margins}, vfChoice{6, g.sgr}, vfChoice{5, g.wrapMode},
				vfChoice{8, g.modes}, vfChoice{5, func() vfOp { return vfMode(1049, r.p(55)) }},
				vfChoice{2, g.osc}, vfChoice{2, g.modifyOther}, vfChoice{2, g.keypad}, vfChoice{2, g.unknown}, vfChoice{3, g.resize},
				vfChoice{8, func() vfOp { // several operations in one read
					op := vfOp{kind: "multi"}
					var fs []func(m *vfModel)
					for j, n := 0, r.in(2, 5); j < n; j++ {
						o := g.anyOp()
						op.bytes += o.bytes
						fs = append(fs, o.apply)
					}
					op.apply = func(m *vfModel) {
						for _, f := range fs {
							f(m)
						}
					}
					return op
				}})
			k.next = func(step int) vfOp {
				if r.p(2) { // another frontend takes over, knowing what the last one knew
					s.swapFrontend()
					k.hist = append(k.hist, vfOp{kind: "SetFrontend"})
					c.count("frontends replaced", 1)
				}
				op := next(step)
				if op.resize {
					mir.resize(op.w, op.h)
				}
				return op
			}
			k.run()
			c.count("regions announced", mir.regions)
		})
	}

	vfChecks["C11"] = func(c *vfCtx) {
		c.cases(c.scale(288000, 4000000), func(i int, r *vfRand) {
			if i%3 == 0 {
				vfRerender(c, r, vfBothModes(i/3))
			} else {
				vfTTY(c, r, vfBothModes(i/3))
			}
		})
	}
}

func (g *vfGen) screenOp(m *vfModel) func(int) vfOp {
	return vfMenu(g.r,
		vfChoice{40, g.text}, vfChoice{10, g.erase}, vfChoice{6, g.scroll}, vfChoice{16, func() vfOp { return vfCUP(g.r.n(g.w), g.r.n(g.h)) }},
		vfChoice{6, g.motion}, vfChoice{3, g.margins}, vfChoice{20, g.sgr}, vfChoice{3, g.wrapMode},
		vfChoice{3, func() vfOp { return vfMode(1049, g.r.p(55)) }}, vfChoice{5, g.noiseOp}, vfChoice{8, g.rewrite})
}

// vfRerender feeds every ANSILine of a terminal into a fresh one.
func vfRerender(c *vfCtx, r *vfRand, mode TextReadMode) {
	w, h := vfSize(r)
	g := newVFGen(r, mode, w, h)
	g.widePct = vfPick(r, []int{0, 20, 60})
	g.zeroPct = 5
	s := newVFSess(w, h, mode, false)
	var hist []string
	next := g.screenOp(nil)
	for round := 0; round < 3; round++ {
		var chunks []string
		for j, n := 0, r.in(3, 20); j < n; j++ {
			chunks = append(chunks, next(j).bytes)
		}
		hist = append(hist, fmt.Sprintf("%q", chunks))
		if err := s.feed(chunks...); err != nil {
			return
		}
		if r.p(10) {
			w, h = vfSize(r)
			g.w, g.h = w, h
			_ = s.t.Resize(w, h)
			hist = append(hist, fmt.Sprintf("Resize(%d,%d)", w, h))
		}
		want, err := s.snap()
		if err != nil {
			return // C02
		}
		fresh := newVFSess(w, h, mode, false)
		var in []string
		var lines []string
		var e error
		func() {
			defer vfRecover(&e)
			s.locked(func() {
				for y := 0; y < h; y++ {
					lines = append(lines, s.t.ANSILine(y))
				}
			})
		}()
		how := r.n(3)
		for y, l := range lines {
			l = fmt.Sprintf("\x1b[%d;1H", y+1) + l
			if how > 0 {
				l += "\x1b[m"
			}
			in = append(in, l)
		}
		if how == 2 {
			in = []string{strings.Join(in, "")}
		}
		if e == nil {
			e = fresh.feedWhole(in...)
		}
		var got vfSnap
		if e == nil {
			got, e = fresh.snap()
		}
		d := ""
		if e != nil {
			d = vfPanicSite(e)
		} else {
			d = vfDiffCells(got.cells, want.cells)
		}
		styles := map[vfStyle]bool{}
		for y := range want.cells {
			for _, cell := range want.cells[y] {
				styles[cell.st] = true
			}
		}
		c.eval(len(styles) > 1, want.cells.hash())
		c.count("screens rendered again", 1)
		c.count("styles in them", int64(len(styles)))
		if d != "" {
			c.violate("ANSILine: "+d, fmt.Sprintf("size %dx%d mode %d: %s\nlines %q\nscreen:\n%vrendered:\n%vhistory:\n%s", w, h, mode, d, lines, want.cells, got.cells, strings.Join(hist, "\n")))
			return
		}
		if w*h < 30 {
			c.sample("%dx%d lines %q reproduce the screen", w, h, lines)
		}
	}
}

// vfTTYOut is the tty a TTYFrontend writes to.
type vfTTYOut struct {
	buf   bytes.Buffer
	total int64
}

func (o *vfTTYOut) Write(p []byte) (int, error) { o.total += int64(len(p)); return o.buf.Write(p) }

// vfTTY compares an outer terminal, which interprets what a TTYFrontend writes, with the
// inner one.
func vfTTY(c *vfCtx, r *vfRand, mode TextReadMode) {
	w, h, steps := c.session(r, 15, 45)
	g := newVFGen(r, mode, w, h)
	g.widePct = vfPick(r, []int{0, 20, 60})
	g.zeroPct = 5
	ow, oh := w+r.n(6), h+r.n(4)
	small := r.p(25)
	if small { // the outer terminal is the smaller one
		ow, oh = r.in(1, w), r.in(1, h)
	}
	outer := newVFSess(ow, oh, mode, false)
	if r.p(60) { // terminals wrap unless told otherwise
		_ = outer.feed("\x1b[?7h")
	}
	out := &vfTTYOut{}
	fe := NewTTYFrontend(nil, out)
	be := &vfBackend{}
	var inner *terminal
	attached, focused, show, cursorKnown := false, true, true, false
	var region Region
	fail := func(what, detail string) { c.violate(what, what+"\n"+detail) }
	start := vfPick(r, []string{"SetTerminal", "SetTerminal", "SetTerminal", "SetFrontend", "attach first", "attach first"})
	if start == "SetFrontend" {
		inner = newTerminal(&EmptyFrontend{}, be, mode)
		fe = NewTTYFrontend(inner, out)
		inner.SetFrontend(fe)
	} else {
		inner = newTerminal(fe, be, mode)
		if start == "attach first" { // both screens are blank, so there is nothing to show yet
			region = Region{0, 0, ow, oh}
			if r.p(50) {
				region = Region{r.n(min(w, ow)), r.n(min(h, oh)), ow, oh}
			}
			var e error
			func() {
				defer vfRecover(&e)
				fe.Attach(region)
				fe.Focus()
			}()
			if e != nil {
				fail("Attach without a terminal: "+vfPanicSite(e), e.Error())
				return
			}
			attached = true
		}
		fe.SetTerminal(inner)
	}
	s := &vfSess{t: inner, fe: newVFFront(), be: be, mode: mode}
	if tw, th := inner.Size(); tw != w || th != h {
		_ = inner.Resize(w, h)
	}
	hist := []string{fmt.Sprintf("inner %dx%d outer %dx%d mode %d, %s, region %+v", w, h, ow, oh, mode, start, region)}
	// Junk on the outer terminal: whatever is inside the region must be replaced.
	// It consists of single-cell characters: half of a wide one at the region's edge is not
	// the frontend's to repair.
	junk := func() {
		_ = outer.feed("\x1b[41m\x1b[2J" + g.textOfASCII(2*ow) + "\x1b[m\x1b[" + fmt.Sprint(r.in(1, oh)) + "H")
	}
	if !attached {
		junk()
	}
	if !attached && out.buf.Len() > 0 {
		c.violate("a TTYFrontend that was never attached wrote something", fmt.Sprintf("%q", out.buf.String()))
		return
	}
	next := g.screenOp(nil)
	fail = func(what, detail string) {
		c.violate(what, what+"\n"+detail+"\n"+strings.Join(hist, "\n"))
	}
	check := func(event string) bool {
		written := out.buf.String()
		out.buf.Reset()
		pre, preErr := outer.snap()
		if err := outer.feedWhole(written); err != nil {
			fail("outer terminal: "+vfPanicSite(err), err.Error())
			return false
		}
		in, err := s.snap()
		if err != nil {
			return false // C02
		}
		o, err := outer.snap()
		if err != nil {
			return false
		}
		c.count("frontend output bytes", int64(len(written)))
		if preErr == nil && attached {
			// The rest of the outer terminal belongs to others.
			for y := range o.cells {
				for x := range o.cells[y] {
					if a, b := pre.cells[y][x], o.cells[y][x]; a != b && !(x >= region.X && x < region.X2 && y >= region.Y && y < region.Y2) {
						fail("the outer terminal changed outside the region", fmt.Sprintf("after %s: cell (%d,%d) was %q %v, is %q %v\nregion %+v\nlast output %q", event, x, y, a.text, a.st, b.text, b.st, region, written))
						return false
					}
				}
			}
		}
		if !attached {
			c.eval(false, 0)
			c.count("checks while detached", 1)
			if written != "" && event != "detach" && event != "blur" {
				fail("output while detached", fmt.Sprintf("after %s: %q", event, written))
				return false
			}
			if (event == "detach" || event == "blur") && written != "\x1b[?25h" && written != "" {
				fail("output other than a show-cursor when detached", fmt.Sprintf("after %s: %q", event, written))
				return false
			}
			return true
		}
		rg := region.Intersect(Region{0, 0, in.w, in.h})
		if rg.Empty() {
			return true
		}
		for y := rg.Y; y < rg.Y2; y++ {
			for x := rg.X; x < rg.X2; x++ {
				a, b := in.cells[y][x], o.cells[y][x]
				if a == b {
					continue
				}
				if s, e := vfWide(in.cells[y], x); e-s > 1 && (s < rg.X || e > rg.X2) {
					continue // half of a wide character cannot be shown
				}
				fail("the outer terminal differs inside the region", fmt.Sprintf("after %s: cell (%d,%d) is %q w%d %v, want %q w%d %v\nregion %+v\ninner:\n%vouter:\n%vlast output %q", event, x, y, b.text, b.w, b.st, a.text, a.w, a.st, region, in.cells, o.cells, written))
				return false
			}
		}
		c.eval(true, vfMix(in.key()^uint64(rg.X)<<3^uint64(rg.Y)<<13^uint64(rg.X2)<<23^uint64(rg.Y2)<<33^uint64(mode)))
		c.count("checks while attached", 1)
		if focused && cursorKnown {
			visible := outer.t.GetViewFlag(VFShowCursor)
			want := show && in.cur.X >= rg.X && in.cur.X < rg.X2 && in.cur.Y >= rg.Y && in.cur.Y < rg.Y2
			if visible != want {
				fail(fmt.Sprintf("the outer cursor's visibility is %v, want %v", visible, want), fmt.Sprintf("after %s: inner cursor %v region %+v shown %v, last output %q", event, in.cur, region, show, written))
				return false
			}
			if want && o.cur != in.cur {
				fail("the outer cursor is misplaced", fmt.Sprintf("after %s: at %v, inner cursor %v, last output %q", event, o.cur, in.cur, written))
				return false
			}
			c.count("cursor checks", 1)
		}
		return true
	}
	step := 0
	event := ""
	if attached {
		event = start
	}
	attach := func() string {
		region = Region{0, 0, ow, oh}
		switch r.n(5) {
		case 0:
			region = Region{0, 0, min(w, ow), min(h, oh)}
		case 1, 2:
			region.X, region.Y = r.n(min(w, ow)), r.n(min(h, oh))
			region.X2, region.Y2 = r.in(region.X+1, min(w, ow)), r.in(region.Y+1, min(h, oh))
		case 3:
			region.X, region.Y = r.n(min(w, ow)), r.n(min(h, oh))
			region.X2, region.Y2 = r.in(region.X+1, ow), r.in(region.Y+1, oh)
		case 4:
			if r.p(30) && !small {
				region = Region{-r.n(3), -r.n(3), ow + r.n(3), oh + r.n(3)}
			}
		}
		if attached { // what the old region showed stays behind
			junk()
		}
		fe.Attach(region)
		attached, cursorKnown = true, true
		return fmt.Sprintf("attach %+v", region)
	}
	err := s.run(func() ([]byte, bool) {
		for {
			if event != "" && !check(event) {
				return nil, false
			}
			event = ""
			if step >= steps {
				return nil, false
			}
			step++
			c.progress.Add(1)
			switch r.n(22) {
			case 0, 1:
				event = attach()
			case 2:
				if attached {
					fe.Detach()
					attached = false
					event = "detach"
					// The outer terminal belongs to someone else meanwhile.
					hist = append(hist, event)
					if !check(event) {
						return nil, false
					}
					junk()
					event = "junk on the outer terminal"
				}
			case 3:
				if r.p(50) && attached {
					fe.SetFocus(false)
					focused = false
					event = "blur"
				} else {
					fe.SetFocus(true)
					focused = true
					event = "focus"
				}
			case 4:
				nw, nh := r.in(1, ow), r.in(1, oh)
				if small && r.p(50) {
					nw, nh = vfSize(r)
				}
				w, h = nw, nh
				g.w, g.h = nw, nh
				_ = inner.Resize(nw, nh)
				event = fmt.Sprintf("Resize(%d,%d)", nw, nh)
			case 5:
				show = r.p(60)
				event = fmt.Sprintf("show cursor %v", show)
				hist = append(hist, event)
				return []byte(vfMode(25, show).bytes), true
			default:
				event = ""
				b := ""
				for j, n := 0, r.in(1, 3); j < n; j++ {
					op := next(0)
					b += op.bytes
					for _, m := range op.modes {
						if m == 25 {
							show = op.set
						}
					}
				}
				event = fmt.Sprintf("%q", b)
				hist = append(hist, event)
				return []byte(b), true
			}
			if event != "" {
				hist = append(hist, event)
			}
		}
	})
	if err != nil {
		fail(vfPanicSite(err), err.Error())
	}
}
