package termemu

import (
	"fmt"
	"strings"
)

// C17: isolation of the two buffers and idempotence of modes. C18: Resize. C20: the two
// screen implementations.

func (a vfSnap) sameExceptStyle(b vfSnap) string {
	b.style = a.style
	return vfDiffSnap("", a, b)
}

// vfModeLog is what setting or resetting a private mode must tell the frontend.
func vfModeNotices(p int, set bool) []string {
	m := newVFModel(1, 1, TextReadModeRune, false)
	m.privateMode(p, set)
	var out []string
	for f := ViewFlag(0); f < viewFlagCount; f++ {
		if m.told[fmt.Sprint("f", f)] {
			out = append(out, fmt.Sprintf("flag %d=%v", f, m.flags[f]))
		}
	}
	for f := ViewInt(0); f < viewIntCount; f++ {
		if m.told[fmt.Sprint("i", f)] {
			out = append(out, fmt.Sprintf("int %d=%d", f, m.ints[f]))
		}
	}
	return out
}

func vfIsolation(c *vfCtx, r *vfRand, mode TextReadMode) {
	w, h, steps := c.session(r, 20, 70)
	g := newVFGen(r, mode, w, h)
	s := newVFSess(w, h, mode, false)
	m := newVFModel(w, h, mode, false) // modes, kbd flags, saved cursors
	var hist []string
	main, alt, err := s.snapBoth()
	if err != nil {
		return
	}
	prev := [2]vfSnap{main, alt}
	var op vfOp
	var ps []int // modes of the last operation
	var set bool
	step := 0
	s.fe.logging = true
	menu := vfMenu(r,
		vfChoice{24, g.text}, vfChoice{8, g.erase}, vfChoice{8, g.scroll}, vfChoice{8, g.cup}, vfChoice{8, g.motion}, vfChoice{8, g.margins},
		vfChoice{6, g.sgr}, vfChoice{6, g.wrapMode}, vfChoice{10, g.kbd}, vfChoice{3, g.osc}, vfChoice{2, g.unknown}, vfChoice{3, g.resize}, vfChoice{2, g.keypad}, vfChoice{3, g.modifyOther},
		vfChoice{10, func() vfOp { // one or several modes, repeated more often than not
			ps = []int{vfPick(r, vfPrivateModes)}
			if r.p(35) {
				ps = g.modeNumbers()
			}
			set = r.p(50)
			return vfModeList(ps, set)
		}},
		vfChoice{14, func() vfOp { ps, set = []int{1049}, r.p(50); return vfModeList(ps, set) }},
		vfChoice{8, func() vfOp { // the same mode again
			if len(ps) == 0 {
				ps = []int{7}
			}
			return vfModeList(ps, set)
		}})
	fail := func(what, detail string) {
		c.violate(op.kind+": "+what, fmt.Sprintf("after %v: %s\nsize %dx%d mode %d\n%s\nhistory:\n%s", op, what, w, h, mode, detail, strings.Join(hist, "\n")))
	}
	settle := func() bool {
		mn, al, err := s.snapBoth()
		if err != nil {
			return false // C02
		}
		now := [2]vfSnap{mn, al}
		before := m.alt
		flagsBefore := m.flags
		intsBefore := m.ints
		wraps := [2]bool{prev[0].wrap, prev[1].wrap}
		if op.apply != nil {
			if op.kind == "mode" || op.kind == "kbd=" || op.kind == "kbd>" || op.kind == "kbd<" || op.kind == "save" || op.kind == "mok" || op.kind == "keypad" || op.kind == "OSC" {
				m.scr[m.alt].cur = prev[m.alt].cur
				op.apply(m)
			}
		}
		c.eval(prev[0].key() != now[0].key() || prev[1].key() != now[1].key() || before != m.alt, vfMix(prev[0].key()^prev[1].key()<<1^vfHashStr(op.String())^uint64(before)))
		c.count("op "+op.kind, 1)
		active := 0
		if s.t.screen() == s.t.altScreen {
			active = 1
		}
		if active != m.alt {
			fail(fmt.Sprintf("buffer %d is active, want %d", active, m.alt), "")
			return false
		}
		switch {
		case op.resize:
			m.resize(op.w, op.h)
		case op.kind == "mode":
			ps, set := op.modes, op.set
			// Neither buffer changes, except autowrap of the one that is active at the time.
			exp := newVFModel(1, 1, mode, false)
			exp.alt = before
			exp.scr[0].wrap, exp.scr[1].wrap = wraps[0], wraps[1]
			for _, p := range ps {
				exp.privateMode(p, set)
			}
			for b := range now {
				want := prev[b]
				want.wrap = exp.scr[b].wrap
				if d := now[b].sameExceptStyle(want); d != "" {
					fail(fmt.Sprintf("buffer %d changed: %s", b, d), "")
					return false
				}
			}
			if before != m.alt {
				c.count("buffer switches", 1)
			} else if flagsBefore == m.flags && intsBefore == m.ints && wraps == [2]bool{now[0].wrap, now[1].wrap} {
				c.count("redundant mode changes", 1)
			}
			var want []string
			for _, p := range ps {
				want = append(want, vfModeNotices(p, set)...)
			}
			var got []string
			for _, l := range s.fe.log {
				if strings.HasPrefix(l, "flag") || strings.HasPrefix(l, "int") {
					got = append(got, l)
				}
			}
			if d := vfDiffStrs("mode notification", got, want); d != "" {
				fail(d, fmt.Sprintf("got %q want %q", got, want))
				return false
			}
		default:
			if d := now[1-m.alt].sameExceptStyle(prev[1-m.alt]); d != "" {
				fail("the inactive buffer changed: "+d, "")
				return false
			}
			if op.kind == "restore" && now[m.alt].cur != m.s().saved {
				fail(fmt.Sprintf("restored the cursor to %v, want %v", now[m.alt].cur, m.s().saved), "")
				return false
			}
		}
		for f := ViewFlag(0); f < viewFlagCount; f++ {
			if s.t.GetViewFlag(f) != m.flags[f] {
				fail(fmt.Sprintf("view flag %d is %v, want %v", f, s.t.GetViewFlag(f), m.flags[f]), "")
				return false
			}
		}
		for f := ViewInt(0); f < viewIntCount; f++ {
			if s.t.GetViewInt(f) != m.ints[f] {
				fail(fmt.Sprintf("view int %d is %d, want %d", f, s.t.GetViewInt(f), m.ints[f]), "")
				return false
			}
		}
		for f := ViewString(0); f < viewStringCount; f++ {
			if s.t.GetViewString(f) != m.strs[f] {
				fail(fmt.Sprintf("view string %d is %q, want %q", f, s.t.GetViewString(f), m.strs[f]), "")
				return false
			}
		}
		if k := s.t.keyboardFlags(); k != m.s().kflags {
			fail(fmt.Sprintf("keyboard flags are %d, want %d", k, m.s().kflags), "")
			return false
		}
		s.fe.log = s.fe.log[:0]
		prev = now
		return true
	}
	have := false
	err = s.run(func() ([]byte, bool) {
		if have {
			have = false
			if !settle() {
				return nil, false
			}
		}
		for step < steps {
			op = menu(step)
			step++
			c.progress.Add(1)
			hist = append(hist, op.String())
			if op.resize {
				_ = s.t.Resize(op.w, op.h)
				if !settle() {
					return nil, false
				}
				continue
			}
			have = true
			return []byte(op.bytes), true
		}
		return nil, false
	})
	if err != nil && op.kind == "mode" {
		fail(vfPanicSite(err), err.Error())
		return
	}
	if len(hist) < 24 {
		c.sample("%s", strings.Join(hist, ", "))
	}
}

// vfRender writes a line as text and SGR sequences.
func vfRender(l Line) string {
	var sb strings.Builder
	for _, sp := range l.Spans {
		sb.WriteString("\x1b[m")
		sb.Write(sp.Style.ANSIEscape())
		if sp.Text != "" {
			sb.WriteString(sp.Text)
		} else {
			for i := 0; i < sp.Width; i++ {
				sb.WriteRune(sp.Rune)
			}
		}
	}
	return sb.String()
}

// vfRebuild makes the bytes that bring a fresh terminal into a given state.
func vfRebuild(sn vfSnap, saved Pos, lines []string) string {
	var sb strings.Builder
	sb.WriteString("\x1b[?7l")
	for y, l := range lines {
		fmt.Fprintf(&sb, "\x1b[%d;1H%s", y+1, l)
	}
	sb.WriteString("\x1b[m")
	fmt.Fprintf(&sb, "\x1b[%d;%dr\x1b[%d;%dH\x1b[s\x1b[%d;%dH", sn.top+1, sn.bot+1, saved.Y+1, saved.X+1, sn.cur.Y+1, sn.cur.X+1)
	if sn.wrap {
		sb.WriteString("\x1b[?7h")
	}
	return sb.String()
}

// vfResize: a history, a Resize, then the overlap is compared, and a terminal that always
// had the new size and that content is driven alongside.
func vfResize(c *vfCtx, r *vfRand, mode TextReadMode) {
	w, h, resizes := c.session(r, 1, 3)
	if resizes > 3 {
		resizes = resizes/30 + 10
	}
	g := newVFGen(r, mode, w, h)
	g.widePct = vfPick(r, []int{0, 25, 70})
	s := newVFSess(w, h, mode, false)
	m := newVFModel(w, h, mode, false) // saved cursors and active buffer
	var hist []string
	menu := vfMenu(r,
		vfChoice{40, g.text}, vfChoice{5, g.erase}, vfChoice{4, g.scroll}, vfChoice{14, func() vfOp { return vfCUP(g.r.n(g.w), g.r.n(g.h)) }}, vfChoice{6, g.motion}, vfChoice{8, g.margins},
		vfChoice{8, g.sgr}, vfChoice{5, g.wrapMode}, vfChoice{8, func() vfOp { return vfMotion("save", "", 1) }}, vfChoice{8, func() vfOp { return vfMode(1049, r.p(50)) }}, vfChoice{5, g.noiseOp})
	fail := func(what, detail string) {
		c.violate(what, fmt.Sprintf("%s\nmode %d\n%s\nhistory:\n%s", what, mode, detail, strings.Join(hist, "\n")))
	}
	hist = append(hist, fmt.Sprintf("size %dx%d", w, h))
	step, steps := 0, r.in(3, 25)
	var twin *vfSess
	var op vfOp
	have := false
	phase := 0
	bad := false
	carry := ""
	next := func() ([]byte, bool) {
		if carry != "" {
			// Resize in the middle of a sequence.
			b := carry
			carry = ""
			c.count("resizes inside a sequence", 1)
			phase++
			if !vfDoResize(c, r, s, m, g, &hist, fail, &twin) {
				bad = true
				return nil, false
			}
			return []byte(b), true
		}
		if have {
			have = false
			if op.kind == "mode" && strings.Contains(op.bytes, "1049") {
				op.apply(m)
			}
			sn, err := s.snap()
			if err != nil {
				return nil, false
			}
			if twin != nil {
				// C18: as on a terminal that always had that size and content.
				ts := ""
				if err := twin.feed(op.bytes); err != nil {
					return nil, false // the twin was never resized: judged elsewhere
				}
				tm, ta, err := twin.snapBoth()
				if err != nil {
					return nil, false
				}
				sm, sa, err := s.snapBoth()
				if err != nil {
					fail("after a Resize: "+err.Error(), "")
					bad = true
					return nil, false
				}
				ts = vfDiffTwin(m.alt, sm, sa, tm, ta)
				c.eval(true, vfMix(sm.key()^sa.key()<<1^vfHashStr(op.bytes)))
				c.count("operations compared with a terminal of that size", 1)
				if ts != "" {
					fail("resized / always that size: "+ts, fmt.Sprintf("after %v", op))
					bad = true
					return nil, false
				}
			}
			if op.kind == "save" {
				m.s().saved = sn.cur
			}
		}
		for {
			if step >= steps {
				if phase >= resizes {
					return nil, false
				}
				phase++
				c.progress.Add(1)
				step, steps = 0, r.in(5, 25)
				if resizes > 3 {
					steps = r.n(3)
				}
				if !vfDoResize(c, r, s, m, g, &hist, fail, &twin) {
					bad = true
					return nil, false
				}
				continue
			}
			op = menu(step)
			step++
			hist = append(hist, op.String())
			have = true
			if len(op.bytes) > 1 && phase < resizes && r.p(8) && strings.LastIndexByte(op.bytes, 0x1b) == 0 {
				// The terminal is resized while this operation is incomplete.
				k := r.in(1, len(op.bytes)-1)
				carry = op.bytes[k:]
				head := op.bytes[:k]
				hist = append(hist, fmt.Sprintf("(only %q so far)", head))
				return []byte(head), true
			}
			return []byte(op.bytes), true
		}
	}
	err := s.run(next)
	if err != nil && twin != nil && !bad {
		fail("after a Resize: "+vfPanicSite(err), err.Error())
		return
	}
	if !bad && len(hist) < 16 {
		c.sample("%s", strings.Join(hist, ", "))
	}
}

// vfDiffTwin compares both buffers; the style of the inactive one is not observable.
func vfDiffTwin(active int, m, a, tm, ta vfSnap) string {
	if active == 0 {
		ta.style = a.style
	} else {
		tm.style = m.style
	}
	if d := vfDiffSnap("main", m, tm); d != "" {
		return d
	}
	return vfDiffSnap("alternate", a, ta)
}

func vfDoResize(c *vfCtx, r *vfRand, s *vfSess, m *vfModel, g *vfGen, hist *[]string, fail func(string, string), twin **vfSess) bool {
	mn, al, err := s.snapBoth()
	if err != nil {
		return false
	}
	pre := [2]vfSnap{mn, al}
	op := g.resize()
	w, h := op.w, op.h
	*hist = append(*hist, fmt.Sprintf("Resize(%d,%d)", w, h))
	var e error
	func() {
		defer vfRecover(&e)
		e = s.t.Resize(w, h)
	}()
	if e != nil {
		fail("Resize: "+vfPanicSite(e), e.Error())
		return false
	}
	mn, al, err = s.snapBoth()
	if err != nil {
		fail("after Resize: "+err.Error(), "")
		return false
	}
	post := [2]vfSnap{mn, al}
	c.eval(true, vfMix(pre[0].key()^pre[1].key()<<1^uint64(w)<<20^uint64(h)))
	c.count("resizes", 1)
	if m.mode == TextReadModeGrapheme {
		c.count("resizes in grapheme mode", 1)
	}
	var lines [2][]string
	var tw, th int
	s.locked(func() { tw, th = s.t.Size() })
	if tw != w || th != h {
		fail(fmt.Sprintf("Size() is %dx%d after Resize(%d,%d)", tw, th, w, h), "")
		return false
	}
	for b, sn := range post {
		old := pre[b]
		name := [...]string{"main", "alternate"}[b]
		d := ""
		switch {
		case sn.w != w || sn.h != h:
			d = fmt.Sprintf("has size %dx%d", sn.w, sn.h)
		case sn.cur.X < 0 || sn.cur.X >= w || sn.cur.Y < 0 || sn.cur.Y >= h:
			d = fmt.Sprintf("cursor %v is outside", sn.cur)
		case old.cur.X < w && old.cur.Y < h && sn.cur != old.cur:
			d = fmt.Sprintf("cursor moved from %v to %v although it was inside", old.cur, sn.cur)
		case sn.top < 0 || sn.bot >= h || sn.top > sn.bot:
			d = fmt.Sprintf("scroll region [%d,%d] is not inside", sn.top, sn.bot)
		case old.top == 0 && old.bot == old.h-1 && (sn.top != 0 || sn.bot != h-1):
			d = fmt.Sprintf("scroll region [%d,%d] is not the whole screen any more", sn.top, sn.bot)
		case sn.wrap != old.wrap:
			d = "autowrap changed"
		}
		for y := 0; y < h && d == ""; y++ {
			for x := 0; x < w; x++ {
				got := sn.cells[y][x]
				if x >= old.w || y >= old.h {
					if got.text != " " || got.w != 1 {
						d = fmt.Sprintf("new cell (%d,%d) shows %q", x, y, got.text)
						break
					}
					continue
				}
				want := old.cells[y][x]
				if a, e := vfWide(old.cells[y], x); e > w { // cut
					_ = a
					if got.text != " " || got.w != 1 {
						d = fmt.Sprintf("half of a wide character at (%d,%d) became %q w%d", x, y, got.text, got.w)
						break
					}
					continue
				}
				if got != want {
					d = fmt.Sprintf("cell (%d,%d) was %q w%d %v and is %q w%d %v", x, y, want.text, want.w, want.st, got.text, got.w, got.st)
					break
				}
			}
		}
		if d != "" {
			fail(fmt.Sprintf("Resize %dx%d -> %dx%d: the %s buffer: %s", old.w, old.h, w, h, name, d), fmt.Sprintf("before:\n%vafter:\n%v", old.cells, sn.cells))
			return false
		}
	}
	m.w, m.h = w, h
	for i := range m.scr {
		sc := &m.scr[i]
		sc.saved = Pos{vfClamp(sc.saved.X, 0, w-1), vfClamp(sc.saved.Y, 0, h-1)}
	}
	// The twin.
	func() {
		defer vfRecover(&e)
		s.locked(func() {
			for b, scr := range []screen{s.t.mainScreen, s.t.altScreen} {
				for y := 0; y < h; y++ {
					lines[b] = append(lines[b], vfRender(scr.StyledLine(0, w, y)))
				}
			}
		})
	}()
	if e != nil {
		return false
	}
	t := newVFSess(w, h, s.mode, false)
	in := []string{"\x1b[?1049h" + vfRebuild(post[1], m.scr[1].saved, lines[1]), "\x1b[?1049l" + vfRebuild(post[0], m.scr[0].saved, lines[0])}
	if m.alt == 1 {
		in = append(in, "\x1b[?1049h")
	}
	in = append(in, string(func() []byte { st := s.t.screen().Style(); return st.ANSIEscape() }()))
	if err := t.feedWhole(in...); err != nil {
		return false
	}
	tm, ta, err := t.snapBoth()
	*twin = nil
	if err == nil {
		if d := vfDiffTwin(m.alt, post[0], post[1], tm, ta); d == "" {
			*twin = t
			c.count("twins built", 1)
		} else {
			c.count("states that could not be rebuilt", 1)
		}
	}
	return true
}

// vfEquiv drives a grid-backed and a span-backed terminal with the same input.
func vfEquiv(c *vfCtx, r *vfRand, mode TextReadMode) {
	w, h, steps := c.session(r, 15, 60)
	steps = min(steps, 10000) // each operation is observed from everywhere, twice
	g := newVFGen(r, mode, w, h)
	g.widePct = vfPick(r, []int{0, 20, 50})
	g.zeroPct = 4
	ss := [2]*vfSess{newVFSess(w, h, mode, false), newVFSess(w, h, mode, true)}
	var lost [2]*[]string
	var mir [2]*vfMirror
	for i, s := range ss {
		mir[i] = newVFMirror(s, w, h)
		lost[i] = vfObserve(s)
	}
	var hist []string
	m := newVFModel(w, h, mode, false)
	menu := vfMenu(r,
		vfChoice{40, g.text}, vfChoice{14, g.erase}, vfChoice{10, g.scroll}, vfChoice{14, func() vfOp { return g.cupNear(m) }}, vfChoice{10, g.motion}, vfChoice{6, g.margins},
		vfChoice{8, g.sgr}, vfChoice{6, g.wrapMode}, vfChoice{4, func() vfOp { return vfMode(1049, r.p(50)) }}, vfChoice{3, func() vfOp { return vfMode(vfPick(r, vfPrivateModes), r.p(50)) }},
		vfChoice{2, g.kbd}, vfChoice{3, func() vfOp { return vfQuery(vfPick(r, vfQueries)) }}, vfChoice{2, g.osc}, vfChoice{2, g.unknown}, vfChoice{4, g.noiseOp}, vfChoice{4, g.resize})
	hist = append(hist, fmt.Sprintf("size %dx%d mode %d", w, h, mode))
	for step := 0; step < steps; step++ {
		op := menu(step)
		c.progress.Add(1)
		if op.kind == "text" || op.kind == "text-zero" {
			// A write that starts inside a wide character is allowed to differ.
			sn, err := ss[0].snap()
			if err != nil {
				return
			}
			if sn.cells[sn.cur.Y][sn.cur.X].w == 0 {
				op = vfMotion("CR", "", 1)
				c.count("writes inside a wide character avoided", 1)
			}
		}
		hist = append(hist, op.String())
		var st [2]vfState
		var errs [2]error
		var why [2][]uint
		same := int64(0)
		for i, s := range ss {
			if op.resize {
				mir[i].resize(op.w, op.h)
				func() {
					defer vfRecover(&errs[i])
					errs[i] = s.t.Resize(op.w, op.h)
				}()
			} else {
				errs[i] = s.feed(op.bytes)
			}
			if errs[i] == nil {
				st[i], errs[i] = s.state(lost[i])
			}
			s.be.out = s.be.out[:0]
			s.fe.log = s.fe.log[:0]
			*lost[i] = (*lost[i])[:0]
			why[i] = vfReasons(s.fe, g.w, g.h)
			s.fe.resetRegions()
		}
		d := ""
		switch {
		case errs[0] != nil && errs[1] == nil:
			d = "the span terminal failed: " + vfPanicSite(errs[0])
		case errs[1] != nil && errs[0] == nil:
			d = "the grid terminal failed: " + vfPanicSite(errs[1])
		case errs[0] != nil:
			return
		default:
			if d = st[0].diff(&st[1]); d != "" {
				d = "span / grid: " + d
				break
			}
			for k, a := range why[0] {
				b := why[1][k]
				if a != 0 && b != 0 {
					same++
				}
				if a == b || a == 0 || b == 0 { // announcing more cells than changed is no difference
					continue
				}
				if t := uint(1) << CRText; a&t != 0 && b&t != 0 { // blanking what is left of a wide character
					a, b = a|1<<CRClear, b|1<<CRClear
				}
				if a != b {
					d = fmt.Sprintf("cell (%d,%d) is announced for the reasons %v by the span terminal and %v by the grid terminal", k%g.w, k/g.w, vfReasonNames(why[0][k]), vfReasonNames(why[1][k]))
					break
				}
			}
			c.count("cells whose reasons for announcing were compared", same)
			if d != "" {
				break
			}
			a, b := vfDiffCells(mir[0].g, st[0].active().cells), vfDiffCells(mir[1].g, st[1].active().cells)
			if (a == "") != (b == "") {
				d = fmt.Sprintf("repainting what is announced: span %q, grid %q", a, b)
			}
		}
		c.eval(true, vfMix(st[0].key()^vfHashStr(op.String())))
		c.count("op "+op.kind, 1)
		if d != "" {
			extra := ""
			if errs[0] == nil && errs[1] == nil {
				extra = fmt.Sprintf("span:\n%vgrid:\n%v", st[0].active().cells, st[1].active().cells)
			} else {
				extra = fmt.Sprint(errs)
			}
			c.violate(op.kind+": "+d, fmt.Sprintf("after %v: %s\n%s\n%s", op, d, extra, strings.Join(hist, "\n")))
			return
		}
		m.w, m.h = st[0].main.w, st[0].main.h
		m.scr[0].top, m.scr[0].bot = st[0].active().top, st[0].active().bot
	}
	c.count("announcements by the span terminal", mir[0].regions)
	c.count("announcements by the grid terminal", mir[1].regions)
	if len(hist) < 20 {
		c.sample("%s", strings.Join(hist, ", "))
	}
}

// vfReasons returns, for every cell, the set of reasons it was announced for.
func vfReasons(fe *vfFront, w, h int) []uint {
	out := make([]uint, w*h)
	for i, r := range fe.regions {
		for y := max(r.Y, 0); y < min(r.Y2, h); y++ {
			for x := max(r.X, 0); x < min(r.X2, w); x++ {
				out[y*w+x] |= 1 << uint(fe.reasons[i])
			}
		}
	}
	return out
}

func vfReasonNames(set uint) string {
	var out []string
	for i, n := range []string{CRText: "CRText", CRClear: "CRClear", CRScroll: "CRScroll", CRScreenSwitch: "CRScreenSwitch", CRRedraw: "CRRedraw"} {
		if set&(1<<uint(i)) != 0 {
			out = append(out, n)
		}
	}
	return strings.Join(out, "+")
}

func (a *vfState) active() *vfSnap {
	if a.onAlt != "" {
		return &a.alt
	}
	return &a.main
}

func init() {
	vfChecks["C17"] = func(c *vfCtx) {
		c.cases(c.scale(360000, 3600000), func(i int, r *vfRand) { vfIsolation(c, r, vfBothModes(i)) })
	}
	vfChecks["C18"] = func(c *vfCtx) {
		c.cases(c.scale(300000, 2400000), func(i int, r *vfRand) { vfResize(c, r, vfBothModes(i)) })
	}
	vfChecks["C20"] = func(c *vfCtx) {
		c.cases(c.scale(120000, 1200000), func(i int, r *vfRand) { vfEquiv(c, r, vfBothModes(i)) })
	}
}
