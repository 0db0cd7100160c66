package termemu

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// C14: queries and replies. C19: the keyboard flag stack. C13: mouse reports.

// vfSilent makes a well-formed CSI that is not one of the five queries.
func vfSilent(r *vfRand) vfOp {
	for {
		s := vfRandomSequence(r)
		if r.p(30) { // near misses
			s = vfPick(r, []string{"\x1b[?5n", "\x1b[?6n", "\x1b[>5n", "\x1b[5 n", "\x1b[6$n", "\x1b[?1c", "\x1b[=c", "\x1b[1$c", "\x1b[?1$u", "\x1b[0n", "\x1b[3n", "\x1b[n",
				"\x1b[<c", "\x1b[5!c", "\x1b[6R", "\x1b[1;1R", "\x1b[?1;2c", "\x1b[0 c", "\x1b[=5n", "\x1b[5;5m", "\x1b[6h", "\x1b[5l"})
		}
		if r.p(15) { // numbers that only look like a query
			n := vfPick(r, vfWraps(uint64(vfPick(r, []int{0, 5, 6}))))
			return vfOp{kind: "other-CSI", bytes: vfPick(r, []string{"\x1b[" + n + "c", "\x1b[" + n + "n", "\x1b[?" + n + "n", "\x1b[?" + n + "c"})}
		}
		if r.p(12) { // short parameter lists before any final byte
			f := vfPick(r, []string{"t", "t", "t", "x", "n", "c", "y", "q", "p", "w", "z", "i", "s", "m", "g", "u", "R", "v"})
			n := strconv.Itoa(r.n(50))
			if r.p(30) {
				n += ";" + strconv.Itoa(r.n(8))
			}
			if f != "n" && f != "c" && f != "u" {
				return vfOp{kind: "other-CSI", bytes: "\x1b[" + vfPick(r, []string{"", "", "", "?", ">", "<", "="}) + n + vfPick(r, []string{"", "", "", "$", "\"", " ", "'"}) + f}
			}
		}
		if r.p(10) {
			n := 7 + r.n(vfPick(r, []int{20, 300, 70000, 20000000}))
			return vfOp{kind: "other-CSI", bytes: fmt.Sprintf("\x1b[%d%c", n, "cn"[r.n(2)])}
		}
		b := s[2:]
		f := b[len(b)-1]
		inter := strings.ContainsAny(b, " !\"#$%&'()*+,-./")
		if !inter && (f == 'c' || f == 'n' || f == 'u') && !strings.Contains(" ?5n ?6n >5n =c <c =5n 0n 3n n ?1c ?1;2c ", " "+b+" ") {
			continue
		}
		if !inter && (f == 'h' || f == 'l') && strings.Contains(b, "1049") {
			continue // which buffer is active matters to later queries
		}
		if strings.HasPrefix(b, "0c") || b == "c" || b == "u" {
			continue
		}
		return vfOp{kind: "other-CSI", bytes: s}
	}
}

func init() {
	vfChecks["C14"] = func(c *vfCtx) {
		c.cases(c.scale(80000, 1500000), func(i int, r *vfRand) {
			mode := vfBothModes(i)
			w, h, steps := c.session(r, 15, 60)
			if steps < 100 && r.p(10) {
				w, h = r.in(100, 300), r.in(30, 120)
			}
			g := newVFGen(r, mode, w, h)
			s := newVFSess(w, h, mode, false)
			k := &vfWork{c: c, s: s, m: newVFModel(w, h, mode, false), steps: steps}
			k.judged = func(vfOp) bool { return false }
			if r.p(15) {
				c.count("sessions with short writes", 1)
				s.be.short = func() int { return r.n(6) }
			}
			if mode == TextReadModeRune && r.p(40) {
				p := vfPick(r, []int{10, 50, 100})
				k.split = func(n int) []int {
					var cuts []int
					for j := 1; j < n; j++ {
						if r.p(p) {
							cuts = append(cuts, j)
						}
					}
					return cuts
				}
			}
			k.after = func(op vfOp, pre, post vfSnap) string {
				got := string(s.be.out)
				want := string(k.m.replies)
				s.be.out, k.m.replies = nil, nil
				c.eval(want != "", vfMix(vfHashStr(op.bytes)^pre.key()))
				c.count("op "+op.kind, 1)
				if got != want {
					return fmt.Sprintf("wrote %q to the application, want %q", got, want)
				}
				if want != "" {
					c.count("reply bytes checked", int64(len(want)))
				}
				return ""
			}
			query := func() vfOp { return vfQuery(vfPick(r, vfQueries)) }
			k.next = vfMenu(r,
				vfChoice{30, query}, vfChoice{14, g.kbd}, vfChoice{6, func() vfOp { return vfMode(1049, r.p(50)) }},
				vfChoice{10, g.cup}, vfChoice{6, g.text}, vfChoice{6, g.motion}, vfChoice{3, g.scroll}, vfChoice{3, g.erase},
				vfChoice{5, g.modes}, vfChoice{4, g.osc}, vfChoice{3, g.dcs},
				vfChoice{8, g.unknown}, vfChoice{6, func() vfOp { return vfSilent(r) }}, vfChoice{6, g.sgr}, vfChoice{2, g.margins}, vfChoice{2, g.modifyOther}, vfChoice{1, g.resize},
				vfChoice{4, func() vfOp { return vfOp{kind: "control", bytes: string(rune(r.n(32)))} }},
				vfChoice{16, func() vfOp { // several in one read; positions are absolute
					op := vfOp{kind: "multi"}
					var fs []func(m *vfModel)
					for j, n := 0, r.in(2, 8); j < n; j++ {
						var o vfOp
						switch r.n(6) {
						case 0:
							o = g.cup()
						case 1:
							o = g.kbd()
						case 2:
							o = vfMode(1049, r.p(50))
							// Where the other buffer's cursor is was not observed.
							cu := vfCUP(r.n(g.w), r.n(g.h))
							o1 := o
							o = vfOp{bytes: o1.bytes + cu.bytes, apply: func(m *vfModel) { o1.apply(m); cu.apply(m) }}
						default:
							o = query()
						}
						op.bytes += o.bytes
						fs = append(fs, o.apply)
					}
					op.apply = func(m *vfModel) {
						for _, f := range fs {
							f(m)
						}
					}
					return op
				}})
			// Control bytes other than ESC; ESC would swallow what follows.
			inner := k.next
			k.next = func(st int) vfOp {
				for {
					op := inner(st)
					if op.kind == "control" && (op.bytes == "\x1b") {
						continue
					}
					return op
				}
			}
			k.run()
		})
	}

	vfChecks["C19"] = func(c *vfCtx) {
		alpha := []vfOp{
			{bytes: "\x1b[>1u", apply: func(m *vfModel) { m.kbdPush(1) }},
			{bytes: "\x1b[>2u", apply: func(m *vfModel) { m.kbdPush(2) }},
			{bytes: "\x1b[>28u", apply: func(m *vfModel) { m.kbdPush(28) }},
			{bytes: "\x1b[>u", apply: func(m *vfModel) { m.kbdPush(0) }},
			{bytes: "\x1b[<u", apply: func(m *vfModel) { m.kbdPop(1) }},
			{bytes: "\x1b[<1u", apply: func(m *vfModel) { m.kbdPop(1) }},
			{bytes: "\x1b[<2u", apply: func(m *vfModel) { m.kbdPop(2) }},
			{bytes: "\x1b[<3u", apply: func(m *vfModel) { m.kbdPop(3) }},
			{bytes: "\x1b[=5u", apply: func(m *vfModel) { m.kbdSet(5, 1) }},
			{bytes: "\x1b[=3;1u", apply: func(m *vfModel) { m.kbdSet(3, 1) }},
			{bytes: "\x1b[=9;2u", apply: func(m *vfModel) { m.kbdSet(9, 2) }},
			{bytes: "\x1b[=21;3u", apply: func(m *vfModel) { m.kbdSet(21, 3) }},
			{bytes: "\x1b[?1049h", apply: func(m *vfModel) { m.alt = 1 }},
			{bytes: "\x1b[?1049l", apply: func(m *vfModel) { m.alt = 0 }},
		}
		depth := c.scale(4, 5)
		blocks := len(alpha) * len(alpha)
		run := func(next func(step int) (vfOp, bool)) {
			s := newVFSess(3, 2, TextReadModeRune, false)
			s.resize = true
			m := newVFModel(3, 2, TextReadModeRune, false)
			var hist []string
			step := 0
			pending := false
			key := uint64(0)
			bad := ""
			verify := func() bool {
				got := string(s.be.out)
				s.be.out = s.be.out[:0]
				want := fmt.Sprintf("\x1b[?%du", m.s().kflags)
				key = vfMix(key ^ vfHashStr(hist[len(hist)-1]))
				c.eval(true, key)
				if len(m.s().kstack) == 32 {
					c.count("queries with a full stack", 1)
				}
				if got != want {
					bad = fmt.Sprintf("the query is answered %q, want %q", got, want)
				} else if f := s.t.keyboardFlags(); f != m.s().kflags {
					bad = fmt.Sprintf("the flags in force are %d, want %d", f, m.s().kflags)
				}
				return bad == ""
			}
			err := s.run(func() ([]byte, bool) {
				if pending && !verify() {
					return nil, false
				}
				op, ok := next(step)
				if !ok {
					return nil, false
				}
				step++
				c.progress.Add(1)
				if len(hist) > 2000 {
					hist = append(hist[:0], hist[1000:]...)
				}
				op.apply(m)
				hist = append(hist, op.bytes)
				pending = true
				return []byte(op.bytes + "\x1b[?u"), true
			})
			if err != nil {
				bad = vfPanicSite(err)
			}
			if bad != "" {
				c.violate(bad, fmt.Sprintf("%s\nafter (a query follows each):\n%q", bad, hist))
				return
			}
			if len(hist) == 4 {
				c.sample("%q each followed by a query", hist)
			}
		}
		n := c.scale(450000, 5000000)
		c.cases(blocks+n, func(i int, r *vfRand) {
			if i < blocks { // all sequences that start with two given operations
				total := 1
				for d := 2; d < depth; d++ {
					total *= len(alpha)
				}
				for x := 0; x < total; x++ {
					if c.full() {
						return
					}
					seq := []int{i / len(alpha), i % len(alpha)}
					for d, v := 2, x; d < depth; d++ {
						seq = append(seq, v%len(alpha))
						v /= len(alpha)
					}
					run(func(st int) (vfOp, bool) {
						if st >= depth {
							return vfOp{}, false
						}
						return alpha[seq[st]], true
					})
					c.count("enumerated sequences", 1)
				}
				c.progress.Add(1)
				return
			}
			// Long histories around the stack's limit.
			g := newVFGen(r, TextReadModeRune, 3, 2)
			bias := r.in(20, 90)
			_, _, steps := c.session(r, 10, 150)
			run(func(st int) (vfOp, bool) {
				if st >= steps {
					return vfOp{}, false
				}
				if r.p(4) {
					bias = r.in(5, 95)
				}
				switch {
				case r.p(5):
					return vfMode(1049, r.p(50)), true
				case r.p(12):
					return g.kbd(), true
				case r.p(4): // no such way of setting flags
					return vfOp{bytes: fmt.Sprintf("\x1b[=%d;%du", r.n(32), vfPick(r, []int{4, 5, 6, 8, 16, 257, 258, 259, r.in(4, 70000)})), apply: func(m *vfModel) {}}, true
				case r.p(bias):
					f := r.n(32)
					return vfOp{bytes: fmt.Sprintf("\x1b[>%du", f), apply: func(m *vfModel) { m.kbdPush(f) }}, true
				case r.p(60):
					return vfOp{bytes: "\x1b[<u", apply: func(m *vfModel) { m.kbdPop(1) }}, true
				case r.p(12):
					s := vfPick(r, []string{"32", "33", "31", "40", "100", "65536", "2147483648", "18446744073709551615"})
					n := vfInf
					if len(s) < 4 {
						_, _ = fmt.Sscan(s, &n)
					}
					return vfOp{bytes: "\x1b[<" + s + "u", apply: func(m *vfModel) { m.kbdPop(n) }}, true
				}
				n := r.in(1, 8)
				return vfOp{bytes: fmt.Sprintf("\x1b[<%du", n), apply: func(m *vfModel) { m.kbdPop(n) }}, true
			})
		})
	}

	vfChecks["C13"] = func(c *vfCtx) {
		coords := []int{1, 2, 3, 10, 63, 64, 94, 95, 96, 97, 127, 128, 129, 159, 160, 191, 192, 222, 223, 224, 225, 254, 255, 256, 257, 300, 1000, 2014, 2015, 2016, 5000, 65535, 65536, 70000, 0, -1, -31, -32, -33, -300}
		type setup struct {
			seq       string
			mode, enc int
		}
		var setups []setup
		for mi, m := range []string{"", "\x1b[?9h", "\x1b[?1000h", "\x1b[?1002h", "\x1b[?1003h"} {
			for ei, e := range [][]string{{"", "\x1b[?1006h\x1b[?1006l"}, {"\x1b[?1005h", "\x1b[?1015h"}, {"\x1b[?1006h", "\x1b[?1005h\x1b[?1006h"}} {
				for _, es := range e {
					setups = append(setups, setup{m + es, mi, ei})
				}
			}
		}
		setups = append(setups, setup{"\x1b[?1003h\x1b[?1003l", 0, 0}, setup{"\x1b[?1003h\x1b[?1000h", 2, 0}, setup{"\x1b[?1000;1006h", 2, 2},
			setup{"\x1b[?9h\x1b[?9l\x1b[?1006h", 0, 2}, setup{"\x1b[?1002h\x1b[?1049h\x1b[?1006h", 3, 2})
		nsys := len(setups) * 4
		c.cases(nsys+c.scale(600000, 4000000), func(i int, r *vfRand) {
			s := newVFSess(20, 5, vfBothModes(i), false)
			s.resize = true
			var history []string
			mode, enc := 0, 0
			feed := func(seq string) bool {
				c.progress.Add(1)
				if len(history) > 2000 {
					history = append(history[:0], history[1000:]...)
				}
				history = append(history, fmt.Sprintf("%q", seq))
				if err := s.feed(seq); err != nil {
					return false
				}
				return true
			}
			one := func(btn MouseBtn, press bool, mods MouseFlag, x, y int) bool {
				if mods&(MMotion|MWheel) != 0 && !press || mods&MMotion != 0 && mods&MWheel != 0 || btn == MRelease && mods&(MMotion|MWheel) == 0 {
					return true // not an event
				}
				if enc != MEX10 && (x < 1 || y < 1) || enc == MEUTF8 && (x > 2015 || y > 2015) {
					return true // not representable
				}
				var fail error
				wr := &vfFaultyWriter{be: s.be}
				if r.p(3) {
					fail = errors.New("broken pipe")
					wr.err = fail
					wr.after = vfPick(r, []int{0, 0, 1, 2, 5, 20})
				} else if r.p(10) {
					wr.short = r.in(1, 3)
				}
				s.t.backend = wr
				s.be.out = s.be.out[:0]
				desc := fmt.Sprintf("SendMouseRaw(btn %d, press %v, mods %#x, %d, %d) in mode %d encoding %d", btn, press, mods, x, y, mode, enc)
				var err, pan error
				func() {
					defer vfRecover(&pan)
					err = s.t.SendMouseRaw(btn, press, mods, x, y)
				}()
				s.t.backend = s.be
				got := string(s.be.out)
				reported := vfMouseReported(mode, btn, press, mods)
				c.eval(reported, vfMix(uint64(btn)|uint64(mods)<<8|uint64(mode)<<16|uint64(enc)<<20|uint64(uint32(x))<<32^uint64(uint32(y))<<24|vfB(press)<<23|vfB(fail != nil)<<22))
				d := ""
				switch {
				case pan != nil:
					d = vfPanicSite(pan)
				case reported && fail != nil:
					c.count("failing writes", 1)
					if !errors.Is(err, fail) {
						d = fmt.Sprintf("the write failed, the call returned %v", err)
					}
				case err != nil:
					d = fmt.Sprintf("unexpected error %v", err)
				case !reported && got != "":
					d = fmt.Sprintf("the mode excludes the event, but %q was written", got)
				case !reported:
					c.count("filtered events", 1)
				default:
					d = vfDecodeMouse(got, enc, btn, press, mods, x, y)
					c.count(fmt.Sprintf("reports in encoding %d", enc), 1)
				}
				if d != "" {
					c.violate(d, desc+": "+d+"\nafter "+strings.Join(history, " "))
					return false
				}
				return true
			}
			if i < nsys {
				st := setups[i/4]
				mode, enc = st.mode, st.enc
				if !feed(st.seq) {
					return
				}
				btn := MouseBtn(i % 4)
				for _, press := range []bool{true, false} {
					for m := 0; m < 32; m++ {
						mods := MouseFlag(m << 2)
						for xi, x := range coords {
							for _, y := range []int{1, coords[(xi*7+m)%len(coords)], coords[(xi*3+11)%len(coords)], 24} {
								if !one(btn, press, mods, x, y) {
									return
								}
							}
						}
					}
				}
				c.sample("after %q: button %d with all modifier sets at %d columns", st.seq, btn, len(coords))
				return
			}
			// Histories of mode changes, with events in between.
			m := newVFModel(20, 5, TextReadModeRune, false)
			_, _, steps := c.session(r, 1, 10)
			for j := 0; j < steps; j++ {
				ps := []int{vfPick(r, []int{9, 1000, 1002, 1003, 1005, 1006, 1015, 1049, 1, 25})}
				if r.p(25) {
					ps = append(ps, vfPick(r, []int{1000, 1002, 1003, 1006}))
				}
				op := vfModeList(ps, r.p(70))
				op.apply(m)
				if !feed(op.bytes) {
					return
				}
				mode, enc = m.ints[VIMouseMode], m.ints[VIMouseEncoding]
				for q, qn := 0, r.in(1, 6); q < qn; q++ {
					x, y := r.in(1, 300), r.in(1, 300)
					if r.p(30) {
						x = vfPick(r, coords)
					}
					if !one(MouseBtn(r.n(4)), r.p(65), MouseFlag(r.n(32)<<2), x, y) {
						return
					}
				}
			}
		})
	}
}

func vfB(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// vfFaultyWriter fails or accepts only part of each write.
type vfFaultyWriter struct {
	be    *vfBackend
	err   error
	short int
	after int // bytes accepted before the failure
}

func (f *vfFaultyWriter) Read(p []byte) (int, error) { return f.be.Read(p) }
func (f *vfFaultyWriter) SetSize(w, h int) error     { return f.be.SetSize(w, h) }
func (f *vfFaultyWriter) Write(p []byte) (int, error) {
	if f.err != nil {
		n := f.after
		if n >= len(p) {
			n = len(p) - 1
		}
		if n <= 0 {
			return 0, f.err
		}
		_, _ = f.be.Write(p[:n])
		f.after -= n
		return n, f.err
	}
	if f.short > 0 && len(p) > f.short {
		p = p[:f.short]
	}
	return f.be.Write(p)
}

// vfMouseReported says which events a tracking mode includes.
func vfMouseReported(mode int, btn MouseBtn, press bool, mods MouseFlag) bool {
	motion := mods&MMotion != 0
	switch mode {
	case MMPress:
		return press && !motion
	case MMPressRelease:
		return !motion
	case MMPressReleaseMove:
		return !motion || btn != MRelease
	case MMPressReleaseMoveAll:
		return true
	}
	return false
}

// vfDecodeMouse decodes a report as an application would and compares it with the event.
func vfDecodeMouse(got string, enc int, btn MouseBtn, press bool, mods MouseFlag, x, y int) string {
	var cb, gx, gy int
	gotPress := true
	switch enc {
	case MEX10:
		if len(got) != 6 || got[:3] != "\x1b[M" {
			return fmt.Sprintf("%q is not one X10 report", got)
		}
		cb, gx, gy = int(got[3])-32, int(got[4])-32, int(got[5])-32
		x, y = vfClamp(x, 1, 223), vfClamp(y, 1, 223)
		gotPress = cb&3 != 3 || mods&MMotion != 0 || mods&MWheel != 0
	case MEUTF8:
		if !strings.HasPrefix(got, "\x1b[M") || !utf8.ValidString(got) || utf8.RuneCountInString(got) != 6 {
			return fmt.Sprintf("%q is not one UTF-8 report", got)
		}
		rs := []rune(got)
		cb, gx, gy = int(rs[3])-32, int(rs[4])-32, int(rs[5])-32
		gotPress = cb&3 != 3 || mods&MMotion != 0 || mods&MWheel != 0
	case MESGR:
		var f rune
		n, err := fmt.Sscanf(got, "\x1b[<%d;%d;%d%c", &cb, &gx, &gy, &f)
		if err != nil || n != 4 || f != 'M' && f != 'm' || got != fmt.Sprintf("\x1b[<%d;%d;%d%c", cb, gx, gy, f) {
			return fmt.Sprintf("%q is not one SGR report", got)
		}
		gotPress = f == 'M'
	}
	wantBtn := int(btn)
	if !press && enc != MESGR {
		wantBtn = 3
	}
	switch {
	case gotPress != press:
		return fmt.Sprintf("%q says press %v, want %v", got, gotPress, press)
	case cb&3 != wantBtn:
		return fmt.Sprintf("%q says button %d, want %d", got, cb&3, wantBtn)
	case cb&^3 != int(mods):
		return fmt.Sprintf("%q says modifiers %#x, want %#x", got, cb&^3, mods)
	case gx != x || gy != y:
		return fmt.Sprintf("%q says (%d,%d), want (%d,%d)", got, gx, gy, x, y)
	}
	return ""
}
