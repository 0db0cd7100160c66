package termemu

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/rivo/uniseg"
)

// C08 and C09: the interpretation of the byte stream does not depend on how it is cut,
// and sequences are consumed whole.

// vfState is everything an observer can see of a terminal.
type vfState struct {
	main, alt vfSnap
	onAlt     string
	flags     []bool
	ints      []int
	strs      []string
	kbd       int
	replies   string
	log       []string
	lost      []string
	cursor    Pos
	style     vfStyle
	told      string
	probed    string
}

// vfProbe makes state visible that shows only later: the saved cursor and the keyboard flag
// stack of both buffers, up to the given depth.
func vfProbe(depth int) string {
	one := "\x1b[u\x1b[6n\x1b[?u" + strings.Repeat("\x1b[<u\x1b[?u", depth)
	return one + "\x1b[?1049h" + one + "\x1b[?1049l" + one
}

// vfObserve makes fe collect the rows announced by ScrollLines.
func vfObserve(s *vfSess) *[]string {
	lost := &[]string{}
	s.fe.logging = true
	s.fe.onScroll = func(n int) {
		w, h := s.t.Size()
		if n > h {
			n = h
		}
		for y := 0; y < n; y++ {
			row, err := vfRowCells(s.t.StyledLine(0, w, y), w, s.mode, nil)
			*lost = append(*lost, fmt.Sprint(row, err))
		}
		if k := len(s.fe.log); k > 0 { // how the scrolling is batched depends on the reads
			s.fe.log = s.fe.log[:k-1]
		}
	}
	return lost
}

func (s *vfSess) state(lost *[]string) (vfState, error) {
	st, err := s.stateNoReplies(lost)
	st.replies = string(s.be.out)
	return st, err
}

// stateNoReplies is state without the bytes written, which are not guarded by the lock.
func (s *vfSess) stateNoReplies(lost *[]string) (vfState, error) {
	var st vfState
	var err error
	st.main, st.alt, err = s.snapBoth()
	if err != nil {
		return st, err
	}
	s.locked(func() {
		for f := ViewFlag(0); f < viewFlagCount; f++ {
			st.flags = append(st.flags, s.t.GetViewFlag(f))
		}
		for f := ViewInt(0); f < viewIntCount; f++ {
			st.ints = append(st.ints, s.t.GetViewInt(f))
		}
		for f := ViewString(0); f < viewStringCount; f++ {
			st.strs = append(st.strs, s.t.GetViewString(f))
		}
		st.kbd = s.t.keyboardFlags()
		if s.t.screen() == s.t.altScreen {
			st.onAlt = "alt"
		}
	})
	st.log = append([]string(nil), s.fe.log...)
	if lost != nil {
		st.lost = append([]string(nil), *lost...)
	}
	st.cursor, st.style = s.fe.cursor, vfDecodeStyle(s.fe.style)
	st.told = fmt.Sprint(s.fe.flags, s.fe.ints, s.fe.strs, s.fe.bells)
	return st, nil
}

func vfDiffSnap(name string, a, b vfSnap) string {
	switch {
	case a.w != b.w || a.h != b.h:
		return fmt.Sprintf("%s size %dx%d / %dx%d", name, a.w, a.h, b.w, b.h)
	case a.cur != b.cur:
		return fmt.Sprintf("%s cursor %v / %v", name, a.cur, b.cur)
	case a.top != b.top || a.bot != b.bot:
		return fmt.Sprintf("%s scroll region %d-%d / %d-%d", name, a.top, a.bot, b.top, b.bot)
	case a.wrap != b.wrap:
		return fmt.Sprintf("%s autowrap %v / %v", name, a.wrap, b.wrap)
	case a.style != b.style:
		return fmt.Sprintf("%s style %v / %v", name, a.style, b.style)
	}
	if d := vfDiffCells(a.cells, b.cells); d != "" {
		return name + " " + d
	}
	return ""
}

func vfDiffStrs(name string, a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%s %d: %s / %s", name, i, x, y)
		}
	}
	return ""
}

// diff describes how two states differ.
func (a *vfState) diff(b *vfState) string {
	if d := vfDiffSnap("main", a.main, b.main); d != "" {
		return d
	}
	if d := vfDiffSnap("alternate", a.alt, b.alt); d != "" {
		return d
	}
	switch {
	case a.onAlt != b.onAlt:
		return fmt.Sprintf("active buffer %q / %q", a.onAlt, b.onAlt)
	case fmt.Sprint(a.flags) != fmt.Sprint(b.flags):
		return fmt.Sprintf("flags %v / %v", a.flags, b.flags)
	case fmt.Sprint(a.ints) != fmt.Sprint(b.ints):
		return fmt.Sprintf("ints %v / %v", a.ints, b.ints)
	case fmt.Sprintf("%q", a.strs) != fmt.Sprintf("%q", b.strs):
		return fmt.Sprintf("strings %q / %q", a.strs, b.strs)
	case a.kbd != b.kbd:
		return fmt.Sprintf("keyboard flags %d / %d", a.kbd, b.kbd)
	case a.replies != b.replies:
		return fmt.Sprintf("replies %q / %q", a.replies, b.replies)
	case a.cursor != b.cursor:
		return fmt.Sprintf("notified cursor %v / %v", a.cursor, b.cursor)
	case a.style != b.style:
		return fmt.Sprintf("notified style %v / %v", a.style, b.style)
	}
	if d := vfDiffStrs("notification", a.log, b.log); d != "" {
		return d
	}
	if a.told != b.told {
		return fmt.Sprintf("notified %s / %s", a.told, b.told)
	}
	if a.probed != b.probed {
		return fmt.Sprintf("answers of the later probe (saved cursor, keyboard flag stacks) %q / %q", a.probed, b.probed)
	}
	return vfDiffStrs("scrolled-off row", a.lost, b.lost)
}

func (a *vfState) key() uint64 {
	return vfMix(a.main.key() ^ a.alt.key()<<1 ^ vfHashStr(a.replies) ^ vfHashStr(strings.Join(a.log, "\n")))
}

// vfDeliver runs a stream through a fresh terminal, delivering the given segments. Each
// segment is one read unless the terminal asks for less.
func vfDeliver(w, h int, mode TextReadMode, segs []string) (st vfState, reads int64, err error) {
	s := newVFSess(w, h, mode, false)
	lost := vfObserve(s)
	if err = s.feed(segs...); err != nil {
		return
	}
	if st, err = s.state(lost); err != nil {
		return st, s.be.reads, err
	}
	reads = s.be.reads
	err = s.feed(vfProbe(3))
	st.probed = string(s.be.out[len(st.replies):])
	return st, reads, err
}

// vfCutSegs cuts stream at the positions in cuts (sorted).
func vfCutSegs(stream string, cuts []int) []string {
	var out []string
	prev := 0
	for _, k := range cuts {
		if k > prev && k < len(stream) {
			out = append(out, stream[prev:k])
			prev = k
		}
	}
	return append(out, stream[prev:])
}

// feedWhole feeds chunks so that no internal read of the terminal, of at most 4096 bytes,
// ends inside a grapheme cluster.
func (s *vfSess) feedWhole(chunks ...string) error {
	var segs []string
	for _, ch := range chunks {
		if len(ch) <= 4096-utf8.UTFMax || s.mode == TextReadModeRune {
			segs = append(segs, ch)
			continue
		}
		segs = append(segs, vfCutSegs(ch, vfLimitCuts(len(ch), vfAllowedCuts(ch, s.mode, false), nil, 4096-utf8.UTFMax))...)
	}
	return s.feed(segs...)
}

// vfAllowedCuts lists where a stream may be cut: everywhere in rune mode, and between
// extended grapheme clusters in grapheme mode. In a stream that is not clean, a damaged
// sequence may take part of a character, which changes what the rest of it joins.
func vfAllowedCuts(stream string, mode TextReadMode, clean bool) []int {
	var out []int
	if mode == TextReadModeRune {
		for i := 1; i < len(stream); i++ {
			out = append(out, i)
		}
		return out
	}
	state, rest, pos := -1, stream, 0
	for len(rest) > 0 {
		var cl string
		cl, rest, _, state = uniseg.FirstGraphemeClusterInString(rest, state)
		pos += len(cl)
		if a, _ := utf8.DecodeLastRuneInString(cl); !clean && a >= 0x1f1e6 && a <= 0x1f1ff {
			if b, _ := utf8.DecodeRuneInString(rest); b >= 0x1f1e6 && b <= 0x1f1ff {
				continue
			}
		}
		if !clean && len(rest) > 0 && rest[0] >= utf8.RuneSelf {
			// What precedes may turn out to be an invalid byte, which marks attach to.
			_, n := utf8.DecodeRuneInString(rest)
			if first, _, _, _ := uniseg.FirstGraphemeClusterInString("\ufffd"+rest[:n], -1); first != "\ufffd" {
				continue
			}
		}
		if pos < len(stream) {
			out = append(out, pos)
		}
	}
	return out
}

// vfLimitSegs cuts segments so that none exceeds max, at allowed positions only.
func vfLimitCuts(n int, allowed, cuts []int, max int) []int {
	want := map[int]bool{}
	for _, k := range cuts {
		want[k] = true
	}
	var out []int
	prev, last := 0, 0
	for _, k := range append(append([]int(nil), allowed...), n) {
		if k-prev > max && last > prev {
			out = append(out, last)
			prev = last
		}
		last = k
		if want[k] && k != prev {
			out = append(out, k)
			prev = k
		}
	}
	return out
}

func (g *vfGen) stream(n int) string {
	var sb strings.Builder
	g.clean = true
	for i := 0; i < n; i++ {
		if g.r.p(7) {
			g.clean = false
			sb.WriteString(g.hostile().bytes)
		} else {
			sb.WriteString(g.anyOp().bytes)
		}
	}
	return sb.String()
}

// pairStream makes two or three short controls that follow each other where they matter:
// near the margins, the edges and wide characters.
func (g *vfGen) pairStream() string {
	var sb strings.Builder
	g.clean = true
	for n := g.r.in(1, 3); n > 0; n-- {
		if g.r.p(60) {
			sb.WriteString(g.margins().bytes)
		}
		if g.r.p(25) {
			sb.WriteString("\x1b[?7h")
		}
		if g.r.p(30) {
			sb.WriteString(g.text().bytes)
		}
		sb.WriteString(vfCUP(vfPick(g.r, []int{0, g.r.n(g.w), g.w - 1}), vfPick(g.r, []int{0, g.r.n(g.h), g.r.n(g.h), g.h - 1})).bytes)
		if g.r.p(50) {
			sb.WriteString(g.char())
		}
		for j := g.r.in(2, 4); j > 0; j-- {
			switch g.r.n(6) {
			case 0, 1, 2:
				sb.WriteString(vfPick(g.r, []string{"\r", "\n", "\b", "\t", "\f", "\v", "\x7f", "\x00", "\a", "\x0e", "\x05", "\r\n", "\n\r", "\n\n", "\b\b", "\t\t"}))
			case 3:
				sb.WriteString(vfPick(g.r, []string{"\x1bD", "\x1bM", "\x1b7", "\x1b8", "\x1b=", "\x1b>", "\x1b(0", "\x1b(B", "\x1b\\"}))
			case 4:
				sb.WriteString(g.char())
			default:
				sb.WriteString(g.anyOp().bytes)
			}
		}
		sb.WriteString(vfPick(g.r, []string{"", "z", "\x1b[6n", g.char()}))
	}
	return sb.String()
}

// longStream makes a stream that is longer than the internal read buffers.
func (g *vfGen) longStream(min int) string {
	var sb strings.Builder
	g.clean = true
	for sb.Len() < min {
		switch g.r.n(5) {
		case 0:
			sb.WriteString(g.textOf(g.r.in(20, 300)))
		case 1:
			sb.WriteString("\x1b]2;" + g.textOfASCII(g.r.in(10, 700)) + g.terminator())
		case 2:
			sb.WriteString(strings.Repeat("世", g.r.in(1, 60)))
		default:
			sb.WriteString(g.anyOp().bytes)
		}
	}
	return sb.String()
}

func init() {
	vfChecks["C08"] = func(c *vfCtx) {
		c.cases(c.scale(27000, 260000), func(i int, r *vfRand) {
			mode := vfBothModes(i)
			w, h := vfSize(r)
			if i%16 == 1 {
				w, h = 80, 24
			}
			g := newVFGen(r, mode, w, h)
			g.widePct = vfPick(r, []int{5, 30})
			g.zeroPct = 4
			var stream string
			long := i%40 < 2
			switch {
			case long:
				stream = g.longStream(r.in(3800, 13000))
			case i%8 == 1 || i%8 == 2:
				stream = g.pairStream()
			case i%8 < 4:
				stream = g.stream(r.in(1, 4))
				if len(stream) > 220 {
					stream = stream[:220]
				}
			default:
				stream = g.stream(r.in(4, 30))
			}
			if stream == "" {
				return
			}
			allowed := vfAllowedCuts(stream, mode, g.clean)
			refCuts := []int(nil)
			if mode == TextReadModeGrapheme {
				// The terminal buffers at most 4096 bytes, of which part may still hold the start
				// of a character; keep those cuts legal.
				refCuts = vfLimitCuts(len(stream), allowed, nil, 4096-utf8.UTFMax)
			}
			ref, _, err := vfDeliver(w, h, mode, vfCutSegs(stream, refCuts))
			if err != nil {
				return // judged by C01 and C02
			}
			try := func(kind string, cuts []int) bool {
				segs := vfCutSegs(stream, cuts)
				if mode == TextReadModeGrapheme {
					segs = vfCutSegs(stream, vfLimitCuts(len(stream), allowed, cuts, 4096-utf8.UTFMax))
				}
				st, reads, err := vfDeliver(w, h, mode, segs)
				c.progress.Add(1)
				d := ""
				if err != nil {
					d = vfPanicSite(err)
				} else {
					d = ref.diff(&st)
				}
				ckey := uint64(len(cuts))
				for _, k := range cuts {
					ckey = vfMix(ckey ^ uint64(k))
				}
				c.eval(len(segs) > 1, vfMix(vfHashStr(stream)^ckey))
				c.count("segmentations: "+kind, 1)
				c.count("reads delivered", reads)
				if d == "" {
					return true
				}
				c.violate(d, fmt.Sprintf("size %dx%d mode %d, one read / %s: %s\nstream %q\nsegments %q", w, h, mode, kind, d, stream, segs))
				return false
			}
			if !try("every allowed position", allowed) {
				return
			}
			if len(stream) <= 220 && !long {
				for _, k := range allowed {
					if !try("one cut", []int{k}) {
						return
					}
				}
			}
			n := 5
			for j := 0; j < n; j++ {
				var cuts []int
				p := vfPick(r, []int{2, 10, 40, 80})
				for _, k := range allowed {
					if r.p(p) {
						cuts = append(cuts, k)
					}
				}
				if !try("random cuts", cuts) {
					return
				}
			}
			if long {
				for _, step := range []int{4096, 4095, 4097, 1000, 8192, 512} {
					off := r.n(40)
					var cuts []int
					for k, ai := off, 0; k < len(stream); k += step {
						for ai < len(allowed) && allowed[ai] < k {
							ai++
						}
						if ai < len(allowed) {
							cuts = append(cuts, allowed[ai])
						}
					}
					if !try("blocks", cuts) {
						return
					}
				}
				// A prefix that moves everything across the internal buffer boundaries.
			}
			if !long && len(stream) < 80 {
				c.sample("%dx%d mode %d: %q cut at every one of %d positions", w, h, mode, stream, len(allowed))
			}
		})
	}

	vfChecks["C09"] = func(c *vfCtx) {
		csi := vfCSISweep()
		per := 64
		nsys := (len(csi) + per - 1) / per
		noop := vfNoEffectSweep()
		nno := (len(noop) + per - 1) / per * 2
		c.cases(nsys+nno+c.scale(570000, 6000000), func(i int, r *vfRand) {
			mode := vfBothModes(i)
			switch {
			case i >= nsys && i < nsys+nno:
				k := (i - nsys) / 2 * per
				vfNoEffect(c, r, mode, noop[k:min(k+per, len(noop))])
			case i < nsys:
				for j := i * per; j < (i+1)*per && j < len(csi); j++ {
					if !vfNoResidue(c, mode, csi[j]) {
						return
					}
					c.count("enumerated sequences", 1)
				}
			case i%8 == 0:
				for j := 0; j < 30; j++ {
					if !vfNoResidue(c, mode, vfRandomSequence(r)) {
						return
					}
					c.count("random well-formed sequences", 1)
				}
			case i%8 < 3:
				vfPayload(c, r, mode)
			default:
				vfInsertUnknown(c, r, mode)
			}
		})
	}
}

// vfCSISweep enumerates sequences over introducer, prefix, parameters, intermediates and
// final byte.
func vfCSISweep() []string {
	var out []string
	for f := 0x40; f <= 0x7e; f++ {
		for _, pre := range []string{"", "?", ">", "<", "="} {
			for _, par := range []string{"", "0", "1", "7", "2;3", ";", "1;;2", "1049", "4:3", "38:2:1:2:3", "65536", "99999999999999999999", "1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16;17;18;19;20", "<", "1?2", "5=6;7", "0;1;2;>"} {
				for _, im := range []string{"", " ", "!", "$", "'", "\"#", " !/"} {
					out = append(out, "\x1b["+pre+par+im+string(rune(f)))
				}
			}
		}
	}
	for f := 0x30; f <= 0x7e; f++ {
		for im := 0x1f; im <= 0x2f; im++ {
			s := "\x1b"
			if im > 0x1f {
				s += string(rune(im))
			} else if strings.ContainsRune("P]X^_[", rune(f)) {
				continue
			}
			out = append(out, s+string(rune(f)))
			if im > 0x1f && f%5 == 0 {
				out = append(out, s+" /"+string(rune(f)), s+"#"+string(rune(f)))
			}
		}
	}
	for _, n := range []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "52", "104", "133", "777", "1337", "99999999999999999999", "", "abc"} {
		for _, p := range []string{"", ";", ";x", ";a;b", ";世\u2022Ü", ";[31m", ";\u009c ÜÜ"} {
			for _, t := range []string{"\a", "\x1b\\", "\x9c"} {
				if strings.Contains(p, "\u009c") && t == "\x9c" {
					continue
				}
				out = append(out, "\x1b]"+n+p+t)
			}
		}
	}
	for _, b := range []string{"a\x07b", "\x07", "a\nb\r\tc", "\x1b\x07x", "\x1b[31mx\x1b]0;y\x07z", "", "q", "1$r", "+q544e", "1;2|3", "q\"1;1;5;5#0;2;0;0;0#0~~@@vv@@~~@@~~$-", "世界", "tmux;\x1b\x1b[31m", "\u2022\u0085\u009b"} {
		out = append(out, "\x1bP"+b+"\x1b\\")
		if !strings.Contains(b, "\x1b") {
			out = append(out, "\x1bP"+b+"\x9c")
		}
	}
	for _, n := range vfBoundaryLengths(17) {
		a := strings.Repeat("a", n)
		for _, t := range []string{"\a", "\x1b\\", "\x9c"} {
			out = append(out, "\x1b]2;"+a+t, "\x1b]52;"+a+t)
			if t != "\a" {
				out = append(out, "\x1bPq"+a+t)
			}
		}
		out = append(out, "\x1b]2;"+strings.Repeat("世", n/3)+"x"+"\x9c", "\x1b["+strings.Repeat("1", n)+"m", "\x1b["+strings.Repeat(";", n)+"m", "\x1b[?"+strings.Repeat("2;", min(n, 5000))+"h", "\x1b["+strings.Repeat(" ", n)+"q")
	}
	var keep []string
	for _, s := range out {
		if s != "\x1b\\" {
			keep = append(keep, s)
		}
	}
	return keep
}

// vfBoundaryLengths returns the lengths around which buffers tend to end.
func vfBoundaryLengths(max int) []int {
	var out []int
	for k := 4; k <= max; k++ {
		for d := -3; d <= 3; d++ {
			out = append(out, 1<<k+d)
		}
	}
	return append(out, 999, 1000, 1001, 10000)
}

func vfRandomSequence(r *vfRand) string {
	b := []byte{0x1b, '['}
	for i, n := 0, r.n(40); i < n; i++ {
		b = append(b, byte(r.in(0x30, 0x3f)))
	}
	for i, n := 0, r.n(4); i < n; i++ {
		b = append(b, byte(r.in(0x20, 0x2f)))
	}
	return string(append(b, byte(r.in(0x40, 0x7e))))
}

// vfNoResidue feeds one sequence to a blank terminal and then a character. Whatever the
// sequence means, a blank screen stays blank, and the character is the only one shown.
func vfNoResidue(c *vfCtx, mode TextReadMode, seq string) bool {
	const w, h = 24, 4
	s := newVFSess(w, h, mode, false)
	err := s.feed(seq + "Q")
	shown := ""
	if err == nil {
		var m, a vfSnap
		m, a, err = s.snapBoth()
		if err == nil {
			for _, sn := range []vfSnap{m, a} {
				for y := range sn.cells {
					shown += strings.TrimSpace(strings.ReplaceAll(sn.cells.text(y), " ", ""))
				}
			}
		}
	}
	c.eval(true, vfHashStr(seq))
	if err != nil {
		c.violate("sequence: "+vfPanicSite(err), fmt.Sprintf("%q: %v", seq, err))
		return false
	}
	if shown != "Q" {
		c.violate("bytes of a control sequence were drawn or text was swallowed", fmt.Sprintf("after %q on a blank %dx%d screen (mode %d) the text shown is %q, want \"Q\"", seq+"Q", w, h, mode, shown))
		return false
	}
	return true
}

// vfPayload checks that OSC 0/2/6/7 deliver exactly their payload.
func vfPayload(c *vfCtx, r *vfRand, mode TextReadMode) {
	g := newVFGen(r, mode, 20, 3)
	s := newVFSess(20, 3, mode, false)
	num := vfPick(r, []int{0, 2, 6, 7})
	which := map[int]ViewString{0: VSWindowTitle, 2: VSWindowTitle, 6: VSCurrentDirectory, 7: VSCurrentFile}[num]
	var p, term string
	switch r.n(7) {
	case 6: // as long as some buffer
		p, term = g.textOfASCII(vfPick(r, vfBoundaryLengths(vfPick(r, []int{6, 10, 10, 13, 13, 13, 13, 13, 13, 17})))), g.terminator()
	case 0:
		p, term = g.payload(), g.terminator()
	case 1: // any bytes; a lone ST byte would be ambiguous
		b := make([]byte, r.n(60))
		for i := range b {
			for b[i] = 0x9c; b[i] == 0x9c || b[i] < 0x20; b[i] = byte(r.n(256)) {
			}
		}
		p, term = string(b), vfPick(r, []string{"\a", "\x1b\\"})
	case 2: // valid UTF-8 full of 0x9c, 0x9b and 0x90 bytes
		var sb strings.Builder
		for i, n := 0, r.in(1, 12); i < n; i++ {
			sb.WriteString(vfPick(r, []string{"Ü", "\u009c", "✜", "眜", "\U0001f71c", "😜", "\u00dc", "뜜", "\u071c", "x", "\u009b", "\u0090", "\u0087"}))
		}
		p, term = sb.String(), g.terminator()
	case 3: // longer than any buffer
		p, term = strings.Repeat(g.textOfASCII(r.in(5, 40)), r.in(100, 400)), g.terminator()
	case 4:
		p, term = g.textOfASCII(r.n(200)), g.terminator()
	case 5: // looks like something else
		p, term = vfPick(r, []string{"0;x", "2;y", ";", ";;;", "\\", "[H", "]0;q", "?25l", " ", "a\\b", "\x7f", "%20", "file://host/p?q;r"}), g.terminator()
	}
	// The neighbours matter: the sequence follows and precedes text, in one read or cut.
	stream := "ab\x1b]" + strconv.Itoa(num) + ";" + p + term + "cd"
	before, half := "", p[:len(p)/2]
	if !utf8.ValidString(half) {
		half = ""
	}
	if r.p(50) { // it replaces another
		for _, n := range []int{0, 2, 6, 7} {
			if r.p(60) {
				before += "\x1b]" + strconv.Itoa(n) + ";" + vfPick(r, []string{"old", "", p, "title é", p + "x", g.nearly(p), g.nearly(p), half}) + "\a"
			}
		}
		if err := s.feed(before); err != nil {
			before = ""
		}
	}
	others := map[ViewString]string{}
	for f := ViewString(0); f < viewStringCount; f++ {
		if f != which {
			others[f] = s.t.GetViewString(f)
		}
	}
	s.fe.strs = map[ViewString]string{which: "unset"}
	var err error
	cuts := []int(nil)
	if r.p(50) {
		for _, k := range vfAllowedCuts(stream, TextReadModeRune, false) {
			if r.p(20) {
				cuts = append(cuts, k)
			}
		}
		if mode == TextReadModeGrapheme {
			cuts = nil
		}
	}
	err = s.feed(vfCutSegs(stream, cuts)...)
	c.eval(true, vfHashStr(stream))
	c.count("OSC payloads", 1)
	what := ""
	sn, e2 := s.snap()
	switch {
	case err != nil:
		what = vfPanicSite(err)
	case e2 != nil:
		what = e2.Error()
	case s.fe.strs[which] != p:
		what = fmt.Sprintf("payload delivered as %q", s.fe.strs[which])
	case s.t.GetViewString(which) != p:
		what = fmt.Sprintf("string stored as %q", s.t.GetViewString(which))
	case len(s.fe.strs) != 1:
		what = fmt.Sprintf("other strings delivered: %q", s.fe.strs)
	case strings.TrimRight(sn.cells.text(0), " ") != "abcd":
		what = fmt.Sprintf("the screen shows %q, want abcd", sn.cells.text(0))
	}
	for f, old := range others {
		if what == "" && s.t.GetViewString(f) != old {
			what = fmt.Sprintf("another string changed to %q", s.t.GetViewString(f))
		}
	}
	if what != "" {
		stream = before + stream
		c.violate("OSC: "+what, fmt.Sprintf("%s\nstream %q mode %d cuts %v", what, stream, mode, cuts))
		return
	}
	if utf8.ValidString(p) && len(p) < 40 {
		c.sample("OSC %q delivered %q", stream, p)
	}
}

// vfInsertUnknown compares A B with A X B where X is not recognised.
func vfInsertUnknown(c *vfCtx, r *vfRand, mode TextReadMode) {
	w, h := vfSize(r)
	g := newVFGen(r, mode, w, h)
	var a, b string
	for i, n := 0, r.n(8); i < n; i++ {
		a += g.anyOp().bytes
	}
	g.multi = g.multi[:7] // no combining characters right after the insertion
	for i, n := 0, r.in(1, 6); i < n; i++ {
		b += g.anyOp().bytes
	}
	var x string
	n := 1
	if r.p(20) {
		n = r.in(2, 4)
	}
	var kinds []string
	for i := 0; i < n; i++ {
		op := g.unknown()
		switch r.n(5) {
		case 0:
			op = g.dcs()
		case 1:
			op = vfOp{kind: "unk-osc", bytes: fmt.Sprintf("\x1b]%s;%s%s", vfUnknownOSC(r), g.payload(), g.terminator())}
		}
		x += op.bytes
		kinds = append(kinds, op.kind)
	}
	deliver := func(parts ...string) (vfState, vfState, error) {
		s := newVFSess(w, h, mode, false)
		lost := vfObserve(s)
		var mid vfState
		i := 0
		err := s.run(func() ([]byte, bool) {
			if i == len(parts)-1 {
				mid, _ = s.state(lost)
			}
			if i >= len(parts) {
				return nil, false
			}
			i++
			return []byte(parts[i-1]), true
		})
		if err != nil {
			return mid, mid, err
		}
		end, err := s.state(lost)
		if err == nil {
			err = s.feed(vfProbe(34))
			end.probed = string(s.be.out[len(end.replies):])
		}
		return mid, end, err
	}
	if a == "" {
		a = "\r"
	}
	mid1, end1, err := deliver(a, b)
	if err != nil {
		return
	}
	mid2, end2, err := deliver(a, x, b)
	d := ""
	if err != nil {
		d = vfPanicSite(err)
	} else if d = mid1.diff(&mid2); d != "" {
		d = "right after it: " + d
	} else if d = end1.diff(&end2); d != "" {
		d = "later: " + d
	} else if mode == TextReadModeRune { // and everything in one read
		_, end3, err := deliver("\r", a+x+b)
		_, end4, err4 := deliver("\r", a+b)
		if err4 == nil {
			if err != nil {
				d = vfPanicSite(err)
			} else if d = end4.diff(&end3); d != "" {
				d = "in one read: " + d
			}
		}
	}
	c.eval(true, vfMix(vfHashStr(a)^vfHashStr(x)<<1^vfHashStr(b)<<2^uint64(mode)))
	for _, k := range kinds {
		c.count("inserted "+k, 1)
	}
	if d != "" {
		c.violate(strings.Join(kinds, "+")+": "+d, fmt.Sprintf("without / with %q (%v): %s\nsize %dx%d mode %d\nbefore %q\nafter %q", x, kinds, d, w, h, mode, a, b))
		return
	}
	if len(a)+len(b) < 60 && bytes.IndexByte([]byte(a), 0x1b) >= 0 {
		c.sample("%q inserted between %q and %q changed nothing", x, a, b)
	}
}

// vfWraps lists numbers that look like n to code that keeps too few bits.
func vfWraps(n uint64) []string {
	var out []string
	for _, k := range []uint64{1 << 8, 1 << 9, 1 << 12, 1 << 15, 1 << 16, 1 << 20, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 63} {
		out = append(out, strconv.FormatUint(k+n, 10))
	}
	b := new(big.Int).Lsh(big.NewInt(1), 64)
	return append(out, b.Add(b, new(big.Int).SetUint64(n)).String())
}

// vfUnknownOSC picks the number of an OSC that is not recognised.
func vfUnknownOSC(r *vfRand) string {
	switch r.n(4) {
	case 0:
		return vfPick(r, vfWraps(uint64(vfPick(r, []int{0, 2, 6, 7}))))
	case 1:
		for {
			if n := r.n(vfPick(r, []int{20, 300, 70000})); n != 0 && n != 2 && n != 6 && n != 7 {
				return strconv.Itoa(n)
			}
		}
	}
	return vfPick(r, []string{"1", "4", "5", "8", "9", "10", "11", "12", "52", "104", "112", "133", "777", "1337", "l", "L", "I", "-2", "+2", " 2", "2 ", "0x2", "2x"})
}

// vfNoEffectSweep enumerates sequences that are well-formed and not recognised.
func vfNoEffectSweep() []string {
	var out []string
	private, dsr, sgr := map[int]bool{}, map[int]bool{5: true, 6: true}, map[int]bool{}
	for _, n := range vfPrivateModes {
		private[n] = true
	}
	for n := 0; n < 150; n++ {
		if n < 10 || n >= 21 && n <= 25 || n >= 27 && n <= 49 || n >= 51 && n <= 55 || n == 58 || n >= 90 && n <= 107 {
			sgr[n] = true
		}
	}
	unknown := func(limit int, known map[int]bool) []string {
		var l []string
		for n := 0; n < limit; n++ {
			if !known[n] {
				l = append(l, strconv.Itoa(n))
			}
		}
		for n := range known {
			l = append(l, vfWraps(uint64(n))...)
		}
		sort.Strings(l)
		return l
	}
	for _, n := range unknown(3200, private) {
		out = append(out, "\x1b[?"+n+"h", "\x1b[?"+n+"l")
	}
	for _, n := range unknown(400, dsr) {
		out = append(out, "\x1b["+n+"n")
	}
	for _, n := range unknown(300, sgr) {
		out = append(out, "\x1b["+n+"m")
	}
	for _, n := range unknown(300, map[int]bool{0: true, 1: true, 2: true}) {
		out = append(out, "\x1b["+n+"J", "\x1b["+n+"K")
	}
	for _, n := range unknown(300, map[int]bool{0: true}) {
		out = append(out, "\x1b["+n+"c", "\x1b["+n+"h", "\x1b["+n+"l", "\x1b["+n+"t")
	}
	for a := 0; a < 26; a++ { // window operations
		for b := 0; b < 4; b++ {
			out = append(out, fmt.Sprintf("\x1b[%d;%dt", a, b))
			for _, c := range []int{0, 1, 2, 3, 9, 80} {
				out = append(out, fmt.Sprintf("\x1b[%d;%d;%dt", a, b, c))
			}
		}
	}
	for _, a := range []int{1, 2, 4, 5, 12, 20, 25, 1049} { // lists of ANSI modes
		for _, b := range []int{1, 4, 7, 25, 1049} {
			out = append(out, fmt.Sprintf("\x1b[%d;%dh", a, b), fmt.Sprintf("\x1b[%d;%dl", a, b))
		}
	}
	for _, n := range unknown(300, map[int]bool{4: true}) {
		out = append(out, "\x1b[>"+n+"m", "\x1b[>"+n+";1m")
	}
	for _, n := range unknown(300, map[int]bool{0: true, 1: true, 2: true, 3: true}) {
		out = append(out, "\x1b[=4;"+n+"u", "\x1b[=31;"+n+"u")
	}
	for _, n := range unknown(1400, map[int]bool{0: true, 2: true, 6: true, 7: true}) {
		out = append(out, "\x1b]"+n+";x\a", "\x1b]"+n+";y\x1b\\")
	}
	return append(out, vfUnknownFinals()...)
}

// vfUnknownFinals enumerates introducer, prefix, intermediates and final byte.
func vfUnknownFinals() []string {
	var out []string
	known := map[string]string{"": "ABCDGHJKLMPSTXdfclmnrstu", "?": "hlum", ">": "cmu", "<": "u", "=": "u"}
	pars := []string{"", "0", "1", "2", "3;4", "5", "25", "1049", "4;2", "2;2", ";", "16777217", "18446744073709551616"}
	for f := 0x40; f <= 0x7e; f++ {
		for _, pre := range []string{"", "?", ">", "<", "="} {
			for _, im := range []string{"", " ", "!", "$", "'", "*", "/", "\"", "#", " !"} {
				if im == "" && (strings.ContainsRune(known[pre], rune(f)) || pre == "" && (f == 'h' || f == 'l' || f == 't' || f == 'c')) {
					continue
				}
				for k, par := range pars {
					if im != "" && k%3 != f%3 {
						continue
					}
					out = append(out, "\x1b["+pre+par+im+string(rune(f)))
				}
			}
		}
	}
	for f := 0x30; f <= 0x7e; f++ {
		for im := 0x20; im <= 0x2f; im++ {
			out = append(out, "\x1b"+string(rune(im))+string(rune(f)))
		}
	}
	for _, b := range []string{"", "q", "$qm", "+q544e", "1$r0m", "\x1b[2J", "\x1b[?25l", "\x1b]2;x\a", "\r\n\b\t\f", "\x1b7", "\x1b[5;5H", "\x1b[6n"} {
		out = append(out, "\x1bP"+b+"\x1b\\", "\x1bP"+b+"\x9c")
	}
	return out
}

// vfNoEffect puts a terminal in a rich state and checks that none of seqs changes anything
// about it, visible now or later.
func vfNoEffect(c *vfCtx, r *vfRand, mode TextReadMode, seqs []string) {
	w, h := r.in(2, 12), r.in(2, 6)
	g := newVFGen(r, mode, w, h)
	var sb strings.Builder
	for i, n := 0, r.in(4, 14); i < n; i++ {
		sb.WriteString(g.anyOp().bytes)
	}
	for i, n := 0, r.in(1, 3); i < n; i++ {
		fmt.Fprintf(&sb, "\x1b[?1049%c", "lh"[r.n(2)])
		for j, m := 0, r.n(4); j < m; j++ {
			fmt.Fprintf(&sb, "\x1b[>%du", r.in(1, 31))
		}
		fmt.Fprintf(&sb, "\x1b[%d;%dH\x1b[s\x1b[%dm\x1b[%d;%dHxy\x1b[%d;%dr\x1b[?%d%c", r.in(1, h), r.in(1, w), vfPick(r, []int{1, 4, 7, 31, 94, 103, 42}), r.in(1, h), r.in(1, w), r.in(1, h-1), h, vfPick(r, []int{7, 25, 1, 2004, 1002, 1006, 12}), "lh"[r.n(2)])
		if r.p(50) {
			fmt.Fprintf(&sb, "\x1b]2;t%d\a\x1b]6;d%d\a\x1b]7;f%d\a", i, i, i)
		}
		sb.WriteString(g.motion().bytes)
	}
	prefix := sb.String() + "\r\x1b[C" // no cluster that a later one could join
	run := func(seqs []string) (st vfState, d string, err error) {
		s := newVFSess(w, h, mode, false)
		lost := vfObserve(s)
		k := -1
		err = s.run(func() ([]byte, bool) {
			k++
			if k == 0 {
				return []byte(prefix), true
			}
			now, err := s.state(lost)
			if err != nil {
				d = err.Error()
				return nil, false
			}
			if k == 1 {
				st = now
			} else if d = st.diff(&now); d != "" {
				d = fmt.Sprintf("%q: %s", seqs[k-2], d)
				return nil, false
			}
			if k-1 < len(seqs) {
				c.progress.Add(1)
				return []byte(seqs[k-1]), true
			}
			return nil, false
		})
		if err == nil && d == "" {
			err = s.feed(vfProbe(34))
			st.probed = string(s.be.out[len(st.replies):])
		}
		return
	}
	base, _, err := run(nil)
	if err != nil {
		return // judged by C01 and C02
	}
	st, d, err := run(seqs)
	for _, x := range seqs {
		c.eval(true, vfMix(vfHashStr(x)^vfHashStr(prefix)))
	}
	c.count("enumerated sequences without effect", int64(len(seqs)))
	if err != nil {
		d = vfPanicSite(err)
	} else if d == "" {
		if d = base.diff(&st); d != "" {
			d = "later: " + d
		}
	}
	if d != "" {
		c.violate("no effect expected: "+d, fmt.Sprintf("%s\nsize %dx%d mode %d\nafter %q\nsequences %q", d, w, h, mode, prefix, seqs))
	}
}
