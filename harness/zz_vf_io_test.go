package termemu

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"unicode/utf8"
	"unsafe"

	"github.com/creack/pty"
	"github.com/rivo/uniseg"
)

// C16: every byte of the backend once and in order, whole writes or an error, tee, sizes.
// The stream is a ledger: each of its items leaves a trace of its own, so the traces say
// which bytes were interpreted, how often and in which order.

type vfItem struct {
	bytes string
	text  []string // characters it puts on the screen
	event string   // what the frontend or the application sees
}

var vfLedgerChars = func() (out []string) {
	for _, s := range []string{"a", "b", "Z", "7", "~", "é", "ß", "ж", "─", "│", "€", "ﾊ", "𝒜", "𐎠", "𝟘"} {
		if uniseg.StringWidth(s) == 1 {
			out = append(out, s)
		}
	}
	return
}()

// vfLedger makes items of about n bytes in total with at most maxText characters of text.
func vfLedger(r *vfRand, n, maxText int) []vfItem {
	var items []vfItem
	total, chars := 0, 0
	big := r.p(30)
	for total < n {
		var it vfItem
		id := len(items)
		switch r.n(10) {
		case 9: // ignored
			it = vfItem{bytes: strings.Repeat(vfPick(r, []string{"\x00", "\v", "\x05"}), r.in(1, 3))}
		case 0:
			l := r.n(30)
			if big && r.p(30) {
				l = vfPick(r, []int{r.in(4080, 4110), r.in(8170, 8210), r.in(3000, 20000)})
			}
			t := fmt.Sprintf("t%d.", id)
			for len(t) < l {
				t += vfPick(r, vfLedgerChars)
			}
			it = vfItem{bytes: "\x1b]2;" + t + vfPick(r, []string{"\a", "\x1b\\"}), event: fmt.Sprintf("str %d=%q", VSWindowTitle, t)}
		case 1:
			it = vfItem{bytes: "\x1b[5n", event: "reply \x1b[0n"}
		case 2:
			it = vfItem{bytes: "\a", event: "bell"}
		case 3:
			k := r.n(4)
			if big && r.p(30) {
				k = r.in(1000, 3000)
			}
			it = vfItem{bytes: "\x1b[0" + strings.Repeat(";1", k) + "m"}
		case 4:
			set := r.p(50)
			it = vfItem{bytes: "\x1b[?2004" + map[bool]string{true: "h", false: "l"}[set], event: fmt.Sprintf("flag %d=%v", VFBracketedPaste, set)}
		case 5:
			l := r.n(20)
			if big && r.p(30) {
				l = r.in(3000, 9000)
			}
			it = vfItem{bytes: "\x1bP" + strings.Repeat("q", l) + "\x1b\\"}
		default:
			l := r.in(1, 60)
			if big && r.p(40) {
				l = r.in(1000, 6000)
			}
			if chars+l > maxText {
				l = maxText - chars
			}
			if l <= 0 {
				it = vfItem{bytes: "\a", event: "bell"}
				break
			}
			chars += l
			// Numbered words, so that a repetition or an omission shows.
			w := fmt.Sprintf("%d", id)
			for i := 0; i < l; i++ {
				ch := vfPick(r, vfLedgerChars)
				if i < len(w) {
					ch = w[i : i+1]
				}
				it.text = append(it.text, ch)
			}
			it.bytes = strings.Join(it.text, "")
		}
		total += len(it.bytes)
		items = append(items, it)
	}
	return items
}

// vfFaultRead is what one backend read does.
type vfFaultRead struct {
	n   int // bytes wanted
	err error
}

// vfFaultBackend replays a read script over a stream. Behind the first error lies more
// data, which nobody may see.
type vfFaultBackend struct {
	data    []byte
	script  func(i int) vfFaultRead
	i       int
	pos     int   // delivered
	failed  error // the error that was reported
	after   int   // reads after the error
	out     []byte
	events  *[]string
	sizes   []Pos
	sizeErr error
	biggest int
}

var errVF = errors.New("injected fault")

// vfReadErrors are the ways in which reading can end.
var vfReadErrors = []error{
	errVF, errVF, io.EOF, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer, io.ErrShortWrite, os.ErrClosed, os.ErrDeadlineExceeded,
	syscall.EIO, syscall.EBADF, &os.PathError{Op: "read", Path: "/dev/ptmx", Err: syscall.EIO}, fmt.Errorf("wrapped: %w", io.EOF), net.ErrClosed, context.Canceled,
}

func (b *vfFaultBackend) Read(p []byte) (int, error) {
	if b.failed != nil {
		if b.after++; b.after < 5 {
			return copy(p, "\aLATE\x1b[5n"), nil
		}
		return 0, io.EOF
	}
	if len(p) > b.biggest {
		b.biggest = len(p)
	}
	rd := b.script(b.i)
	b.i++
	n := vfMin(rd.n, vfMin(len(p), len(b.data)-b.pos))
	copy(p, b.data[b.pos:b.pos+n])
	b.pos += n
	if b.pos == len(b.data) && rd.err == nil && n == 0 && rd.n > 0 {
		rd.err = io.EOF
	}
	b.failed = rd.err
	return n, rd.err
}

func (b *vfFaultBackend) Write(p []byte) (int, error) {
	b.out = append(b.out, p...)
	if b.events != nil {
		*b.events = append(*b.events, "reply "+string(p))
	}
	return len(p), nil
}

func (b *vfFaultBackend) SetSize(w, h int) error {
	b.sizes = append(b.sizes, Pos{w, h})
	return b.sizeErr
}

// vfLedgerFront logs events in order with the replies.
type vfLedgerFront struct {
	EmptyFrontend
	log *[]string
}

func (f *vfLedgerFront) Bell() { *f.log = append(*f.log, "bell") }
func (f *vfLedgerFront) ViewFlagChanged(v ViewFlag, b bool) {
	*f.log = append(*f.log, fmt.Sprintf("flag %d=%v", v, b))
}
func (f *vfLedgerFront) ViewStringChanged(v ViewString, s string) {
	*f.log = append(*f.log, fmt.Sprintf("str %d=%q", v, s))
}

// vfLedgerRun drives a terminal with a ledger and a read script and judges the traces.
func vfLedgerRun(c *vfCtx, r *vfRand, mode TextReadMode, items []vfItem, name string, script func(i int) vfFaultRead, useTee, public bool) bool {
	var data []byte
	nText := 0
	for _, it := range items {
		data = append(data, it.bytes...)
		nText += len(it.text)
	}
	const w = 97
	h := nText/w + 2
	var log []string
	fe := &vfLedgerFront{log: &log}
	be := &vfFaultBackend{data: data, script: script, events: &log}
	var backend Backend = be
	nopty := r.p(35)
	if nopty {
		backend = NewNoPTYBackend(be, be)
		name += " (NoPTYBackend)"
		c.count("runs through NoPTYBackend", 1)
	}
	var copied []byte
	if useTee {
		tee := NewTeeBackend(backend)
		if r.p(30) {
			tee = NewTeeBackend(tee)
		}
		tee.SetTee(vfFuncWriter(func(p []byte) (int, error) {
			copied = append(copied, p...)
			switch r.n(4) {
			case 0:
				return r.n(len(p) + 1), vfPick(r, vfReadErrors)
			case 1:
				return len(p) / 2, nil
			}
			return len(p), nil
		}))
		backend = tee
	}
	fail := func(what string) bool {
		d := fmt.Sprintf("%s\nmode %d tee %v, reads: %s\n%d of %d bytes delivered in %d reads, error %v\n", what, mode, useTee, name, be.pos, len(data), be.i, be.failed)
		if len(data) < 2000 {
			d += fmt.Sprintf("stream %q\n", data)
		}
		c.violate(what, d+fmt.Sprintf("events %.2000q", log))
		return false
	}
	prep := []vfItem{}
	_ = prep
	var t *terminal
	if public {
		gate := &vfGate{b: backend, open: make(chan struct{})}
		term := NewWithMode(fe, gate, mode)
		t = term.(*terminal)
		_ = term.Resize(w, h)
		close(gate.open)
		<-t.readLoopDone
	} else {
		t = newTerminal(fe, backend, mode)
		_ = t.Resize(w, h)
		if err := vfRunLoop(t); err != nil {
			return fail(vfPanicSite(err))
		}
	}
	c.eval(true, vfMix(vfHashStr(string(data))^vfHashStr(name)^uint64(be.pos)<<3^uint64(mode)))
	c.count("bytes delivered", int64(be.pos))
	c.count("reads", int64(be.i))
	if !nopty && (len(be.sizes) != 1 || be.sizes[0] != (Pos{w, h})) {
		return fail(fmt.Sprintf("Resize(%d,%d) forwarded %v", w, h, be.sizes))
	}
	if be.failed == nil {
		return fail("the loop ended although no read reported an error")
	}
	if useTee && string(copied) != string(data[:be.pos]) && be.after == 0 {
		return fail(fmt.Sprintf("the tee got %d bytes, the terminal %d", len(copied), be.pos))
	}
	// What the delivered bytes say.
	var want []string
	var text []string
	pos := 0
	partial := false
	for _, it := range items {
		if pos+len(it.bytes) > be.pos {
			if pos < be.pos {
				partial = true
				if it.text != nil {
					rest := be.pos - pos
					for _, ch := range it.text {
						if rest < len(ch) {
							break
						}
						text = append(text, ch)
						rest -= len(ch)
					}
				}
			}
			break
		}
		pos += len(it.bytes)
		if it.event != "" {
			want = append(want, it.event)
		}
		text = append(text, it.text...)
	}
	if partial && len(log) > len(want) && strings.HasPrefix(log[len(want)], "str ") {
		// An unterminated title at the end of input may count or not.
		log = append(log[:len(want)], log[len(want)+1:]...)
	}
	if d := vfDiffStrs("event", log, want); d != "" {
		return fail(d + " (seen / sent)")
	}
	t.Lock()
	defer t.Unlock()
	k := 0
	for y := 0; y < h; y++ {
		cells, err := vfRowCells(t.StyledLine(0, w, y), w, mode, nil)
		if err != nil {
			return true // C02
		}
		for x := 0; x < w; x++ {
			got := cells[x].text
			switch {
			case k < len(text) && got != text[k]:
				return fail(fmt.Sprintf("character %d of the stream is %q on the screen, want %q", k, got, text[k]))
			case k >= len(text) && got != " " && !(k == len(text) && partial && got == "\ufffd") && !(partial && k < len(text)+4 && got == "\ufffd"):
				return fail(fmt.Sprintf("%q on the screen behind the %d characters that were delivered", got, len(text)))
			}
			k++
		}
	}
	return true
}

// vfGate holds a backend's reads until it is opened.
type vfGate struct {
	b    Backend
	open chan struct{}
}

func (g *vfGate) Read(p []byte) (int, error)  { <-g.open; return g.b.Read(p) }
func (g *vfGate) Write(p []byte) (int, error) { return g.b.Write(p) }
func (g *vfGate) SetSize(w, h int) error      { return g.b.SetSize(w, h) }

type vfFuncWriter func(p []byte) (int, error)

func (f vfFuncWriter) Write(p []byte) (int, error) { return f(p) }

var vfWrapOn = vfItem{bytes: "\x1b[?7h"}

func vfRandScript(r *vfRand, total int) (string, func(i int) vfFaultRead) {
	kind := r.n(6)
	size := vfPick(r, []int{1, 2, 3, 7, 64, 512, 4095, 4096, 4097, 8191, 8192, 1 << 20})
	zero := vfPick(r, []int{0, 0, 10, 40})
	failAt := -1
	var err error = io.EOF
	if r.p(65) {
		err = vfPick(r, vfReadErrors)
	}
	if r.p(60) {
		est := 1 + total/size
		if kind == 1 {
			est = 1 + total/8
		}
		failAt = r.n(vfMin(est, 5000) + 2)
	}
	withData := r.p(50)
	rr := vfSeed(r.u64())
	name := fmt.Sprintf("kind %d size %d zero %d%% fail at read %d (%v, with data %v)", kind, size, zero, failAt, err, withData)
	zeros := 0
	return name, func(i int) vfFaultRead {
		n := size
		switch kind {
		case 1:
			n = rr.in(1, 16)
		case 2:
			n = vfPick(rr, []int{1, 4095, 4096, 4097, 3, 8000})
		case 3:
			n = rr.in(1, 9000)
		}
		if i == failAt {
			if !withData {
				n = 0
			}
			return vfFaultRead{n, err}
		}
		if zeros < 40 && rr.p(zero) {
			zeros++
			return vfFaultRead{0, nil}
		}
		zeros = 0
		return vfFaultRead{n, nil}
	}
}

// vfWriteFaults: Terminal.Write, SendKey and SendMouseRaw against a writer that is short or fails.
func vfWriteFaults(c *vfCtx, r *vfRand, rounds int) {
	for k := 0; k < rounds && !c.full(); k++ {
		type step struct {
			n   int
			err error
		}
		var plan []step
		for i, n := 0, r.in(0, 6); i < n; i++ {
			plan = append(plan, step{r.in(1, 6), nil})
		}
		end := r.n(4)
		switch end {
		case 0:
			plan = append(plan, step{r.n(5), errVF})
		case 1:
			plan = append(plan, step{0, nil})
		}
		var got []byte
		calls, maxN := 0, 0
		bad := ""
		w := vfFuncWriter(func(p []byte) (int, error) {
			calls++
			if len(p) == 0 {
				bad = "empty write"
			}
			n := len(p)
			var err error
			if calls <= len(plan) {
				n, err = vfMin(plan[calls-1].n, len(p)), plan[calls-1].err
			}
			if n > maxN {
				maxN = n
			}
			got = append(got, p[:n]...)
			if calls > len(plan)+1 {
				bad = fmt.Sprintf("write call %d after the script's end or error", calls)
			}
			if err != nil {
				plan = plan[:calls] // nothing may follow
			}
			return n, err
		})
		be := NewNoPTYBackend(strings.NewReader(""), w)
		var b Backend = be
		if r.p(40) {
			tb := NewTeeBackend(be)
			tb.SetTee(vfFuncWriter(func(p []byte) (int, error) {
				bad = fmt.Sprintf("the tee got %q, which was not read", p)
				return len(p), nil
			}))
			b = tb
		}
		t := newTerminal(nil, b, TextReadModeRune)
		var full []byte
		var n int
		var err error
		what := "Write"
		switch r.n(6) {
		case 0:
			what = "SendKey"
			ev := KeyEvent{Code: vfPick(r, []KeyCode{KeyUp, KeyF5, KeyDelete}), Mod: KeyMod(r.n(8))}
			full = t.encodeKey(ev)
			n, err = t.SendKey(ev)
		default:
			full = make([]byte, r.n(30))
			if r.p(10) {
				full = make([]byte, r.in(4000, 20000))
			}
			for i := range full {
				full[i] = byte(r.n(256))
			}
			if r.p(30) { // what users and terminals send
				full = nil
				for i := r.in(1, 3); i > 0; i-- {
					full = append(full, vfPick(r, []string{string([]byte{byte(r.n(32))}), string([]byte{byte(r.n(256))}), "\r", "\n", "\r\n", "\x7f",
						"\x1b[A", "\x1bOP", "\x1b[200~", "\x1b[201~", "\x1b[I", "\x1b[<0;3;4M", "\x1b[?62c", "\x1b[0n", "\x1b[3;4R", "ls -l", "é世", "\x1b]11;rgb:0/0/0\a"})...)
				}
			}
			keep := string(full)
			n, err = t.Write(full)
			if string(full) != keep {
				bad = "the caller's slice was changed"
			}
		}
		// What the script amounts to.
		left, total := len(full), 0
		var wantErr error
		short := false
		for _, s := range plan {
			if left == 0 {
				break
			}
			m := vfMin(s.n, left)
			total += m
			left -= m
			if s.err != nil {
				wantErr = s.err
				break
			}
			if m == 0 {
				short = true
				break
			}
		}
		if wantErr == nil && !short {
			total = len(full)
		}
		c.eval(len(full) > 0, vfMix(vfHashStr(fmt.Sprint(plan, len(full), what))))
		c.count("writes", 1)
		if wantErr != nil || short {
			c.count("writes that failed", 1)
		}
		switch {
		case bad != "":
		case wantErr == nil && !short && err != nil:
			bad = fmt.Sprintf("returned error %v", err)
		case wantErr != nil && !errors.Is(err, wantErr):
			bad = fmt.Sprintf("returned error %v, want %v", err, wantErr)
		case short && err == nil:
			bad = "no error although the writer stopped"
		case n != len(got):
			bad = fmt.Sprintf("returned %d, the writer took %d bytes", n, len(got))
		case !short && n != total:
			bad = fmt.Sprintf("returned %d, want %d", n, total)
		case string(got) != string(full[:vfMin(len(got), len(full))]) || len(got) > len(full):
			bad = fmt.Sprintf("wrote %q of %q", got, full)
		}
		if bad != "" {
			c.violate(what+": "+bad, fmt.Sprintf("%s: %s\nscript %v, %d bytes", what, bad, plan, len(full)))
			return
		}
	}
}

// vfTeeSwitch: SetTee in the middle of the input.
func vfTeeSwitch(c *vfCtx, r *vfRand) {
	size := r.in(1, 12000)
	long := r.n(1200) == 0
	if long {
		size = vfPick(r, []int{70000, 300000, 1200000, 5 << 20, 17 << 20})
	}
	data := make([]byte, size)
	kind := r.n(3)
	for i := range data {
		switch kind {
		case 0:
			data[i] = byte('a' + i%26)
		case 1:
			data[i] = byte(r.n(256))
		default:
			data[i] = vfPick(r, []byte{0, 0, 7, 10, 27, 255, 'x'})
		}
	}
	name, script := vfRandScript(r, len(data))
	if long {
		name, script = "full reads", func(int) vfFaultRead { return vfFaultRead{1 << 20, nil} }
		c.count("tee histories of up to 17 MiB", 1)
	}
	be := &vfFaultBackend{data: data, script: script}
	tee := NewTeeBackend(be)
	sinks := [3][]byte{}
	faulty := vfPick(r, []int{0, 0, 0, 5, 50})
	fr := vfSeed(r.u64())
	want := [3][]byte{}
	cur := 0
	set := func(k int) {
		cur = k
		if k == 0 {
			tee.SetTee(nil)
			return
		}
		tee.SetTee(vfFuncWriter(func(p []byte) (int, error) {
			sinks[k] = append(sinks[k], p...)
			if fr.p(faulty) { // what the tee says must not matter
				return fr.n(len(p) + 1), vfPick(fr, vfReadErrors)
			}
			return len(p), nil
		}))
	}
	var all []byte
	buf := make([]byte, vfPick(r, []int{1, 3, 4096, 9000}))
	if long {
		buf = make([]byte, vfPick(r, []int{4096, 9000}))
	}
	for steps := 0; steps < 40000; steps++ {
		if r.p(10) {
			set(r.n(3))
		}
		pos := be.pos
		for i := range buf {
			buf[i] = '!'
		}
		n, err := tee.Read(buf)
		if n != be.pos-pos || err != be.failed || string(buf[:n]) != string(data[pos:be.pos]) {
			c.violate("a TeeBackend read differs from its backend's", fmt.Sprintf("%d, %v instead of %d, %v", n, err, be.pos-pos, be.failed))
			return
		}
		want[cur] = append(want[cur], buf[:n]...)
		all = append(all, buf[:n]...)
		if err != nil {
			break
		}
	}
	c.eval(true, vfMix(vfHashStr(name)^uint64(len(all))))
	c.count("tee histories", 1)
	for k := 1; k < 3; k++ {
		if string(sinks[k]) != string(want[k]) {
			c.violate("the tee did not get exactly the bytes read", fmt.Sprintf("sink %d got %d bytes, want %d (%s)", k, len(sinks[k]), len(want[k]), name))
			return
		}
	}
	if n, err := tee.Write([]byte("xyz")); n != 3 || err != nil || string(be.out) != "xyz" {
		c.violate("TeeBackend.Write does not pass on", fmt.Sprintf("%d %v %q", n, err, be.out))
	}
	if err := tee.SetSize(31, 7); err != nil || len(be.sizes) != 1 || be.sizes[0] != (Pos{31, 7}) {
		c.violate("TeeBackend.SetSize does not pass on", fmt.Sprint(err, be.sizes))
	}
}

// vfSizes: every Resize is passed on, whatever the backend says.
func vfSizes(c *vfCtx, r *vfRand) {
	be := &vfFaultBackend{}
	var b Backend = be
	if r.p(40) {
		b = NewTeeBackend(b)
	}
	t := newTerminal(newVFFront(), b, vfPick(r, []TextReadMode{TextReadModeRune, TextReadModeGrapheme}))
	var hist []string
	w, h := 80, 14
	for i, n := 0, r.in(1, 12); i < n; i++ {
		if !r.p(30) { // otherwise the same size again
			w, h = vfPick(r, []int{1, 2, 80, 132, 255, 256, r.in(1, 300)}), vfPick(r, []int{1, 2, 14, 24, r.in(1, 100)})
			if r.p(20) {
				w, h = h, w
			}
		}
		be.sizeErr = nil
		if r.p(30) {
			be.sizeErr = vfPick(r, []error{errVF, io.ErrClosedPipe, io.EOF})
		}
		be.sizes = nil
		err := t.Resize(w, h)
		hist = append(hist, fmt.Sprintf("Resize(%d,%d) with SetSize returning %v", w, h, be.sizeErr))
		c.eval(true, vfHashStr(strings.Join(hist, " ")))
		c.count("sizes passed on", 1)
		bad := ""
		var tw, th int
		t.WithLock(func() { tw, th = t.Size() })
		switch {
		case len(be.sizes) != 1 || be.sizes[0] != (Pos{w, h}):
			bad = fmt.Sprintf("the backend got the sizes %v", be.sizes)
		case be.sizeErr != nil && !errors.Is(err, be.sizeErr):
			bad = fmt.Sprintf("returned %v, want %v", err, be.sizeErr)
		case be.sizeErr == nil && err != nil:
			bad = fmt.Sprintf("returned %v", err)
		case tw != w || th != h:
			bad = fmt.Sprintf("the terminal has size %dx%d", tw, th)
		}
		if bad != "" {
			c.violate("Resize: "+bad, bad+"\n"+strings.Join(hist, "\n"))
			return
		}
	}
}

// vfPTYSizes: the kernel's idea of the size, and data through a real pty.
func vfPTYSizes(c *vfCtx, r *vfRand) {
	p := &PTYBackend{}
	slave, err := p.Open()
	if err != nil {
		c.count("ptys that could not be opened", 1)
		return
	}
	defer slave.Close()
	var log []string
	var b Backend = p
	if r.p(50) {
		b = NewTeeBackend(p)
	}
	mode := vfPick(r, []TextReadMode{TextReadModeRune, TextReadModeGrapheme})
	term := NewWithMode(&vfLedgerFront{log: &log}, b, mode)
	t := term.(*terminal)
	w, h := 0, 0
	for i := 0; i < 12; i++ {
		w, h = r.in(1, 250), r.in(1, 120)
		if r.p(10) {
			w, h = r.in(1, 3), r.in(200, 500)
		}
		if err := term.Resize(w, h); err != nil {
			c.violate("Resize with a PTY backend failed", err.Error())
			return
		}
		rows, cols, err := pty.Getsize(slave)
		c.eval(true, vfMix(uint64(w)<<20|uint64(h)))
		c.count("pty sizes read back", 1)
		if err != nil || rows != h || cols != w {
			c.violate("the pty has another size", fmt.Sprintf("Resize(%d,%d): the slave has %d rows and %d columns (%v)", w, h, rows, cols, err))
			return
		}
	}
	for i := 0; i < 4; i++ {
		w, h = vfPick(r, []int{1, 255, 256, 257, 32767, 32768, 65535, r.in(1, 65535)}), vfPick(r, []int{1, 255, 256, 257, 32767, 32768, 65535, r.in(1, 65535)})
		err := p.SetSize(w, h)
		rows, cols, err2 := pty.Getsize(slave)
		c.eval(true, vfMix(uint64(w)<<20|uint64(h)|1<<50))
		if err != nil || err2 != nil || rows != h || cols != w {
			c.violate("the pty has another size", fmt.Sprintf("SetSize(%d,%d): the slave has %d rows and %d columns (%v %v)", w, h, rows, cols, err, err2))
			return
		}
	}
	w, h = 97, 20
	_ = term.Resize(w, h)
	text := []string{}
	in := "\x1b[?7h"
	for i := 0; i < 900; i++ {
		text = append(text, vfPick(r, vfLedgerChars))
	}
	in += strings.Join(text, "") + "\x1b]2;end\a"
	for b := []byte(in); len(b) > 0; {
		n, err := slave.Write(b[:vfMin(len(b), r.in(1, 600))])
		if err != nil {
			return
		}
		b = b[n:]
	}
	_ = slave.Close() // the master's reads fail once everything is read
	<-t.readLoopDone
	c.count("streams through a pty", 1)
	t.Lock()
	defer t.Unlock()
	for k, ch := range text {
		cells, err := vfRowCells(t.StyledLine(0, w, k/w), w, mode, nil)
		if err != nil {
			return
		}
		if cells[k%w].text != ch {
			c.violate("bytes written to the pty are not on the screen", fmt.Sprintf("character %d is %q, want %q", k, cells[k%w].text, ch))
			return
		}
	}
	if len(log) != 1 {
		c.violate("bytes written to the pty are not on the screen", fmt.Sprintf("events %q", log))
	}
}

// vfRawTTY switches a tty to raw mode; reads return what is there, after half a second at most.
func vfRawTTY(f *os.File) bool {
	var t syscall.Termios
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&t))); e != 0 {
		return false
	}
	t.Iflag, t.Oflag, t.Lflag = 0, 0, 0
	t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 0, 5
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), syscall.TCSETS, uintptr(unsafe.Pointer(&t)))
	return e == 0
}

// vfPTYWrite: what the application on the other side of a pty receives.
func vfPTYWrite(c *vfCtx, r *vfRand) {
	p := &PTYBackend{}
	slave, err := p.Open()
	if err != nil {
		c.count("ptys that could not be opened", 1)
		return
	}
	if !vfRawTTY(slave) {
		_ = slave.Close()
		return
	}
	var b Backend = p
	if r.p(50) {
		b = NewTeeBackend(p)
	}
	term := NewWithMode(&EmptyFrontend{}, b, TextReadModeRune)
	t := term.(*terminal)
	for i := 0; i < 6; i++ {
		msg := make([]byte, r.in(1, 3000))
		for k := range msg {
			msg[k] = byte(r.n(256))
		}
		n, err := term.Write(msg)
		var got []byte
		buf := make([]byte, 4096)
		for len(got) < n {
			k, rerr := slave.Read(buf)
			if k <= 0 || rerr != nil {
				break
			}
			got = append(got, buf[:k]...)
		}
		c.eval(true, vfHashStr(string(msg)))
		c.count("writes through a pty", 1)
		if err != nil || n != len(msg) || string(got) != string(msg) {
			c.violate("a write through the pty is not what the application reads", fmt.Sprintf("Write of %d bytes returned %d, %v; %d bytes arrived", len(msg), n, err, len(got)))
			break
		}
	}
	_ = slave.Close()
	<-t.readLoopDone
}

// vfPTYCommand: a command started on the pty sees the size that Resize was given.
func vfPTYCommand(c *vfCtx, r *vfRand) {
	p := &PTYBackend{}
	cmd := exec.Command("/bin/sh", "-c", "stty -echo; read x; stty size; read x; stty size")
	if err := p.StartCommand(cmd); err != nil {
		c.count("commands that could not be started", 1)
		return
	}
	var log []string
	term := NewWithMode(&vfLedgerFront{log: &log}, p, TextReadModeRune)
	t := term.(*terminal)
	w, h := r.in(20, 200), r.in(5, 60)
	err := term.Resize(w, h)
	n, werr := term.Write([]byte("\n\n"))
	<-t.readLoopDone
	werr2 := cmd.Wait()
	shown := ""
	t.WithLock(func() {
		for y := 0; y < h; y++ {
			shown += strings.TrimSpace(t.Line(y)) + "|"
		}
	})
	c.eval(true, vfMix(uint64(w)<<20|uint64(h)|1<<51))
	c.count("commands started on a pty", 1)
	if want := fmt.Sprintf("%d %d|%d %d|", h, w, h, w); err != nil || n != 2 || werr != nil || werr2 != nil || !strings.Contains(shown, want) {
		c.violate("a command on the pty sees another size", fmt.Sprintf("Resize(%d,%d) %v, Write %d %v, command %v, it says %q", w, h, err, n, werr, werr2, shown))
	}
}

func init() {
	vfChecks["C16"] = func(c *vfCtx) {
		nsys := 24
		c.cases(nsys+c.scale(72000, 1000000), func(i int, r *vfRand) {
			mode := vfBothModes(i)
			if i < nsys {
				// Every place an error can occur in a short stream, alone and with data, at
				// every small read size.
				items := append([]vfItem{vfWrapOn}, vfLedger(r, r.in(20, 60), 90)...)
				total := 0
				for _, it := range items {
					total += len(it.bytes)
				}
				if total > 400 {
					return
				}
				for size := 1; size <= 9; size++ {
					reads := (total + size - 1) / size
					for at := 0; at <= reads+1; at++ {
						for v := 0; v < 4; v++ {
							e, n := error(io.EOF), 0
							if v&1 != 0 {
								e = errVF
							}
							if v&2 != 0 {
								n = size
							}
							name := fmt.Sprintf("%d bytes each, %v with %d bytes at read %d", size, e, n, at)
							if !vfLedgerRun(c, r, mode, items, name, func(i int) vfFaultRead {
								if i == at {
									return vfFaultRead{n, e}
								}
								return vfFaultRead{size, nil}
							}, at%3 == 0, at%7 == 0) {
								return
							}
							c.count("enumerated fault positions", 1)
						}
					}
				}
				return
			}
			switch {
			case i%10 < 7:
				n := vfPick(r, []int{r.in(1, 300), r.in(300, 3000), r.in(4000, 4200), r.in(8100, 8300), r.in(3000, 30000)})
				long := r.n(6000) == 0
				if long {
					n = r.in(300000, 1200000)
				}
				items := append([]vfItem{vfWrapOn}, vfLedger(r, n, 9000)...)
				total := 0
				for _, it := range items {
					total += len(it.bytes)
				}
				name, script := vfRandScript(r, total)
				if long {
					size := r.in(100, 9000)
					name, script = fmt.Sprintf("%d bytes each", size), func(int) vfFaultRead { return vfFaultRead{size, nil} }
					c.count("streams of megabytes", 1)
				}
				if vfLedgerRun(c, r, mode, items, name, script, r.p(30), r.p(30)) {
					var sb strings.Builder
					for _, it := range items {
						sb.WriteString(it.bytes)
					}
					if sb.Len() < 300 && utf8.ValidString(sb.String()) {
						c.sample("%q with reads: %s", sb.String(), name)
					}
				}
			case i%10 < 9:
				vfWriteFaults(c, r, 40)
				vfSizes(c, r)
				vfTeeSwitch(c, r)
			default:
				switch r.n(12) {
				case 0:
					vfPTYCommand(c, r)
				case 1, 2, 3:
					vfPTYWrite(c, r)
				default:
					vfPTYSizes(c, r)
				}
			}
		})
	}
}
