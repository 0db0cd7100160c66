package termemu

import (
	"fmt"
	"io"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// C15: lock discipline and concurrent use. This file runs in a build with the race
// detector; the driver counts its reports.

// vfTeeSink counts what it is given.
type vfTeeSink struct{ n int }

func (w *vfTeeSink) Write(p []byte) (int, error) { w.n += len(p); return len(p), nil }

// vfConcOp makes operations that the loop has to treat as one update each.
func vfConcOp(g *vfGen, r *vfRand) vfOp {
	switch r.n(20) {
	case 0, 1, 2, 3:
		return g.text()
	case 4, 5:
		return vfMode(1049, r.p(50))
	case 6:
		return vfMotion(vfPick(r, []string{"LF", "IND", "RI", "FF", "CR", "BS", "HT"}), "", 1)
	case 7:
		return vfModeList(g.modeNumbers(), r.p(50))
	}
	return g.anyOp()
}

// vfOneUpdate reports whether the bytes are a single control function.
func vfOneUpdate(b string) bool {
	if len(b) == 1 {
		return b[0] < 0x20 && b[0] != 0x1b
	}
	if len(b) < 2 || b[0] != 0x1b {
		return false
	}
	switch b[1] {
	case '[':
		for i := 2; i < len(b); i++ {
			if b[i] >= 0x40 && b[i] <= 0x7e {
				return i == len(b)-1
			}
			if b[i] < 0x20 || b[i] > 0x7e {
				return false
			}
		}
		return false
	case 'D', 'M', '7', '8', '=', '>':
		return len(b) == 2
	case ']':
		body := strings.TrimSuffix(strings.TrimSuffix(b[2:], "\a"), "\x1b\\")
		return len(body) < len(b)-2 && !strings.ContainsAny(body, "\x1b\a")
	}
	return false
}

// vfBoundaries drives one terminal; at every read boundary the lock must be free and the
// API must work from another goroutine, and in every callback the lock must be held.
func vfBoundaries(c *vfCtx, r *vfRand, mode TextReadMode) {
	w, h := vfSize(r)
	g := newVFGen(r, mode, w, h)
	fe := newVFFront()
	be := &vfBackend{}
	tee := NewTeeBackend(be)
	sink := &vfTeeSink{}
	tee.SetTee(sink)
	t := newTerminal(fe, tee, mode)
	fe.t = t
	s := &vfSess{t: t, fe: fe, be: be, mode: mode}
	hist := []string{fmt.Sprintf("size %dx%d mode %d", w, h, mode)}
	failed := false
	fail := func(what, detail string) {
		if !failed {
			failed = true
			c.violate(what, what+"\n"+detail+"\n"+vfHistory(hist))
		}
	}
	// Accessors inside callbacks.
	n := 0
	fe.onAny = func(k vfEvKind) {
		if n++; n%3 != 0 {
			return
		}
		w, h := t.Size()
		for y := 0; y < h; y += 1 + n%2 {
			_ = t.Line(y)
			_ = t.ANSILine(y)
			if _, err := vfRowCells(t.StyledLine(0, w, y), w, mode, nil); err != nil {
				fail(fmt.Sprintf("inside callback %d row %d is not well-formed: %v", k, y, err), "")
			}
		}
		_ = t.StyledLines(Region{0, 0, w, h})
	}
	_ = t.Resize(w, h)
	// call runs f as another goroutine would while the loop waits for input.
	call := func(name string, f func()) {
		done := make(chan error, 1)
		go func() {
			var e error
			func() {
				defer vfRecover(&e)
				f()
			}()
			done <- e
		}()
		if e := <-done; e != nil {
			fail(name+": "+vfPanicSite(e), e.Error())
		}
		c.count("calls at read boundaries", 1)
	}
	var pend string
	inSeq := false
	key := uint64(0)
	steps := r.in(10, 40)
	err := s.run(func() ([]byte, bool) {
		c.progress.Add(1)
		if !t.TryLock() {
			fail("the loop holds the lock while it waits for input", fmt.Sprintf("still to come: %q", pend))
			return nil, false
		}
		t.Unlock()
		c.count("read boundaries with the lock free", 1)
		if pend != "" && inSeq {
			c.count("read boundaries inside a sequence or character", 1)
		}
		if r.p(25) {
			switch r.n(10) {
			case 0, 1:
				w, h = vfSize(r)
				g.w, g.h = w, h
				hist = append(hist, fmt.Sprintf("Resize(%d,%d)", w, h))
				call("Resize", func() { _ = t.Resize(w, h) })
			case 2:
				ev := KeyEvent{Code: KeyRune, Rune: 'a', Mod: KeyMod(r.n(8))}
				if r.p(50) {
					ev = KeyEvent{Code: vfPick(r, []KeyCode{KeyUp, KeyF3, KeyEnter, KeyKPBegin}), Event: KeyEventType(r.n(4))}
				}
				call("SendKey", func() { _, _ = t.SendKey(ev) })
			case 3:
				call("SendMouseRaw", func() { _ = t.SendMouseRaw(MouseBtn(r.n(3)), true, 0, r.in(1, 20), r.in(1, 20)) })
			case 4:
				call("Write", func() { _, _ = t.Write([]byte("x")) })
			case 5:
				call("SetTee", func() { tee.SetTee(vfPick(r, []io.Writer{nil, sink})) })
			case 6:
				call("SetFrontend", func() { t.SetFrontend(fe) })
			default:
				var bad string
				call("accessors", func() {
					t.WithLock(func() { vfAccessors(s, r) })
					if fe.cursorN > 0 {
						bad, _ = vfWellFormed(s, w, h)
					}
				})
				if bad != "" {
					fail(bad, "")
				}
			}
		}
		if failed {
			return nil, false
		}
		if pend == "" {
			if steps--; steps < 0 {
				return nil, false
			}
			op := vfConcOp(g, r)
			pend = op.bytes
			inSeq = false
			hist = append(hist, op.String())
			key = vfMix(key ^ vfHashStr(pend))
		}
		k := len(pend)
		if k > 1 && r.p(80) {
			k = r.in(1, vfMin(k-1, 3))
		}
		b := pend[:k]
		pend = pend[k:]
		inSeq = pend != ""
		c.eval(true, vfMix(key^uint64(len(pend))))
		return []byte(b), true
	})
	if fe.unlocked > 0 {
		fail(fmt.Sprintf("%s ran without the terminal lock", fe.lastBad), fmt.Sprintf("%d of %d callbacks", fe.unlocked, fe.events))
	}
	c.count("callbacks seen with the lock held", fe.events)
	if err != nil {
		fail(vfPanicSite(err), err.Error())
	}
}

// vfBlockedWrite has an application that takes no input until more of its output has been
// shown: a call that is stuck in the backend's Write must not keep the loop or readers waiting.
func vfBlockedWrite(c *vfCtx, r *vfRand, mode TextReadMode) {
	w, h := vfSize(r)
	g := newVFGen(r, mode, w, h)
	s := newVFSess(w, h, mode, false)
	t := s.t
	hist := []string{fmt.Sprintf("size %dx%d mode %d", w, h, mode)}
	failed := false
	fail := func(what, detail string) {
		if !failed {
			failed = true
			c.violate(what, what+"\n"+detail+"\n"+vfHistory(hist))
		}
	}
	entered, release := make(chan struct{}, 1), make(chan struct{})
	var armed atomic.Bool // the first write of a call waits
	s.be.onWrite = func() {
		if armed.CompareAndSwap(true, false) {
			entered <- struct{}{}
			<-release
		}
	}
	var done chan error // of the call in progress
	stuck := 0
	name := ""
	finish := func() {
		if done == nil {
			return
		}
		close(release)
		if e := <-done; e != nil {
			fail(name+": "+vfPanicSite(e), e.Error())
		}
		release = make(chan struct{})
		done = nil
		c.count("calls that finished after input was interpreted while they waited", 1)
	}
	key := uint64(0)
	steps := r.in(6, 25)
	pend := vfPick(r, []string{"", "\x1b[?1003h\x1b[?1006h", "\x1b[?1000h\x1b[>9u", "\x1b[?1002;1005h\x1b[=31u"})
	err := s.run(func() ([]byte, bool) {
		c.progress.Add(1)
		if pend == "" {
			if done != nil {
				if stuck--; stuck <= 0 {
					finish()
				}
			} else if r.p(60) {
				f := func() error { _, err := t.Write([]byte("input")); return err }
				switch name = "Write"; r.n(5) {
				case 0, 1:
					name = "SendKey"
					ev := KeyEvent{Code: vfPick(r, []KeyCode{KeyUp, KeyF3, KeyEnter, KeyKPBegin}), Mod: KeyMod(r.n(8))}
					f = func() error { _, err := t.SendKey(ev); return err }
				case 2, 3:
					name = "SendMouseRaw"
					x, y := r.in(1, 20), r.in(1, 20)
					f = func() error { return t.SendMouseRaw(MBtn1, true, 0, x, y) }
				}
				d := make(chan error, 1)
				armed.Store(true)
				go func() {
					var e error
					func() {
						defer vfRecover(&e)
						e = f()
					}()
					d <- e
				}()
				select {
				case <-entered:
					done, stuck = d, r.in(1, 5)
					hist = append(hist, name+" waits in the backend")
					if !t.TryLock() {
						fail(name+" holds the lock while the backend does not take the bytes", "the loop could not go on")
						close(release)
						return nil, false
					}
					t.Unlock()
					c.count("calls stuck in the backend with the lock free", 1)
				case e := <-d: // nothing to write in this mode
					armed.Store(false)
					if e != nil {
						fail(name+": "+vfPanicSite(e), e.Error())
					}
				}
			}
			if steps--; steps < 0 || failed {
				finish()
				return nil, false
			}
			var op vfOp
			switch r.n(5) {
			case 0:
				op = g.text()
			case 1:
				op = g.erase()
			case 2:
				op = g.motion()
			case 3:
				op = g.sgr()
			default:
				op = g.scroll()
			}
			pend = op.bytes
			hist = append(hist, op.String())
			key = vfMix(key ^ vfHashStr(pend))
		} else if done != nil {
			// Readers are not kept waiting either.
			t.WithLock(func() { vfAccessors(s, r) })
		}
		k := len(pend)
		if k > 1 && r.p(50) {
			k = r.in(1, k-1)
		}
		b := pend[:k]
		pend = pend[k:]
		c.eval(done != nil, vfMix(key^uint64(len(pend))))
		return []byte(b), true
	})
	if err != nil {
		fail(vfPanicSite(err), err.Error())
	}
}

// vfGaps looks into every gap between two critical sections of the loop. Enough readers
// queue on the lock to keep the mutex in its first-come-first-served mode, so that each
// of them runs whenever the loop lets go of it.
func vfGaps(c *vfCtx, r *vfRand, mode TextReadMode) {
	w, h := r.in(2, 8), r.in(2, 4)
	g := newVFGen(r, mode, w, h)
	var ops []vfOp
	for i, n := 0, r.in(8, 24); i < n; i++ {
		ops = append(ops, vfConcOp(g, r))
	}
	// The states between operations, from a run with nobody else around.
	ref := newVFSess(w, h, mode, false)
	lost := vfObserve(ref)
	var states []vfState
	k := 0
	err := ref.run(func() ([]byte, bool) {
		st, err := ref.stateNoReplies(lost)
		if err != nil {
			return nil, false
		}
		states = append(states, st)
		if k >= len(ops) {
			return nil, false
		}
		k++
		return []byte(ops[k-1].bytes), true
	})
	if err != nil || len(states) != len(ops)+1 {
		return // C01, C02
	}
	s := newVFSess(w, h, mode, false)
	lost2 := vfObserve(s)
	var delivered atomic.Int64
	var stop atomic.Bool
	var mu sync.Mutex
	var bad []string
	var seen, between, strict int64
	keys := map[uint64]struct{}{}
	resizing := r.p(20)
	var wg sync.WaitGroup
	start := make(chan struct{})
	reader := func() {
		defer wg.Done()
		var my, myStrict, myBetween int64
		var myKeys []uint64
		<-start
		for !stop.Load() {
			s.t.Lock()
			k := delivered.Load()
			st, err := s.stateNoReplies(lost2)
			what := ""
			switch {
			case err != nil:
				what = err.Error()
			case resizing:
				if st.main.w != st.alt.w || st.main.h != st.alt.h {
					what = fmt.Sprintf("the buffers are %dx%d and %dx%d", st.main.w, st.main.h, st.alt.w, st.alt.h)
				}
			case st.diff(&states[k]) == "":
				myStrict++
			case k > 0 && st.diff(&states[k-1]) == "":
				myStrict++
				myBetween++
			case k > 0 && !vfOneUpdate(ops[k-1].bytes):
			default:
				what = fmt.Sprintf("neither the state before %v nor the one after it: %s", ops[vfMax(int(k), 1)-1], st.diff(&states[k]))
			}
			my++
			myKeys = append(myKeys, vfMix(st.key()^uint64(k)))
			time.Sleep(150 * time.Microsecond)
			s.t.Unlock()
			if what != "" {
				mu.Lock()
				bad = append(bad, what)
				mu.Unlock()
				break
			}
		}
		mu.Lock()
		seen += my
		strict += myStrict
		between += myBetween
		for _, k := range myKeys {
			keys[k] = struct{}{}
		}
		mu.Unlock()
	}
	const readers = 6
	for i := 0; i < readers; i++ {
		wg.Add(1)
		go reader()
	}
	if resizing {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rr := vfSeed(r.u64())
			<-start
			for !stop.Load() {
				_ = s.t.Resize(rr.in(1, 9), rr.in(1, 5))
			}
		}()
	}
	close(start)
	loopErr := s.run(func() ([]byte, bool) {
		c.progress.Add(1)
		k := int(delivered.Load())
		if k >= len(ops) {
			return nil, false
		}
		delivered.Add(1)
		return []byte(ops[k].bytes), true
	})
	stop.Store(true)
	wg.Wait()
	c.count("snapshots by concurrent readers", seen)
	c.count("snapshots equal to a state between two updates", strict)
	c.count("snapshots while an update was pending", between)
	if resizing {
		c.count("gap runs with concurrent Resize", 1)
	}
	for k := range keys {
		c.eval(true, k)
	}
	var hist []string
	for _, op := range ops {
		hist = append(hist, op.String())
	}
	if loopErr != nil {
		bad = append(bad, vfPanicSite(loopErr)+"\n"+loopErr.Error())
	}
	if s.fe.unlocked > 0 {
		bad = append(bad, s.fe.lastBad+" ran without the terminal lock")
	}
	if len(bad) > 0 {
		c.violate("a reader holding the lock saw: "+strings.SplitN(bad[0], "\n", 2)[0], fmt.Sprintf("%s\nsize %dx%d mode %d\n%s", bad[0], w, h, mode, strings.Join(hist, "\n")))
	}
}

// vfStressBackend is deliberately unsynchronised: one reader at a time and one writer at a
// time is all that the terminal may do to it.
type vfStressBackend struct {
	chunks   [][]byte
	i        int
	r        *vfRand
	gate     chan struct{}
	out      []byte
	w, h     int
	progress func()
}

func (b *vfStressBackend) Read(p []byte) (int, error) {
	<-b.gate
	b.progress()
	if b.i >= len(b.chunks) {
		return 0, io.EOF
	}
	switch b.r.n(6) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(b.r.n(120)) * time.Microsecond)
	}
	n := copy(p, b.chunks[b.i])
	if b.chunks[b.i] = b.chunks[b.i][n:]; len(b.chunks[b.i]) == 0 {
		b.i++
	}
	return n, nil
}

func (b *vfStressBackend) Write(p []byte) (int, error) {
	b.out = append(b.out, p...)
	return len(p), nil
}

func (b *vfStressBackend) SetSize(w, h int) error { b.w, b.h = w, h; return nil }

// vfMessages matches what the workers of a stress run and the terminal itself send: marks,
// X10 and UTF-8 mouse reports, escape codes, and keys.
var vfMessages = regexp.MustCompile(`^(?s:\{w\d+\.\d+\}|\x1b\[M...|\x1b\[[<>?]?[0-9:;]*[A-LN-Za-z~]|\x1b\[[<>?]?[0-9:;]+M|\x1bO[A-Za-z]|\x1b?[qQ5\x11\x1d\r\n\x1b])*`)

func init() { vfMessages.Longest() }

// vfStress lets everything run against everything.
func vfStress(c *vfCtx, r *vfRand, mode TextReadMode) {
	procs := vfPick(r, []int{2, 3, 4, 8})
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	w, h := vfSize(r)
	g := newVFGen(r, mode, w, h)
	be := &vfStressBackend{r: vfSeed(r.u64()), gate: make(chan struct{}), w: w, h: h, progress: func() { c.progress.Add(1) }}
	total := 0
	key := uint64(0)
	for i, n := 0, r.in(60, 240); i < n; i++ {
		b := []byte(g.anyOp().bytes)
		if r.p(10) {
			b = []byte(g.hostile().bytes)
		}
		if len(b) == 0 {
			continue
		}
		total += len(b)
		key = vfMix(key ^ vfHashStr(string(b)))
		for len(b) > 0 {
			k := r.in(1, len(b))
			be.chunks = append(be.chunks, b[:k])
			b = b[k:]
		}
	}
	fe := newVFFront()
	fe.logging = false
	var events atomic.Int64
	slow := vfSeed(r.u64())
	var inCallback string
	var tty *TTYFrontend
	ttyOut := &vfTeeSink{}
	useTTY := r.p(40)
	tee := NewTeeBackend(be)
	var front Frontend = fe
	if useTTY {
		tty = NewTTYFrontend(nil, ttyOut)
		front = vfBoth{fe, tty}
	}
	term := NewWithMode(front, tee, mode)
	t := term.(*terminal)
	fe.t = t
	if useTTY {
		tty.SetTerminal(term)
	}
	fe.onAny = func(k vfEvKind) {
		events.Add(1)
		switch slow.n(12) {
		case 0:
			runtime.Gosched()
		case 1:
			w, h := t.Size()
			_ = t.Line(slow.n(h))
			if _, err := vfRowCells(t.StyledLine(0, w, slow.n(h)), w, mode, nil); err != nil && inCallback == "" {
				inCallback = err.Error()
			}
		case 2:
			if slow.p(20) {
				time.Sleep(time.Duration(slow.n(300)) * time.Microsecond)
			}
		}
	}
	_ = term.Resize(w, h)
	var stop atomic.Bool
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad string
	ops := map[string]int64{}
	var sent []string
	worker := func(name string, f func(r *vfRand, n int) string) {
		wg.Add(1)
		rr := vfSeed(r.u64())
		go func() {
			defer wg.Done()
			n := 0
			var e error
			func() {
				defer vfRecover(&e)
				for !stop.Load() && n < 400 {
					if m := f(rr, n); m != "" {
						mu.Lock()
						if bad == "" {
							bad = name + ": " + m
						}
						mu.Unlock()
						return
					}
					n++
					if rr.p(30) {
						time.Sleep(time.Duration(rr.n(80)) * time.Microsecond)
					} else {
						runtime.Gosched()
					}
				}
			}()
			mu.Lock()
			ops[name] += int64(n)
			if e != nil && bad == "" {
				bad = name + ": " + e.Error()
			}
			mu.Unlock()
		}()
	}
	rs := &vfSess{t: t, fe: newVFFront(), be: &vfBackend{}, mode: mode}
	for i := 0; i < 2; i++ {
		worker("readers", func(r *vfRand, n int) (bad string) {
			var kept []Line // what an accessor returned stays as it was
			var shown string
			term.WithLock(func() {
				w, h := term.Size()
				switch r.n(4) {
				case 0:
					bad, _ = vfWellFormed(rs, w, h)
					return
				case 1:
					if kept = term.StyledLines(Region{0, 0, w, h}); r.p(30) {
						kept = append(kept, term.StyledLine(r.n(w), r.in(1, w), r.n(h)))
					}
					shown = fmt.Sprint(kept)
				case 2:
					for f := ViewFlag(0); f < viewFlagCount; f++ {
						_ = t.GetViewFlag(f)
					}
					for f := ViewInt(0); f < viewIntCount; f++ {
						_ = t.GetViewInt(f)
					}
					_ = t.GetViewString(VSWindowTitle)
				}
				y := r.n(h)
				_, _ = term.Line(y), term.ANSILine(y)
				if _, err := vfRowCells(term.StyledLine(0, w, y), w, mode, nil); err != nil {
					bad = err.Error()
				}
			})
			if kept != nil {
				runtime.Gosched()
				if now := fmt.Sprint(kept); now != shown && bad == "" {
					bad = fmt.Sprintf("lines read under the lock changed after it was released: %s, then %s", shown, now)
				}
			}
			return
		})
	}
	for i := 0; i < 2; i++ {
		id := i
		worker("writers", func(r *vfRand, n int) string {
			m := fmt.Sprintf("{w%d.%d}", id, n)
			mu.Lock()
			sent = append(sent, m)
			mu.Unlock()
			if k, err := term.Write([]byte(m)); k != len(m) || err != nil {
				return fmt.Sprintf("Write returned %d, %v", k, err)
			}
			return ""
		})
	}
	for range 2 {
		worker("keys", func(r *vfRand, n int) string {
			_, err := term.SendKey(KeyEvent{Code: vfPick(r, []KeyCode{KeyUp, KeyHome, KeyF1, KeyEscape, KeyEnter, KeyKPBegin, KeyLeftShift}), Mod: KeyMod(r.n(16)), Event: KeyEventType(r.n(4))})
			if err != nil {
				return err.Error()
			}
			_, _ = term.SendKey(KeyEvent{Code: KeyRune, Rune: 'q', Mod: KeyMod(r.n(8))})
			return ""
		})
		worker("mouse", func(r *vfRand, n int) string {
			if err := t.SendMouseRaw(MouseBtn(r.n(3)), r.p(50), MouseFlag(r.n(4)*4), r.in(1, 90), r.in(1, 90)); err != nil {
				return err.Error()
			}
			return ""
		})
	}
	if r.p(80) {
		for i := r.in(1, 2); i > 0; i-- {
			worker("resizers", func(r *vfRand, n int) string {
				w, h := vfSize(r)
				if err := term.Resize(w, h); err != nil {
					return err.Error()
				}
				return ""
			})
		}
	}
	sinks := []io.Writer{nil, &vfTeeSink{}, &vfTeeSink{}}
	worker("tees", func(r *vfRand, n int) string { tee.SetTee(vfPick(r, sinks)); return "" })
	if r.p(30) {
		worker("frontends", func(r *vfRand, n int) string {
			if r.p(50) {
				term.SetFrontend(front)
			} else {
				term.SetFrontend(&EmptyFrontend{})
			}
			return ""
		})
	}
	if useTTY {
		same := struct{ Terminal }{term} // the same terminal behind another value
		ttyWork := func(r *vfRand, n int) string {
			switch r.n(6) {
			case 5:
				tty.SetTerminal(same)
			case 0, 1:
				tty.Attach(Region{X: r.n(3), Y: r.n(3), X2: r.in(2, 20), Y2: r.in(2, 20)})
			case 2:
				tty.Detach()
			case 3:
				tty.SetFocus(r.p(50))
			case 4:
				tty.SetTerminal(term)
			}
			return ""
		}
		worker("tty", ttyWork)
		if r.p(50) {
			worker("tty 2", ttyWork)
		}
	}
	var other *vfCompanion
	if r.p(50) {
		other = vfNewCompanion(c, r)
		worker("calls on another terminal", other.work)
		close(other.be.gate)
	}
	close(be.gate)
	<-t.readLoopDone
	if other != nil {
		<-other.t.readLoopDone
	}
	stop.Store(true)
	wg.Wait()
	var final string
	term.WithLock(func() {
		w, h := term.Size()
		final, _ = vfWellFormed(rs, w, h)
		if final == "" && (be.w != w || be.h != h) {
			final = fmt.Sprintf("the screen is %dx%d, the backend was told %dx%d", w, h, be.w, be.h)
		}
		if final == "" {
			final = inCallback
		}
	})
	if other != nil && final == "" {
		final = other.verify()
		c.count("stress runs next to another busy terminal", 1)
	}
	c.count("stress runs", 1)
	for k, n := range ops {
		c.count("concurrent calls: "+k, n)
	}
	c.count("callbacks seen with the lock held", events.Load())
	if useTTY {
		c.count("stress runs with a TTYFrontend", 1)
	}
	c.eval(true, vfMix(key^uint64(events.Load())))
	if fe.unlocked > 0 {
		final = fe.lastBad + " ran without the terminal lock"
	}
	if final == "" {
		final = bad
	}
	if final == "" {
		out := string(be.out)
		for _, m := range sent {
			if n := strings.Count(out, m); n != 1 {
				final = fmt.Sprintf("%q arrived %d times", m, n)
				break
			}
		}
		// Messages of different calls do not mix.
		if k := len(vfMessages.FindString(out)); final == "" && k != len(out) {
			final = fmt.Sprintf("after %d bytes what the application gets is no sequence of whole messages: %q", k, out[k:vfMin(len(out), k+60)])
		}
		c.count("bytes of concurrent output split into messages", int64(len(out)))
	}
	if final != "" {
		c.violate("concurrent use: "+strings.SplitN(final, "\n", 2)[0], final)
	}
}

// vfCompanion is an independent terminal that runs at the same time: nothing is shared, so
// the two do not affect each other.
type vfCompanion struct {
	be   *vfStressBackend
	t    *terminal
	s    *vfSess
	in   string
	n    int
	mode TextReadMode
	w, h int
	tty  *TTYFrontend
}

func vfNewCompanion(c *vfCtx, r *vfRand) *vfCompanion {
	o := &vfCompanion{mode: TextReadModeRune}
	if r.p(30) {
		o.mode = TextReadModeGrapheme
	}
	o.w, o.h = vfSize(r)
	g := newVFGen(r, o.mode, o.w, o.h)
	o.be = &vfStressBackend{r: vfSeed(r.u64()), gate: make(chan struct{}), progress: func() { c.progress.Add(1) }}
	for i, n := 0, r.in(60, 240); i < n; i++ {
		op := g.anyOp()
		if op.resize {
			continue
		}
		b := op.bytes
		o.in += b
		for len(b) > 0 {
			k := r.in(1, len(b))
			o.be.chunks = append(o.be.chunks, []byte(b[:k]))
			b = b[k:]
		}
	}
	fe := newVFFront()
	fe.logging = false
	if r.p(50) {
		o.tty = NewTTYFrontend(nil, &vfTeeSink{})
		o.t = NewWithMode(vfBoth{fe, o.tty}, o.be, o.mode).(*terminal)
		o.tty.SetTerminal(o.t)
		o.tty.Attach(Region{0, 0, o.w, o.h})
	} else {
		o.t = NewWithMode(fe, o.be, o.mode).(*terminal)
	}
	fe.t = o.t
	_ = o.t.Resize(o.w, o.h)
	o.s = &vfSess{t: o.t, fe: newVFFront(), be: &vfBackend{}, mode: o.mode}
	return o
}

func (o *vfCompanion) work(r *vfRand, n int) (bad string) {
	if o.tty != nil && r.p(20) {
		o.tty.Attach(Region{r.n(2), r.n(2), o.w, o.h})
	}
	switch r.n(5) {
	case 0:
		_, err := o.t.SendKey(KeyEvent{Code: vfPick(r, []KeyCode{KeyUp, KeyHome, KeyF1, KeyEscape, KeyEnter, KeyKPBegin, KeyLeftShift}), Mod: KeyMod(r.n(16)), Event: KeyEventType(r.n(4))})
		if err != nil {
			return err.Error()
		}
	case 1:
		if err := o.t.SendMouseRaw(MouseBtn(r.n(3)), r.p(50), MouseFlag(r.n(4)*4), r.in(1, 90), r.in(1, 90)); err != nil {
			return err.Error()
		}
	case 2:
		_, _ = o.t.Write([]byte{'<', 'x', '>'})
		o.n++
	default:
		o.t.WithLock(func() {
			w, h := o.t.Size()
			if r.p(50) {
				bad, _ = vfWellFormed(o.s, w, h)
			} else {
				_, _ = o.t.ANSILine(r.n(h)), o.t.StyledLines(Region{0, 0, w, h})
			}
		})
	}
	return
}

func (o *vfCompanion) verify() string {
	if n := strings.Count(string(o.be.out), "<x>"); n != o.n {
		return fmt.Sprintf("another terminal's backend received %d of %d writes", n, o.n)
	}
	if o.mode != TextReadModeRune {
		return "" // the reads may have cut clusters
	}
	alone := newVFSess(o.w, o.h, o.mode, false)
	if err := alone.feedWhole(o.in); err != nil {
		return ""
	}
	a, b, err := alone.snapBoth()
	m, n, err2 := o.s.snapBoth()
	if err != nil || err2 != nil {
		return ""
	}
	if d := vfDiffSnap("main", m, a); d != "" {
		return "what another terminal shows is not what its input makes: " + d
	}
	if d := vfDiffSnap("alternate", n, b); d != "" {
		return "what another terminal shows is not what its input makes: " + d
	}
	return ""
}

// vfBoth is a frontend made of two.
type vfBoth struct{ a, b Frontend }

func (f vfBoth) Bell() { f.a.Bell(); f.b.Bell() }
func (f vfBoth) RegionChanged(r Region, c ChangeReason) {
	f.a.RegionChanged(r, c)
	f.b.RegionChanged(r, c)
}
func (f vfBoth) ScrollLines(y int)    { f.a.ScrollLines(y); f.b.ScrollLines(y) }
func (f vfBoth) CursorMoved(x, y int) { f.a.CursorMoved(x, y); f.b.CursorMoved(x, y) }
func (f vfBoth) StyleChanged(s Style) { f.a.StyleChanged(s); f.b.StyleChanged(s) }
func (f vfBoth) ViewFlagChanged(v ViewFlag, x bool) {
	f.a.ViewFlagChanged(v, x)
	f.b.ViewFlagChanged(v, x)
}
func (f vfBoth) ViewIntChanged(v ViewInt, x int) { f.a.ViewIntChanged(v, x); f.b.ViewIntChanged(v, x) }
func (f vfBoth) ViewStringChanged(v ViewString, x string) {
	f.a.ViewStringChanged(v, x)
	f.b.ViewStringChanged(v, x)
}

func init() {
	vfChecks["C15"] = func(c *vfCtx) {
		c.cases(c.scale(4000, 60000), func(i int, r *vfRand) {
			mode := vfBothModes(i)
			switch i / 2 % 4 {
			case 0, 1:
				for k := 0; k < 3; k++ {
					vfBoundaries(c, r, mode)
				}
			case 2:
				vfGaps(c, r, mode)
				vfBlockedWrite(c, r, mode)
			default:
				vfStress(c, r, mode)
			}
		})
	}
}
