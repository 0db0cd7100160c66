package termemu

import (
	"fmt"
	"strings"
)

// vfWork drives one terminal and the reference model through a history. Before every
// judged operation the model has been brought in line with what the terminal shows, so
// a difference afterwards is the doing of that operation.
type vfWork struct {
	c      *vfCtx
	s      *vfSess
	m      *vfModel
	steps  int
	next   func(step int) vfOp
	judged func(op vfOp) bool
	// compare returns how the outcome differs from the model; nil compares everything.
	compare func(op vfOp, pre, post vfSnap, m *vfModel) string
	// after runs after every operation, judged or not.
	after func(op vfOp, pre, post vfSnap) string
	hist  []vfOp
	split func(n int) []int // where to cut the reads of an operation
	broke bool
	// noise makes operations that ought to change nothing for the judged ones: modes, the
	// alternate buffer, keyboard flags, strings, unknown sequences.
	noise    *vfGen
	noisePct int
	queue    []vfOp
	// again is how often a few operations from before are repeated.
	again int
	since int // the operations from here on were made for this size
}

// addNoise puts k into a state that depends on more than the screen.
func (k *vfWork) addNoise(g *vfGen) {
	r := g.r
	k.noise = g
	k.again = vfPick(r, []int{0, 0, 3, 8})
	k.noisePct = vfPick(r, []int{0, 0, 5, 15})
	if r.p(45) {
		return
	}
	if r.p(60) {
		k.queue = append(k.queue, vfMode(1049, true))
	}
	if r.p(50) {
		k.queue = append(k.queue, g.keypad())
	}
	for n := r.n(4); n > 0; n-- {
		k.queue = append(k.queue, g.noiseOp())
	}
	k.steps += len(k.queue)
}

func (g *vfGen) noiseOp() vfOp {
	switch g.r.n(12) {
	case 0, 1, 2:
		return vfMode(vfPick(g.r, vfPrivateModes), g.r.p(70))
	case 3:
		return g.modes()
	case 4:
		return vfMode(1049, g.r.p(50))
	case 5:
		return g.keypad()
	case 6:
		return g.kbd()
	case 7:
		return g.osc()
	case 8:
		return g.dcs()
	case 9:
		return vfQuery(vfPick(g.r, vfQueries))
	case 10:
		return g.modifyOther()
	}
	return g.unknown()
}

func (m *vfModel) cloneModel() *vfModel {
	n := *m
	for i := range n.scr {
		n.scr[i].cells = m.scr[i].cells.clone()
		n.scr[i].kstack = append([]int(nil), m.scr[i].kstack...)
	}
	n.replies = append([]byte(nil), m.replies...)
	n.lost = append([][]vfCell(nil), m.lost...)
	return &n
}

func (k *vfWork) history() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "size %dx%d mode %d grid %v, %d operations:\n", k.m.w, k.m.h, k.s.mode, k.s.grid, len(k.hist))
	from := 0
	if len(k.hist) > 400 {
		from = len(k.hist) - 400
		fmt.Fprintf(&sb, "  (last 400 only)\n")
	}
	for _, op := range k.hist[from:] {
		fmt.Fprintf(&sb, "  %v\n", op)
	}
	return sb.String()
}

func (k *vfWork) fail(op vfOp, what, detail string) {
	k.broke = true
	k.c.violate(fmt.Sprintf("%s: %s", op.kind, what), fmt.Sprintf("after %v: %s\n%s\n%s", op, what, detail, k.history()))
}

func (sn *vfSnap) key() uint64 {
	return vfMix(sn.cells.hash() ^ uint64(sn.cur.X)<<1 ^ uint64(sn.cur.Y)<<12 ^ uint64(sn.top)<<22 ^ uint64(sn.bot)<<32 ^ uint64(sn.w)<<42 ^ uint64(sn.h)<<50)
}

func (k *vfWork) run() {
	pre, err := k.s.snap()
	if err != nil {
		k.fail(vfOp{kind: "start"}, "malformed screen", err.Error())
		return
	}
	step := 0
	var op vfOp
	var parts []string
	have := false
	settle := func() bool {
		post, err := k.s.snap()
		judged := k.judged == nil || k.judged(op)
		if err != nil {
			if judged {
				k.fail(op, "malformed screen: "+err.Error(), "")
			}
			return false // nothing can be said about what follows
		}
		var before *vfModel
		if judged && len(op.alts) > 0 {
			before = k.m.cloneModel()
		}
		if op.apply != nil {
			op.apply(k.m)
		}
		if judged {
			cmp := k.compare
			if cmp == nil {
				cmp = func(_ vfOp, _, post vfSnap, m *vfModel) string { return m.diff(post) }
			}
			d := cmp(op, pre, post, k.m)
			if d != "" && before != nil {
				for _, alt := range op.alts {
					m2 := before.cloneModel()
					alt(m2)
					if cmp(op, pre, post, m2) == "" {
						d = ""
						k.m = m2
						break
					}
				}
			}
			changed := pre.cur != post.cur || pre.style != post.style || k.m.scrolled || k.m.edge || vfDiffCells(pre.cells, post.cells) != ""
			k.c.eval(changed, vfMix(pre.key()^vfHashStr(op.bytes)^uint64(k.s.mode)))
			k.c.count("op "+op.kind, 1)
			if k.m.scrolled {
				k.c.count("judged operations that scrolled", 1)
			}
			if k.m.edge {
				k.c.count("judged operations at an edge", 1)
			}
			if k.m.inWide {
				k.c.count("writes starting inside a wide character", 1)
			}
			if d != "" {
				k.fail(op, d, fmt.Sprintf("before (cursor %d,%d margins %d-%d):\n%vafter (cursor %d,%d margins %d-%d):\n%vexpected (cursor %d,%d):\n%v",
					pre.cur.X, pre.cur.Y, pre.top, pre.bot, pre.cells, post.cur.X, post.cur.Y, post.top, post.bot, post.cells, k.m.s().cur.X, k.m.s().cur.Y, k.m.s().cells))
				return false
			}
		}
		if k.after != nil {
			if d := k.after(op, pre, post); d != "" {
				k.fail(op, d, "")
				return false
			}
		}
		k.m.sync(post)
		pre = post
		return true
	}
	err = k.s.run(func() ([]byte, bool) {
		if len(parts) > 0 {
			p := parts[0]
			parts = parts[1:]
			return []byte(p), true
		}
		if have {
			have = false
			if !settle() {
				return nil, false
			}
		}
		for step < k.steps {
			switch {
			case len(k.queue) > 0:
				op, k.queue = k.queue[0], k.queue[1:]
			case k.again > 0 && len(k.hist)-k.since > 3 && k.noise.r.p(k.again):
				i := k.noise.r.in(k.since, len(k.hist)-1)
				k.queue = append(k.queue, k.hist[i:vfMin(len(k.hist), i+k.noise.r.in(1, 4))]...)
				op, k.queue = k.queue[0], k.queue[1:]
				k.c.count("operations repeated", int64(1+len(k.queue)))
			case k.noisePct > 0 && k.noise.r.p(k.noisePct):
				op = k.noise.noiseOp()
			default:
				op = k.next(step)
			}
			step++
			k.c.progress.Add(1)
			k.hist = append(k.hist, op)
			if op.resize {
				k.since = len(k.hist)
				if !k.s.t.TryLock() {
					return nil, false // judged by C15
				}
				k.s.t.Unlock()
				_ = k.s.t.Resize(op.w, op.h)
				if !settle() {
					return nil, false
				}
				continue
			}
			have = true
			if k.split != nil {
				parts = vfCutSegs(op.bytes, k.split(len(op.bytes)))
				p := parts[0]
				parts = parts[1:]
				return []byte(p), true
			}
			return []byte(op.bytes), true
		}
		return nil, false
	})
	if err != nil {
		if k.judged == nil || k.judged(op) {
			k.fail(op, vfPanicSite(err), err.Error())
		}
		return
	}
	if len(k.c.res.Samples) < 3 && !k.broke {
		n := len(k.hist)
		if n > 12 {
			n = 12
		}
		var ops []string
		for _, o := range k.hist[:n] {
			ops = append(ops, o.String())
		}
		k.c.sample("case %d: %dx%d mode %d: %s ...", k.c.caseIdx, k.m.w, k.m.h, k.s.mode, strings.Join(ops, ", "))
	}
}

type vfChoice struct {
	weight int
	gen    func() vfOp
}

func vfMenu(r *vfRand, choices ...vfChoice) func(int) vfOp {
	total := 0
	for _, c := range choices {
		total += c.weight
	}
	return func(int) vfOp {
		n := r.n(total)
		for _, c := range choices {
			if n < c.weight {
				return c.gen()
			}
			n -= c.weight
		}
		panic("unreachable")
	}
}

func vfKinds(kinds ...string) func(vfOp) bool {
	set := map[string]bool{}
	for _, k := range kinds {
		set[k] = true
	}
	return func(op vfOp) bool { return set[op.kind] }
}

func (g *vfGen) wrapMode() vfOp { return vfMode(7, g.r.p(65)) }

// cupNear places the cursor, often near the right edge or the margins.
func (g *vfGen) cupNear(m *vfModel) vfOp {
	x, y := g.r.n(g.w), g.r.n(g.h)
	if g.r.p(35) {
		x = vfClamp(g.w-g.r.in(1, 3), 0, g.w-1)
	}
	if g.r.p(40) {
		y = vfClamp(vfPick(g.r, []int{m.s().top, m.s().bot, m.s().bot + 1, m.s().top - 1, g.h - 1, 0}), 0, g.h-1)
	}
	return vfCUP(x, y)
}

func vfBothModes(i int) TextReadMode {
	if i%2 == 0 {
		return TextReadModeRune
	}
	return TextReadModeGrapheme
}

var vfTextKinds = vfKinds("text", "text-zero")

func init() {
	vfChecks["C03"] = func(c *vfCtx) {
		c.cases(c.scale(500000, 6000000), func(i int, r *vfRand) {
			w, h, steps := c.session(r, 20, 55)
			mode := vfBothModes(i)
			g := newVFGen(r, mode, w, h)
			g.widePct = vfPick(r, []int{0, 15, 40, 70})
			g.zeroPct = 6
			k := &vfWork{c: c, s: newVFSess(w, h, mode, false), m: newVFModel(w, h, mode, false), steps: steps, judged: vfTextKinds}
			k.next = vfMenu(r,
				vfChoice{50, g.text}, vfChoice{18, func() vfOp { return g.cupNear(k.m) }}, vfChoice{6, g.wrapMode},
				vfChoice{6, g.sgr}, vfChoice{5, g.margins}, vfChoice{4, g.erase}, vfChoice{3, g.motion},
				vfChoice{2, g.scroll}, vfChoice{1, g.resize})
			k.addNoise(g)
			k.run()
		})
	}
	vfChecks["C05"] = func(c *vfCtx) {
		c.cases(c.scale(500000, 5000000), func(i int, r *vfRand) {
			w, h, steps := c.session(r, 20, 55)
			mode := vfBothModes(i)
			g := newVFGen(r, mode, w, h)
			g.widePct = vfPick(r, []int{0, 20, 60})
			k := &vfWork{c: c, s: newVFSess(w, h, mode, false), m: newVFModel(w, h, mode, false), steps: steps, judged: vfKinds("ED", "EL", "ECH", "DCH")}
			k.next = vfMenu(r,
				vfChoice{34, g.erase}, vfChoice{26, g.text}, vfChoice{16, func() vfOp { return g.cupNear(k.m) }},
				vfChoice{3, g.wrapMode}, vfChoice{8, g.sgr}, vfChoice{2, g.margins}, vfChoice{4, g.motion},
				vfChoice{2, g.scroll}, vfChoice{1, g.resize})
			k.addNoise(g)
			k.run()
		})
	}
	vfChecks["C06"] = func(c *vfCtx) {
		judged := vfKinds("SU", "SD", "IL", "DL", "DECSTBM", "LF", "FF", "IND", "RI", "text")
		c.cases(c.scale(500000, 5000000), func(i int, r *vfRand) {
			w, h, steps := c.session(r, 20, 55)
			if r.p(50) {
				h = r.in(3, 9)
			}
			mode := vfBothModes(i)
			g := newVFGen(r, mode, w, h)
			k := &vfWork{c: c, s: newVFSess(w, h, mode, false), m: newVFModel(w, h, mode, false), steps: steps}
			k.judged = judged
			k.compare = func(op vfOp, pre, post vfSnap, m *vfModel) string {
				if op.kind == "text" && !m.scrolled {
					return "" // plain writing belongs to C03
				}
				return m.diff(post)
			}
			k.next = vfMenu(r,
				vfChoice{30, g.scroll}, vfChoice{12, g.margins}, vfChoice{16, func() vfOp { return g.cupNear(k.m) }},
				vfChoice{14, func() vfOp {
					return vfMotion(vfPick(r, []string{"LF", "FF", "IND", "RI", "RI"}), "", 1)
				}},
				vfChoice{20, g.text}, vfChoice{4, g.wrapMode}, vfChoice{8, g.sgr}, vfChoice{3, g.erase}, vfChoice{2, g.resize})
			k.addNoise(g)
			k.run()
		})
	}
}
