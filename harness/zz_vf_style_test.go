package termemu

import (
	"fmt"
	"strconv"
	"strings"
)

// C07: attributes. Every cell the model and the terminal agree on in text must carry the
// style of the model; the rendition and the notified style are the SGR fold.

func vfDiffStyles(got, want vfGrid) string {
	if len(got) != len(want) {
		return ""
	}
	for y := range got {
		for x := 0; x < len(got[y]) && x < len(want[y]); x++ {
			a, b := got[y][x], want[y][x]
			if a.text == b.text && a.w == b.w && a.st != b.st {
				return fmt.Sprintf("cell (%d,%d) %q has style %v, want %v", x, y, a.text, a.st, b.st)
			}
		}
	}
	return ""
}

func vfStyleCompare(k *vfWork) func(op vfOp, pre, post vfSnap, m *vfModel) string {
	return func(op vfOp, pre, post vfSnap, m *vfModel) string {
		if post.style != m.style {
			return fmt.Sprintf("rendition is %v, want %v", post.style, m.style)
		}
		if (k.s.fe.styleN > 0 || op.kind == "SGR") && vfDecodeStyle(k.s.fe.style) != m.style {
			return fmt.Sprintf("the frontend was told %v, want %v", vfDecodeStyle(k.s.fe.style), m.style)
		}
		if op.kind == "mode" {
			return ""
		}
		return vfDiffStyles(post.cells, m.s().cells)
	}
}

// vfSGRLists are parameter lists every one of which is tried from several renditions.
func vfSGRLists() [][]int {
	var out [][]int
	for p := 0; p <= 120; p++ {
		if p == 38 || p == 48 || p == 58 {
			continue
		}
		out = append(out, []int{p})
	}
	for _, l := range []int{38, 48} {
		out = append(out, []int{l}, []int{l, 5}, []int{l, 2}, []int{l, 2, 1}, []int{l, 2, 1, 7}, []int{1, l, 5}, []int{31, l, 2, 4, 3})
		for n := 0; n < 256; n++ {
			out = append(out, []int{l, 5, n})
		}
		for _, c := range [][]int{{0, 0, 0}, {255, 255, 255}, {1, 2, 3}, {255, 0, 0}, {0, 255, 0}, {0, 0, 255}, {5, 5, 5}, {38, 48, 38}, {128, 64, 32}} {
			out = append(out, []int{l, 2, c[0], c[1], c[2]}, []int{l, 2, c[0], c[1], c[2], 1}, []int{4, l, 2, c[0], c[1], c[2], 24})
		}
		out = append(out, []int{l, 5, 1, 38, 5, 2}, []int{l, 5, 38, 48, 5, 5}, []int{l, 5, 2, 5}, []int{39, l, 5, 9, 49})
	}
	for _, a := range vfSGRSimple {
		for _, b := range vfSGRSimple {
			out = append(out, []int{a, b})
		}
	}
	long := []int{}
	for i := 0; i < 60; i++ {
		long = append(long, vfSGRSimple[i%len(vfSGRSimple)], 30+i%8, 100+i%8)
	}
	return append(out, long[:32], long[:33], long[:64], long[:65], long)
}

var vfSGRBases = [][]int{
	{0},
	{1, 2, 3, 4, 5, 6, 7, 8, 9, 21, 51, 52, 53},
	{38, 5, 200, 48, 2, 10, 20, 30, 1, 9, 53},
	{91, 104, 4, 7, 21},
	{38, 2, 255, 255, 255, 48, 5, 15, 51},
	{2, 5, 32, 47},
}

func init() {
	judged := vfKinds("SGR", "text", "text-zero", "ED", "EL", "ECH", "DCH", "SU", "SD", "IL", "DL", "LF", "FF", "IND", "RI", "mode", "unknown")
	vfChecks["C07"] = func(c *vfCtx) {
		lists := vfSGRLists()
		per := 40
		nsys := (len(lists)*len(vfSGRBases) + per - 1) / per
		c.cases(nsys+c.scale(400000, 5000000), func(i int, r *vfRand) {
			mode := vfBothModes(i)
			w, h, steps := c.session(r, 20, 60)
			k := &vfWork{c: c, m: newVFModel(w, h, mode, false), judged: judged}
			k.s = newVFSess(w, h, mode, false)
			k.compare = vfStyleCompare(k)
			g := newVFGen(r, mode, w, h)
			if i < nsys {
				// Each list from each base, then a cell written and a cell blanked.
				var ops []vfOp
				for j := i * per; j < (i+1)*per && j < len(lists)*len(vfSGRBases); j++ {
					base, list := vfSGRBases[j%len(vfSGRBases)], lists[j/len(vfSGRBases)]
					text := strings.Trim(strings.Join(strings.Fields(fmt.Sprint(list)), ";"), "[]")
					ops = append(ops, vfSGR([]int{0}), vfSGR(base), vfSGRText(text, list))
					if len(list) == 1 && list[0] == 0 {
						ops = append(ops, vfSGR(base), vfSGRText("", nil), vfSGR(base), vfSGRText(";", []int{0, 0}))
					}
					ops = append(ops, vfCUP(r.n(w), r.n(h)), g.text(), vfErase("EL", strconv.Itoa(j%3), j%3))
					c.count("enumerated SGR lists", 1)
				}
				k.steps = len(ops)
				k.next = func(s int) vfOp { return ops[s] }
				k.run()
				return
			}
			g.widePct = vfPick(r, []int{0, 15, 50})
			g.zeroPct = 3
			k.steps = steps
			k.next = vfMenu(r,
				vfChoice{30, g.sgr}, vfChoice{30, g.text}, vfChoice{14, g.erase}, vfChoice{12, func() vfOp { return g.cupNear(k.m) }},
				vfChoice{4, g.scroll}, vfChoice{3, g.wrapMode}, vfChoice{3, g.margins}, vfChoice{5, func() vfOp {
					return vfMotion(vfPick(r, []string{"LF", "FF", "IND", "RI"}), "", 1)
				}}, vfChoice{3, func() vfOp { return vfMode(1049, r.p(50)) }}, vfChoice{1, g.resize})
			k.addNoise(g)
			k.run()
		})
	}
}
