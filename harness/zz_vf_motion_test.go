package termemu

import (
	"fmt"
	"strconv"
)

// C04: cursor motion. Part one enumerates sizes x margins x start positions x motions,
// part two is random.

var vfMotionSizes = []Pos{{1, 1}, {2, 1}, {1, 3}, {2, 2}, {3, 3}, {4, 4}, {9, 3}, {17, 3}, {3, 6}, {8, 2}, {25, 2}}

type vfMotionCase struct {
	size     Pos
	top, bot int
	wrap     bool
}

func vfMotionCases() []vfMotionCase {
	var out []vfMotionCase
	for _, sz := range vfMotionSizes {
		for t := 0; t < sz.Y; t++ {
			for b := t; b < sz.Y; b++ {
				out = append(out, vfMotionCase{sz, t, b, false}, vfMotionCase{sz, t, b, true})
			}
		}
	}
	return out
}

// vfAllMotions lists every motion with every interesting parameter for a screen.
func vfAllMotions(w, h int) []vfOp {
	var ops []vfOp
	for _, k := range []string{"BS", "DEL", "HT", "CR", "LF", "FF", "IND", "RI", "save", "restore"} {
		ops = append(ops, vfMotion(k, "", 1))
	}
	rel := func(kind string, limit int) {
		ops = append(ops, vfMotion(kind, "", 1))
		for n := 1; n <= limit+1; n++ {
			ops = append(ops, vfMotion(kind, strconv.Itoa(n), n))
		}
		for _, s := range []string{"002", "255", "256", "65536", "2147483647", "2147483648", "4294967297", "9223372036854775807", "18446744073709551617"} {
			n := vfInf
			if s == "002" {
				n = 2
			} else if len(s) == 3 {
				n, _ = strconv.Atoi(s)
			}
			ops = append(ops, vfMotion(kind, s, n))
		}
	}
	rel("CUU", h)
	rel("CUD", h)
	rel("CUF", w)
	rel("CUB", w)
	rel("CHA", w)
	rel("VPA", h)
	ops = append(ops, vfMotion("CHA", "0", 1), vfMotion("VPA", "0", 1))
	for _, f := range []string{"H", "f"} {
		cup := func(p string, y, x int) {
			ops = append(ops, vfOp{kind: "CUP", bytes: "\x1b[" + p + f, apply: func(m *vfModel) { m.begin(); m.to(x-1, y-1) }})
		}
		cup("", 1, 1)
		cup(";", 1, 1)
		cup("0;0", 1, 1)
		cup("2", 2, 1)
		cup(";2", 1, 2)
		cup("2;", 2, 1)
		cup("999;1", 999, 1)
		cup("1;999", 1, 999)
		cup("4294967298;4294967298", vfInf, vfInf)
		cup("2;3;1", 2, 3)
		cup("1;2;", 1, 2)
		cup("2;1;9;9;9", 2, 1)
		cup(fmt.Sprintf("%d;%d", h, w), h, w)
		cup(fmt.Sprintf("%d;%d", h+1, w+1), h+1, w+1)
	}
	return ops
}

func vfMotionKind(op vfOp) bool {
	if op.kind == "CUP" {
		return true
	}
	for _, k := range vfMotions {
		if op.kind == k {
			return true
		}
	}
	return false
}

// vfFill writes distinct content into every row.
func vfFill(w, h, salt int, cut int) []vfOp {
	var ops []vfOp
	for y := 0; y < h; y++ {
		ops = append(ops, vfCUP(0, y))
		b := make([]byte, 0, w)
		for x := 0; x < w; x++ {
			b = append(b, byte('A'+(salt+y*7+x*3)%50))
		}
		if len(b) > cut {
			b = b[:cut]
		}
		ops = append(ops, vfTextOp(string(b)))
	}
	return ops
}

func init() {
	vfChecks["C04"] = func(c *vfCtx) {
		told := func(k *vfWork) func(vfOp, vfSnap, vfSnap) string {
			return func(op vfOp, pre, post vfSnap) string {
				if vfMotionKind(op) && k.s.fe.cursorN > 0 && k.s.fe.cursor != post.cur {
					return fmt.Sprintf("the frontend was last told (%d,%d), the cursor is at (%d,%d)", k.s.fe.cursor.X, k.s.fe.cursor.Y, post.cur.X, post.cur.Y)
				}
				if op.kind != "query-CPR" {
					k.s.be.out = nil
				} else {
					want := fmt.Sprintf("\x1b[%d;%dR", post.cur.Y+1, post.cur.X+1)
					got := string(k.s.be.out)
					k.s.be.out = nil
					if got != want {
						return fmt.Sprintf("position report %q, want %q", got, want)
					}
				}
				return ""
			}
		}
		sys := vfMotionCases()
		nsys := len(sys)
		c.cases(nsys+c.scale(400000, 5000000), func(i int, r *vfRand) {
			mode := vfBothModes(i)
			if i < nsys {
				mc := sys[i]
				w, h := mc.size.X, mc.size.Y
				k := &vfWork{c: c, s: newVFSess(w, h, mode, false), m: newVFModel(w, h, mode, false), judged: vfMotionKind}
				motions := vfAllMotions(w, h)
				ops := []vfOp{vfDECSTBM(fmt.Sprintf("%d;%d", mc.top+1, mc.bot+1), mc.top+1, mc.bot+1)}
				if mc.wrap {
					ops = append(ops, vfMode(7, true))
				}
				n := 0
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						for _, mo := range motions {
							if n%24 == 0 {
								ops = append(ops, vfFill(w, h, n, w-1)...)
							}
							if n%31 == 0 {
								ops = append(ops, vfCUP(r.n(w), r.n(h)), vfMotion("save", "", 1))
							}
							n++
							ops = append(ops, vfCUP(x, y), mo)
							if n%5 == 0 {
								ops = append(ops, vfQuery("CPR"))
							}
						}
					}
				}
				k.steps = len(ops)
				k.next = func(s int) vfOp { return ops[s] }
				k.after = told(k)
				k.run()
				c.count("enumerated motions", int64(n))
				return
			}
			w, h, steps := c.session(r, 20, 60)
			g := newVFGen(r, mode, w, h)
			k := &vfWork{c: c, s: newVFSess(w, h, mode, false), m: newVFModel(w, h, mode, false), steps: steps, judged: vfMotionKind}
			k.after = told(k)
			k.next = vfMenu(r,
				vfChoice{50, g.motion}, vfChoice{12, g.cup}, vfChoice{12, func() vfOp { return g.cupNear(k.m) }}, vfChoice{8, func() vfOp { return vfQuery("CPR") }},
				vfChoice{12, g.text}, vfChoice{3, g.wrapMode}, vfChoice{3, g.sgr}, vfChoice{6, g.margins},
				vfChoice{2, g.erase}, vfChoice{2, g.scroll}, vfChoice{2, g.resize})
			k.addNoise(g)
			k.run()
		})
	}
}
