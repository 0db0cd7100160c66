package termemu

// Core of the verification harness: deterministic case runner, scripted backend,
// recording frontend and read-back of the screen into plain cells.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/rivo/uniseg"
)

// ---------------------------------------------------------------- PRNG

type vfRand struct{ s uint64 }

func vfMix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func vfSeed(parts ...uint64) *vfRand {
	h := uint64(0x1234567)
	for _, p := range parts {
		h = vfMix(h ^ p)
	}
	return &vfRand{h}
}

func (r *vfRand) u64() uint64 { r.s += 0x9e3779b97f4a7c15; return vfMix(r.s) }

// n returns a number in [0,k).
func (r *vfRand) n(k int) int {
	if k <= 0 {
		return 0
	}
	hi, _ := bits.Mul64(r.u64(), uint64(k))
	return int(hi)
}

// in returns a number in [a,b].
func (r *vfRand) in(a, b int) int {
	if b <= a {
		return a
	}
	return a + r.n(b-a+1)
}

// p reports true with probability pct/100.
func (r *vfRand) p(pct int) bool { return r.n(100) < pct }

func vfPick[T any](r *vfRand, xs []T) T { return xs[r.n(len(xs))] }

func vfHashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- results

type vfViolation struct {
	Property string `json:"property"`
	Case     int    `json:"case"`
	What     string `json:"what"`
	Detail   string `json:"detail"`
	Key      string `json:"key"`
}

type vfResult struct {
	Evaluations int64            `json:"evaluations"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Violations  []vfViolation    `json:"violations"`
	Cases       int64            `json:"cases"`
	Done        bool             `json:"done"`
}

// vfCtx is the state of one worker process.
type vfCtx struct {
	prop     string
	tier     string
	seed     uint64
	shard    int
	shards   int
	onlyCase int
	res      vfResult
	distinct map[uint64]struct{}
	caseIdx  int
	verbose  bool
	maxViol  int
	caseFile *os.File
	progress atomic.Int64
	maxDist  int
	deadline time.Time
}

func (c *vfCtx) thorough() bool { return c.tier == "thorough" }

// scale returns q for the quick tier and t for the thorough one.
func (c *vfCtx) scale(q, t int) int {
	if c.thorough() {
		return t
	}
	return q
}

// eval counts one evaluation of the oracle; key identifies it when it is non-trivial.
func (c *vfCtx) eval(nontrivial bool, key uint64) {
	c.res.Evaluations++
	if nontrivial && len(c.distinct) < c.maxDist {
		c.distinct[key] = struct{}{}
	}
}

func (c *vfCtx) count(name string, n int64) { c.res.Counters[name] += n }

func (c *vfCtx) sample(format string, args ...any) {
	if len(c.res.Samples) < 3 {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf(format, args...))
	}
}

func (c *vfCtx) violate(what, detail string) {
	if c.verbose {
		fmt.Printf("--- violation case %d: %s\n%s\n", c.caseIdx, what, detail)
	}
	if len(c.res.Violations) < c.maxViol {
		c.res.Violations = append(c.res.Violations, vfViolation{Property: c.prop, Case: c.caseIdx, What: what, Detail: detail, Key: what})
	}
}

func (c *vfCtx) full() bool { return len(c.res.Violations) >= c.maxViol }

// session returns the size of a screen and the number of operations of a history on it.
// A few histories are long enough for anything that counts operations to wrap around.
func (c *vfCtx) session(r *vfRand, lo, hi int) (w, h, steps int) {
	w, h = vfSize(r)
	steps = r.in(lo, hi)
	switch {
	case c.caseIdx%29989 == 11117:
		vfSmall = true
		w, h = vfSize(r)
		steps = 65536 + r.n(4000)
		c.count("histories of more than 65536 operations", 1)
	case c.caseIdx%1499 == 1177:
		vfSmall = true
		w, h = vfSize(r)
		steps = r.in(300, 4000)
		c.count("histories of 300 to 4000 operations", 1)
	}
	return
}

// cases runs body for the case numbers [0,n) that belong to this worker.
func (c *vfCtx) cases(n int, body func(i int, r *vfRand)) {
	for i := 0; i < n; i++ {
		if c.onlyCase >= 0 && i != c.onlyCase {
			continue
		}
		if c.onlyCase < 0 && int(vfMix(uint64(i))%uint64(c.shards)) != c.shard {
			continue
		}
		if c.full() {
			return
		}
		if !c.deadline.IsZero() && time.Now().After(c.deadline) {
			c.count("workers that ran out of time", 1)
			c.count("cases not run for lack of time", int64((n-i)/c.shards))
			return
		}
		c.caseIdx = i
		vfSmall = false
		vfDecoys = vfSeed(c.seed, uint64(i), 99)
		c.progress.Add(1)
		if c.caseFile != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i))
			_, _ = c.caseFile.WriteAt(b[:], 0)
		}
		c.res.Cases++
		body(i, vfSeed(c.seed, vfHashStr(c.prop), uint64(i)))
	}
}

var vfChecks = map[string]func(c *vfCtx){}

func vfEnvInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// TestVerif is the entry point of a worker process.
func TestVerif(t *testing.T) {
	if m := os.Getenv("VF_MERGE"); m != "" {
		vfMergeDistinct(m, os.Getenv("VF_OUT"))
		return
	}
	prop := os.Getenv("VF_PROP")
	check := vfChecks[prop]
	if check == nil {
		t.Skip("not a verification run")
	}
	debug.SetGCPercent(400)
	out := os.Getenv("VF_OUT")
	c := &vfCtx{
		prop:     prop,
		tier:     os.Getenv("VF_TIER"),
		seed:     uint64(vfEnvInt("VF_SEED", 1)),
		shard:    vfEnvInt("VF_SHARD", 0),
		shards:   vfEnvInt("VF_SHARDS", 1),
		onlyCase: vfEnvInt("VF_CASE", -1),
		verbose:  os.Getenv("VF_VERBOSE") != "",
		distinct: map[uint64]struct{}{},
		maxViol:  5,
		maxDist:  3_000_000,
	}
	c.res.Counters = map[string]int64{}
	if s := vfEnvInt("VF_BUDGET", 0); s > 0 {
		c.deadline = time.Now().Add(time.Duration(s) * time.Second)
	}
	if out != "" {
		f, err := os.Create(out + ".case")
		if err != nil {
			t.Fatal(err)
		}
		c.caseFile = f
		go vfWatchdog(c, time.Duration(vfEnvInt("VF_WATCHDOG", 60))*time.Second)
	}
	if c.thorough() {
		c.maxDist = 12_000_000
	}
	check(c)
	c.count("sessions next to another busy terminal", vfDecoyed)
	c.count("sessions with calls that change nothing between reads", vfIdled)
	c.res.Done = true
	if out == "" {
		b, _ := json.MarshalIndent(c.res, "", " ")
		fmt.Println(string(b))
		return
	}
	b, err := json.Marshal(c.res)
	if err != nil {
		t.Fatal(err)
	}
	keys := make([]byte, 0, 8*len(c.distinct))
	for k := range c.distinct {
		keys = binary.LittleEndian.AppendUint64(keys, k)
	}
	if err := os.WriteFile(out+".keys", keys, 0o644); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		t.Fatal(err)
	}
}

// vfWatchdog ends the process when a case makes no progress; the parent decides
// what that means by running the case again on its own.
func vfWatchdog(c *vfCtx, limit time.Duration) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		if p := c.progress.Load(); p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > limit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Printf("VF-HANG case\n%s\n", buf[:n])
			os.Exit(97)
		}
	}
}

func vfMergeDistinct(pattern, out string) {
	var all []uint64
	for _, f := range strings.Split(pattern, ":") {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for ; len(b) >= 8; b = b[8:] {
			all = append(all, binary.LittleEndian.Uint64(b))
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	n := 0
	for i, k := range all {
		if i == 0 || k != all[i-1] {
			n++
		}
	}
	_ = os.WriteFile(out, []byte(strconv.Itoa(n)), 0o644)
}

// ---------------------------------------------------------------- styles

// vfColor kinds
const (
	vfDefault = iota
	vfIndexed
	vfBright
	vfRGB
)

type vfColor struct {
	kind uint8
	v    uint32
}

type vfStyle struct {
	fg, bg vfColor
	modes  uint16
}

// The thirteen modes in the order used for vfStyle.modes, with their SGR codes.
var vfModes = []struct {
	mode Mode
	sgr  int
}{
	{ModeBold, 1}, {ModeDim, 2}, {ModeItalic, 3}, {ModeUnderline, 4}, {ModeBlink, 5},
	{ModeRapidBlink, 6}, {ModeReverse, 7}, {ModeInvisible, 8}, {ModeStrike, 9},
	{ModeDoubleUnderline, 21}, {ModeFramed, 51}, {ModeEncircled, 52}, {ModeOverline, 53},
}

func vfModeBit(sgr int) uint16 {
	for i, m := range vfModes {
		if m.sgr == sgr {
			return 1 << i
		}
	}
	return 0
}

// vfFold is the specification of SGR: the left-to-right fold of the parameters.
func vfFold(s vfStyle, params []int) vfStyle {
	if len(params) == 0 {
		params = []int{0}
	}
	for i := 0; i < len(params); i++ {
		p := params[i]
		switch {
		case p == 0:
			s = vfStyle{}
		case p >= 1 && p <= 9 || p == 21 || p >= 51 && p <= 53:
			s.modes |= vfModeBit(p)
		case p == 22:
			s.modes &^= vfModeBit(1) | vfModeBit(2)
		case p == 23:
			s.modes &^= vfModeBit(3)
		case p == 24:
			s.modes &^= vfModeBit(4) | vfModeBit(21)
		case p == 25:
			s.modes &^= vfModeBit(5) | vfModeBit(6)
		case p == 27:
			s.modes &^= vfModeBit(7)
		case p == 28:
			s.modes &^= vfModeBit(8)
		case p == 29:
			s.modes &^= vfModeBit(9)
		case p == 54:
			s.modes &^= vfModeBit(51) | vfModeBit(52)
		case p == 55:
			s.modes &^= vfModeBit(53)
		case p >= 30 && p <= 37:
			s.fg = vfColor{vfIndexed, uint32(p - 30)}
		case p >= 40 && p <= 47:
			s.bg = vfColor{vfIndexed, uint32(p - 40)}
		case p >= 90 && p <= 97:
			s.fg = vfColor{vfBright, uint32(p - 90)}
		case p >= 100 && p <= 107:
			s.bg = vfColor{vfBright, uint32(p - 100)}
		case p == 39:
			s.fg = vfColor{}
		case p == 49:
			s.bg = vfColor{}
		case p == 38 || p == 48:
			c := &s.fg
			if p == 48 {
				c = &s.bg
			}
			switch {
			case i+2 < len(params) && params[i+1] == 5:
				*c = vfColor{vfIndexed, uint32(params[i+2])}
				i += 2
			case i+4 < len(params) && params[i+1] == 2:
				*c = vfColor{vfRGB, uint32(params[i+2])<<16 | uint32(params[i+3])<<8 | uint32(params[i+4])}
				i += 4
			case i+1 < len(params) && (params[i+1] == 5 || params[i+1] == 2):
				i = len(params) // truncated
			case i+1 < len(params):
				return s // unknown kinds are not generated
			}
		}
	}
	return s
}

// vfParseSGR folds a string that consists of SGR sequences only.
func vfParseSGR(s vfStyle, seq string) (vfStyle, bool) {
	for len(seq) > 0 {
		if !strings.HasPrefix(seq, "\x1b[") {
			return s, false
		}
		end := strings.IndexByte(seq, 'm')
		if end < 0 {
			return s, false
		}
		var params []int
		for _, f := range strings.Split(seq[2:end], ";") {
			n, err := strconv.Atoi(f)
			if err != nil && f != "" {
				return s, false
			}
			params = append(params, n)
		}
		s = vfFold(s, params)
		seq = seq[end+1:]
	}
	return s, true
}

var (
	vfStyleMu    sync.Mutex
	vfStyleCache = map[Style]vfStyle{}
)

// vfDecodeStyle reads a Style through its public face.
func vfDecodeStyle(st Style) vfStyle {
	vfStyleMu.Lock()
	defer vfStyleMu.Unlock()
	if s, ok := vfStyleCache[st]; ok {
		return s
	}
	s, ok := vfParseSGR(vfStyle{}, string(st.ANSIEscape()))
	if !ok {
		s.modes |= 1 << 14
	}
	modes := uint16(0)
	for i, m := range vfModes {
		if st.TestMode(m.mode) {
			modes |= 1 << i
		}
	}
	if modes != s.modes {
		s.modes = modes | 1<<15 // the two descriptions disagree
	}
	for i, c := range []vfColor{s.fg, s.bg} {
		v, rgb, _ := st.GetColor(ColorComponent(i))
		if rgb != (c.kind == vfRGB) || (c.kind != vfDefault && v != int(c.v)) {
			s.modes |= 1 << 15
		}
	}
	// The style must be the one that the setters make of this description.
	same := NewStyle()
	for i, c := range []vfColor{s.fg, s.bg} {
		switch c.kind {
		case vfIndexed:
			_ = same.SetColor256(ColorComponent(i), int(c.v))
		case vfBright:
			_ = same.SetColorBright(ColorComponent(i), int(c.v))
		case vfRGB:
			_ = same.SetColorRGB(ColorComponent(i), int(c.v>>16), int(c.v>>8&255), int(c.v&255))
		}
	}
	for i, m := range vfModes {
		if s.modes&(1<<i) != 0 {
			same.SetMode(m.mode)
		}
	}
	if same != st {
		s.modes |= 1 << 15
	}
	if len(vfStyleCache) > 1<<18 {
		vfStyleCache = map[Style]vfStyle{}
	}
	vfStyleCache[st] = s
	return s
}

func (s vfStyle) String() string {
	c := func(c vfColor) string {
		return [...]string{"def", "idx", "bright", "rgb"}[c.kind] + fmt.Sprintf(":%x", c.v)
	}
	return fmt.Sprintf("{fg %s bg %s modes %04x}", c(s.fg), c(s.bg), s.modes)
}

// ---------------------------------------------------------------- cells

type vfCell struct {
	text string // "" for the continuation of a wide character
	w    int
	st   vfStyle
}

type vfGrid [][]vfCell

func (g vfGrid) clone() vfGrid {
	out := make(vfGrid, len(g))
	for y := range g {
		out[y] = append([]vfCell(nil), g[y]...)
	}
	return out
}

func (g vfGrid) text(y int) string {
	var sb strings.Builder
	for _, c := range g[y] {
		sb.WriteString(c.text)
	}
	return sb.String()
}

func (g vfGrid) String() string {
	var sb strings.Builder
	ids := map[vfStyle]int{}
	for y := range g {
		fmt.Fprintf(&sb, "%3d |", y)
		for _, c := range g[y] {
			switch {
			case c.w == 0:
				sb.WriteString("<")
			case c.text == " ":
				sb.WriteString(".")
			default:
				sb.WriteString(c.text)
			}
		}
		sb.WriteString("|  ")
		for _, c := range g[y] {
			id, ok := ids[c.st]
			if !ok {
				id = len(ids)
				ids[c.st] = id
			}
			sb.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[id%52])
		}
		sb.WriteByte('\n')
	}
	for st, id := range ids {
		if id < 52 {
			fmt.Fprintf(&sb, "     %c = %v\n", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[id], st)
		}
	}
	return sb.String()
}

func (g vfGrid) hash() uint64 {
	h := uint64(len(g))
	for y := range g {
		for _, c := range g[y] {
			h = (h ^ uint64(c.w)) * 1099511628211
			for i := 0; i < len(c.text); i++ {
				h = (h ^ uint64(c.text[i])) * 1099511628211
			}
			h = (h ^ uint64(c.st.fg.v)<<3 ^ uint64(c.st.fg.kind) ^ uint64(c.st.bg.v)<<30 ^ uint64(c.st.bg.kind)<<60 ^ uint64(c.st.modes)<<40) * 1099511628211
		}
	}
	return vfMix(h)
}

type vfCluster struct {
	text string
	w    int
}

// vfSegment splits text into the characters that occupy cells of their own.
func vfSegment(text string, mode TextReadMode) []vfCluster {
	var out []vfCluster
	for len(text) > 0 {
		if text[0] < 0x80 && (len(text) == 1 || text[1] < 0x80) {
			out = append(out, vfCluster{text[:1], 1})
			text = text[1:]
			continue
		}
		if mode == TextReadModeRune {
			r, n := utf8.DecodeRuneInString(text)
			s := text[:n]
			if r == utf8.RuneError {
				s = "\ufffd"
			}
			w := uniseg.StringWidth(s)
			if w < 1 {
				w = 1
			}
			out = append(out, vfCluster{s, w})
			text = text[n:]
			continue
		}
		cl, rest, w, _ := uniseg.FirstGraphemeClusterInString(text, -1)
		s := string([]rune(cl))
		if w < 1 && !vfZeroWidth(s) {
			w = 1
		}
		out = append(out, vfCluster{s, w})
		text = rest
	}
	return out
}

// vfRowCells expands a StyledLine into cells. It reports what is malformed.
func vfRowCells(line Line, w int, mode TextReadMode, dst []vfCell) ([]vfCell, error) {
	cells := dst[:0]
	for i, sp := range line.Spans {
		if sp.Width <= 0 {
			return cells, fmt.Errorf("run %d has width %d", i, sp.Width)
		}
		st := vfDecodeStyle(sp.Style)
		if sp.Text == "" {
			t := string(sp.Rune)
			if sp.Rune == ' ' {
				t = " "
			}
			if rw := uniseg.StringWidth(t); rw > 1 {
				return cells, fmt.Errorf("run %d repeats a wide rune %q", i, t)
			}
			for k := 0; k < sp.Width; k++ {
				cells = append(cells, vfCell{t, 1, st})
			}
			continue
		}
		n := 0
		if !utf8.ValidString(sp.Text) {
			return cells, fmt.Errorf("run %d has invalid text %q", i, sp.Text)
		}
		ascii := true
		for k := 0; k < len(sp.Text); k++ {
			if sp.Text[k] >= 0x80 {
				ascii = false
				break
			}
		}
		if ascii {
			for k := 0; k < len(sp.Text); k++ {
				cells = append(cells, vfCell{sp.Text[k : k+1], 1, st})
			}
			n = len(sp.Text)
		} else {
			for _, cl := range vfSegment(sp.Text, mode) {
				if cl.w < 1 {
					return cells, fmt.Errorf("run %d text %q has a zero-width character %q", i, sp.Text, cl.text)
				}
				cells = append(cells, vfCell{cl.text, cl.w, st})
				for k := 1; k < cl.w; k++ {
					cells = append(cells, vfCell{"", 0, st})
				}
				n += cl.w
			}
		}
		if n != sp.Width {
			return cells, fmt.Errorf("run %d claims width %d but its text %q occupies %d", i, sp.Width, sp.Text, n)
		}
	}
	if len(cells) != w {
		return cells, fmt.Errorf("row covers %d cells of %d", len(cells), w)
	}
	return cells, nil
}

// vfRows is what vfReadGrid needs; both screens and terminals provide it.
type vfRows interface {
	StyledLine(x, w, y int) Line
}

// vfReadGrid reads a whole screen. A row that is malformed is an error.
func vfReadGrid(s vfRows, w, h int, mode TextReadMode) (vfGrid, error) {
	g := make(vfGrid, h)
	buf := make([]vfCell, 0, w*h)
	for y := 0; y < h; y++ {
		row, err := vfRowCells(s.StyledLine(0, w, y), w, mode, buf[len(buf):len(buf):cap(buf)])
		if err != nil {
			return nil, fmt.Errorf("row %d: %w", y, err)
		}
		g[y] = row[:len(row):len(row)]
		if len(buf)+len(row) <= cap(buf) {
			buf = buf[:len(buf)+len(row)]
		}
	}
	return g, nil
}

// ---------------------------------------------------------------- frontend

type vfEvKind uint8

const (
	vfEvBell vfEvKind = iota
	vfEvRegion
	vfEvScroll
	vfEvCursor
	vfEvStyle
	vfEvFlag
	vfEvInt
	vfEvString
)

// vfFront records what the frontend is told.
type vfFront struct {
	t        *terminal
	bells    int
	cursor   Pos
	cursorN  int
	style    Style
	styleN   int
	flags    map[ViewFlag]bool
	ints     map[ViewInt]int
	strs     map[ViewString]string
	events   int64
	log      []string // when logging
	logging  bool
	regions  []Region
	reasons  []ChangeReason
	unlocked int // callbacks that ran without the terminal lock
	lastBad  string

	onRegion func(Region, ChangeReason)
	onScroll func(int)
	onCursor func(x, y int)
	onAny    func(kind vfEvKind)
}

func newVFFront() *vfFront {
	return &vfFront{flags: map[ViewFlag]bool{}, ints: map[ViewInt]int{}, strs: map[ViewString]string{}}
}

func (f *vfFront) ev(k vfEvKind, name string) {
	f.events++
	if f.t != nil {
		if f.t.TryLock() {
			f.t.Unlock()
			f.unlocked++
			f.lastBad = name
		}
		if f.onAny != nil {
			f.onAny(k)
		}
	}
}

func (f *vfFront) note(format string, args ...any) {
	if f.logging {
		f.log = append(f.log, fmt.Sprintf(format, args...))
	}
}

func (f *vfFront) Bell() { f.ev(vfEvBell, "Bell"); f.bells++; f.note("bell") }
func (f *vfFront) RegionChanged(r Region, c ChangeReason) {
	f.ev(vfEvRegion, "RegionChanged")
	f.regions = append(f.regions, r)
	f.reasons = append(f.reasons, c)
	if f.onRegion != nil {
		f.onRegion(r, c)
	}
}
func (f *vfFront) ScrollLines(y int) {
	f.ev(vfEvScroll, "ScrollLines")
	f.note("scroll %d", y)
	if f.onScroll != nil {
		f.onScroll(y)
	}
}
func (f *vfFront) CursorMoved(x, y int) {
	f.ev(vfEvCursor, "CursorMoved")
	f.cursor = Pos{x, y}
	f.cursorN++
	if f.onCursor != nil {
		f.onCursor(x, y)
	}
}
func (f *vfFront) StyleChanged(s Style) { f.ev(vfEvStyle, "StyleChanged"); f.style = s; f.styleN++ }
func (f *vfFront) ViewFlagChanged(v ViewFlag, b bool) {
	f.ev(vfEvFlag, "ViewFlagChanged")
	f.flags[v] = b
	f.note("flag %d=%v", v, b)
}
func (f *vfFront) ViewIntChanged(v ViewInt, n int) {
	f.ev(vfEvInt, "ViewIntChanged")
	f.ints[v] = n
	f.note("int %d=%d", v, n)
}
func (f *vfFront) ViewStringChanged(v ViewString, s string) {
	f.ev(vfEvString, "ViewStringChanged")
	f.strs[v] = s
	f.note("str %d=%q", v, s)
}

func (f *vfFront) resetRegions() { f.regions = f.regions[:0]; f.reasons = f.reasons[:0] }

// ---------------------------------------------------------------- backend

// vfBackend delivers what next returns, one read at a time. next is called when
// everything delivered before has been consumed: that is the quiescent point.
type vfBackend struct {
	next    func() ([]byte, bool) // false: end of input
	pending []byte
	ended   bool
	out     []byte
	sizes   []Pos
	reads   int64
	endErr  error // how the input ends, io.EOF if nil
	zero    func() bool
	zeros   int
	onWrite func()     // may wait
	short   func() int // how much a call takes at most, 0 for everything
}

func (b *vfBackend) Read(p []byte) (int, error) {
	b.reads++
	end := b.endErr
	if end == nil {
		end = io.EOF
	}
	if b.zero != nil && !b.ended && b.zeros < 20 && b.zero() {
		b.zeros++
		return 0, nil
	}
	b.zeros = 0
	for len(b.pending) == 0 {
		if b.ended {
			return 0, end
		}
		data, ok := b.next()
		if !ok {
			b.ended = true
			return 0, end
		}
		b.pending = data
	}
	n := copy(p, b.pending)
	b.pending = b.pending[n:]
	return n, nil
}

func (b *vfBackend) Write(p []byte) (int, error) {
	if b.onWrite != nil {
		b.onWrite()
	}
	if b.short != nil {
		if n := b.short(); n > 0 {
			p = p[:vfMin(n, len(p))]
		}
	}
	b.out = append(b.out, p...)
	return len(p), nil
}
func (b *vfBackend) SetSize(w, h int) error { b.sizes = append(b.sizes, Pos{w, h}); return nil }

// ---------------------------------------------------------------- sessions

type vfSess struct {
	t    *terminal
	fe   *vfFront
	be   *vfBackend
	mode TextReadMode
	grid bool
	// Another terminal of the same process, which is busy whenever this one waits.
	decoy  *vfSess
	decoyR *vfRand
	// Calls that change nothing are made between reads.
	idle   *vfRand
	resize bool // the size does not matter either
}

// vfDecoys decides which sessions share the process with another terminal.
var (
	vfDecoys  *vfRand
	vfDecoyed int64
	vfIdled   int64
)

var vfDecoyInput = []string{
	"\x1b[31;1;4mab\u754c\u0301c\r\n", "\x1b[?1049h\x1b[2J", "\x1b[?1049l", "\x1b[5;3Hxyz\x1b[", "\x1b[38;2;1;2", "\x1b]0;title", "\x1b]0;a\a\x1b[>31u", "\x1b[=7;3u",
	"\x1b[?1000;1003;1006;2004;7h", "\x1b[?7l\x1b[?25l\x1b[?1l", "\x1b=\x1b7", "\x1b[2;4r\x1b[9S", "\x1b[3T\x1b[2L\x1b[4M\x1bM\x1bD", "\x1b[3X\x1b[2P\x1b[1K\x1b[J",
	"\U0001F468\u200d\U0001F469\u200d", "\U0001F1E9", "e", "\xe7\x95", "\xf0\x9f", "\x1b[6n\x1b[c\x1b[>c\x1b[?u", "\x1bP1;2q#0", "\x1b", "\x1b[<9u", "\x1b[>4;2m",
	"\x1b[999999999999999999999999C", "\x1b[1;2;3;4;5;6;7;8;9;10;11;12;13;14;15;16;17;18;19m", "\x1b8q\x1b[s\x1b[u", "0123456789012345678901234567890123456789",
}

func (s *vfSess) disturb() {
	r := s.decoyR
	if s.decoy == nil || !r.p(25) {
		return
	}
	d := s.decoy
	var e error
	func() {
		defer vfRecover(&e)
		switch r.n(10) {
		case 0:
			_ = d.t.Resize(r.in(1, 30), r.in(1, 12))
		case 1:
			_, _ = d.t.SendKey(KeyEvent{Code: vfPick(r, []KeyCode{KeyUp, KeyF5, KeyEnter, KeyKPBegin}), Mod: KeyMod(r.n(8)), Event: KeyEventType(r.n(4))})
			_ = d.t.SendMouseRaw(MouseBtn(r.n(3)), r.p(50), 0, r.in(1, 300), r.in(1, 300))
		case 2:
			d.locked(func() { _, _ = d.t.ANSILine(0), d.t.Line(0) })
		default:
			e = d.feed(vfPick(r, vfDecoyInput), vfPick(r, vfDecoyInput))
		}
	}()
	d.be.out = d.be.out[:0]
	d.fe.log = d.fe.log[:0]
	d.fe.resetRegions()
	if e != nil { // judged by C01
		s.decoy = nil
	}
}

// vfNoScroll is the frontend of a grid terminal's alternate screen.
type vfNoScroll struct{ Frontend }

func (vfNoScroll) ScrollLines(int) {}

func newVFSess(w, h int, mode TextReadMode, grid bool) *vfSess {
	s := &vfSess{fe: newVFFront(), be: &vfBackend{}, mode: mode, grid: grid}
	if grid {
		s.t = &terminal{
			frontend:     s.fe,
			mainScreen:   newGridScreen(s.fe),
			altScreen:    newGridScreen(vfNoScroll{s.fe}),
			backend:      s.be,
			viewFlags:    make([]bool, viewFlagCount),
			viewInts:     make([]int, viewIntCount),
			viewStrings:  make([]string, viewStringCount),
			textReadMode: mode,
		}
	} else {
		s.t = newTerminal(s.fe, s.be, mode)
	}
	s.fe.t = s.t
	if tw, th := s.t.Size(); tw != w || th != h { // a new terminal has a size already
		_ = s.t.Resize(w, h)
	}
	s.fe.resetRegions()
	if r := vfDecoys; r != nil && r.p(4) {
		vfDecoys = nil
		s.decoy = newVFSess(r.in(1, 20), r.in(1, 8), TextReadMode(r.n(2)), false)
		s.decoyR = vfSeed(r.u64())
		vfDecoys = r
		vfDecoyed++
	}
	if r := vfDecoys; r != nil && r.p(6) {
		s.idle = vfSeed(r.u64())
		vfIdled++
	}
	return s
}

// idleCall makes a call that has no effect: the same frontend again, or a look at the screen.
func (s *vfSess) idleCall() {
	r, t := s.idle, s.t
	if !r.p(20) || !t.TryLock() {
		return
	}
	f := t.frontend
	t.Unlock()
	switch {
	case s.resize && r.p(30):
		_ = t.Resize(vfPick(r, []int{r.in(1, 30), r.in(1, 30), 80, 132, r.in(31, 300)}), vfPick(r, []int{r.in(1, 12), r.in(1, 12), 24, r.in(13, 70)}))
		return
	case r.p(50):
		t.SetFrontend(f)
		return
	}
	t.WithLock(func() {
		w, h := t.Size()
		y := r.n(h)
		_, _ = t.Line(y), t.ANSILine(y)
		x := r.n(w)
		_ = t.StyledLine(x, r.in(1, w-x), y)
		_ = t.StyledLines(Region{X2: w, Y2: h})
	})
}

// locked runs f with the terminal lock held, unless the caller of Read holds it already.
func (s *vfSess) locked(f func()) {
	if s.t.TryLock() {
		defer s.t.Unlock()
	}
	f()
}

// run feeds the terminal until next reports the end. It returns a panic as an error.
func (s *vfSess) run(next func() ([]byte, bool)) (err error) {
	if s.decoy != nil {
		of := next
		next = func() ([]byte, bool) {
			s.disturb()
			return of()
		}
	}
	if s.idle != nil {
		of := next
		next = func() ([]byte, bool) {
			s.idleCall()
			return of()
		}
	}
	s.be.next = next
	s.be.ended = false
	return vfRunLoop(s.t)
}

func (s *vfSess) feed(chunks ...string) error {
	i := 0
	return s.run(func() ([]byte, bool) {
		if i >= len(chunks) {
			return nil, false
		}
		i++
		return []byte(chunks[i-1]), true
	})
}

type vfSnap struct {
	w, h     int
	cells    vfGrid
	cur      Pos
	top, bot int
	wrap     bool
	style    vfStyle
}

func vfSnapScreen(s screen, mode TextReadMode) (vfSnap, error) {
	sz := s.Size()
	sn := vfSnap{w: sz.X, h: sz.Y, cur: s.CursorPos(), top: s.TopMargin(), bot: s.BottomMargin(), wrap: s.AutoWrap(), style: vfDecodeStyle(s.Style())}
	g, err := vfReadGrid(s, sn.w, sn.h, mode)
	sn.cells = g
	return sn, err
}

func (s *vfSess) snap() (sn vfSnap, err error) {
	s.locked(func() { sn, err = vfSnapScreen(s.t.screen(), s.mode) })
	return
}

func (s *vfSess) snapBoth() (m, a vfSnap, err error) {
	s.locked(func() {
		if m, err = vfSnapScreen(s.t.mainScreen, s.mode); err != nil {
			err = fmt.Errorf("main: %w", err)
			return
		}
		if a, err = vfSnapScreen(s.t.altScreen, s.mode); err != nil {
			err = fmt.Errorf("alt: %w", err)
		}
	})
	return
}

func vfSameRow(a, b []vfCell) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vfDiffCells(got, want vfGrid) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d rows instead of %d", len(got), len(want))
	}
	for y := range got {
		if vfSameRow(got[y], want[y]) {
			continue
		}
		for x := 0; x < len(got[y]) && x < len(want[y]); x++ {
			if got[y][x] != want[y][x] {
				return fmt.Sprintf("cell (%d,%d) is %q w%d %v, want %q w%d %v", x, y,
					got[y][x].text, got[y][x].w, got[y][x].st, want[y][x].text, want[y][x].w, want[y][x].st)
			}
		}
		return fmt.Sprintf("row %d has %d cells, want %d", y, len(got[y]), len(want[y]))
	}
	return ""
}

func vfRecover(err *error) {
	if p := recover(); p != nil {
		st := string(debug.Stack())
		*err = fmt.Errorf("panic: %v\n%s", p, st)
	}
}

// vfPanicSite extracts a short description of a panic.
func vfPanicSite(err error) string {
	s := err.Error()
	if i := strings.IndexByte(s, '\n'); i > 0 {
		return s[:i]
	}
	return s
}

func vfMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func vfMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
