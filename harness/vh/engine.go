package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"time"

	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
)

// Scenario is one deterministic history.
type Scenario struct {
	Prop    string
	Kind    string // top-dict, top-od, low-hm, low-bp
	Prof    string // size profile
	Wave    string // shape of the history
	Seed    int64
	N       int
	Protect bool
	Low     bool
}

func (s Scenario) String() string {
	return fmt.Sprintf("%s %s prof=%s wave=%s seed=%d n=%d protect=%v low=%v", s.Prop, s.Kind, s.Prof, s.Wave, s.Seed, s.N, s.Protect, s.Low)
}

type failure struct {
	Msg string
	Ops []string
}

type engine struct {
	sc    Scenario
	r     *rand.Rand
	g     *keygen
	m     *model
	st    store
	od    bool
	name  string
	log   []string
	step  int
	evals int
	shape map[string]bool
	held  []heldSlice
	since int
	beat  func()
	maxH  int
}

type heldSlice struct {
	b    []byte
	want []byte
	what string
}

func (e *engine) fail(f string, a ...interface{}) {
	panic(&failure{Msg: fmt.Sprintf(f, a...), Ops: append([]string(nil), e.log...)})
}

func (e *engine) logf(f string, a ...interface{}) {
	if len(e.log) > 60 {
		e.log = append(e.log[:0], e.log[30:]...)
	}
	e.log = append(e.log, fmt.Sprintf("#%d ", e.step)+fmt.Sprintf(f, a...))
}

func q(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%x(%d)", b, len(b))
	}
	return fmt.Sprintf("%x..%x(%d)", b[:12], b[len(b)-8:], len(b))
}

func (e *engine) is(props ...string) bool {
	for _, p := range props {
		if e.sc.Prop == p {
			return true
		}
	}
	return false
}

// run executes a scenario; it returns what failed.
func run(sc Scenario, beat func()) (ev int, shapes map[string]bool, maxH int, f *failure) {
	e := &engine{sc: sc, r: rand.New(rand.NewSource(sc.Seed)), m: newModel(), shape: map[string]bool{}, beat: beat}
	e.g = newKeygen(e.r, sc.Prof)
	e.od = sc.Kind == "top-od" || sc.Kind == "low-bp"
	defer func() {
		ev, shapes, maxH = e.evals, e.shape, e.maxH
		if x := recover(); x != nil {
			if ff, ok := x.(*failure); ok {
				f = ff
				return
			}
			if k, m := fsmFault(x); k != "" {
				f = &failure{Msg: "file storage misused: " + k + ": " + m, Ops: e.log}
				return
			}
			f = &failure{Msg: fmt.Sprintf("panic: %v", x), Ops: e.log}
		}
	}()
	defer fsmRelease()
	setup(&e.sc, sc.Seed*7+1)
	e.name = fmt.Sprintf("%s/vh-%s-%d-%d", scratch, sc.Kind, sc.Seed, time.Now().UnixNano())
	fsmRemove(e.name)
	defer fsmRemove(e.name)
	var err error
	switch sc.Kind {
	case "top-dict":
		e.st, err = openTopDict(e.name)
	case "top-od":
		e.st, err = openTopOD(e.name)
	case "low-hm":
		e.st, err = openLowHM(e.name)
	case "low-bp":
		e.st, err = openLowBP(e.name)
	}
	if err != nil {
		e.fail("open: %v", err)
	}
	if sc.Wave == "press" {
		e.press()
	} else if sc.Wave == "sizes" {
		e.sizes()
	} else {
		e.history()
	}
	e.checkpoint(true)
	e.finish()
	return
}

type phase struct {
	add, upd, del int
	frac          float64 // target size relative to N
	order         string  // order of deletions
}

var waves = map[string][]phase{
	"growshrink": {{90, 8, 2, 1, "rand"}, {0, 0, 100, 0, "rand"}, {90, 5, 5, 0.3, "rand"}, {5, 5, 90, 0, "asc"}},
	"asc":        {{95, 3, 2, 1, "rand"}, {2, 3, 95, 0.05, "asc"}, {95, 3, 2, 0.5, "rand"}, {0, 0, 100, 0, "desc"}},
	"desc":       {{95, 3, 2, 1, "rand"}, {2, 3, 95, 0.05, "desc"}, {95, 3, 2, 0.5, "rand"}, {0, 0, 100, 0, "runs"}},
	"churn":      {{90, 8, 2, 0.6, "rand"}, {40, 25, 35, 1, "rand"}, {35, 25, 40, 0.3, "runs"}, {40, 20, 40, 0.6, "rand"}, {0, 20, 80, 0, "rand"}},
	"update":     {{90, 8, 2, 0.5, "rand"}, {5, 90, 5, 0.6, "rand"}, {0, 50, 50, 0.1, "rand"}, {40, 50, 10, 0.3, "rand"}},
	"runs":       {{95, 5, 0, 1, "rand"}, {5, 5, 90, 0.4, "runs"}, {80, 5, 15, 1, "runs"}, {5, 5, 90, 0, "runs"}},
	"grow":       {{100, 0, 0, 1, "rand"}},
	"big":        {{100, 0, 0, 1, "rand"}, {0, 0, 100, 0, "rand"}},
	"small":      {{60, 20, 20, 1, "rand"}, {20, 20, 60, 0, "rand"}, {60, 20, 20, 1, "rand"}, {20, 20, 60, 0, "rand"}, {60, 20, 20, 1, "asc"}, {20, 20, 60, 0, "desc"}},
}

func (e *engine) history() {
	for _, ph := range waves[e.sc.Wave] {
		target := int(ph.frac * float64(e.sc.N))
		limit := 4*e.sc.N + 100
		var queue []string
		if ph.order != "rand" && ph.del > ph.add {
			queue = append(queue, e.m.order()...)
			switch ph.order {
			case "desc":
				for i, j := 0, len(queue)-1; i < j; i, j = i+1, j-1 {
					queue[i], queue[j] = queue[j], queue[i]
				}
			case "runs":
				var out []string
				n := len(queue)
				for n > 0 {
					k := 1 + e.r.Intn(60)
					if k > n {
						k = n
					}
					at := e.r.Intn(n - k + 1)
					out = append(out, queue[at:at+k]...)
					queue = append(queue[:at], queue[at+k:]...)
					n = len(queue)
				}
				queue = out
			}
		}
		up := target > len(e.m.m)
		for i := 0; i < limit; i++ {
			if up && len(e.m.m) >= target || !up && len(e.m.m) <= target {
				break
			}
			x := e.r.Intn(ph.add + ph.upd + ph.del)
			switch {
			case x < ph.add:
				e.opAdd()
			case x < ph.add+ph.upd:
				e.opUpdate()
			default:
				var k string
				for len(queue) > 0 {
					k = queue[0]
					queue = queue[1:]
					if _, ok := e.m.m[k]; ok {
						break
					}
					k = ""
				}
				e.opDelete(k)
			}
			e.after()
		}
		e.checkpoint(false)
	}
}

// press chooses operations by the shape of the tree: those that make two things
// happen at once, such as the removal of a record that leaves its leaf too empty
// while the longer separator it brings about makes the parent too full.
func (e *engine) press() {
	bp, ok := e.st.(*lowBP)
	if !ok {
		return
	}
	look := func() *walkResult {
		addr := bp.bp.Store()
		w := walkTree(addr)
		bp.bp.Load(addr)
		if w.err != "" {
			e.fail("%s", w.err)
		}
		e.treeShape(w, e.st.Shape())
		return w
	}
	for len(e.m.m) < e.sc.N {
		e.opAdd()
		e.after()
	}
	over, under, nunder := 7919, 2770, 2869
	e.logf("press")
	for round := 0; round < 200; round++ {
		w := look()
		// below each parent the leaf whose first record may go, or another of its records
		for i := 0; i < len(w.shape); {
			var best *leafShape
			score, mode := -1, e.r.Intn(8)
			j := i
			for ; j < len(w.shape) && w.shape[j].parent == w.shape[i].parent; j++ {
				l := w.shape[j]
				full := l.grow > 0 && l.parent.load+l.grow > over
				void := l.grow < 0 && l.parent.load+l.grow < nunder
				empty := l.load-l.size < under
				s := e.r.Intn(3)
				switch {
				case l.leftmost || mode == 0:
				case (full || void) && empty:
					s = 100
				case mode <= 4 && (full || void):
					// the leaf is to come closer to the limit
					s = 60 + 20*under/l.load
				case mode == 5 && empty:
					s = 50
				case !full && l.grow > 0:
					// the parent is to come closer to the limit
					s = 10 + 20*l.parent.load/over
				}
				if s > score {
					best, score = l, s
				}
			}
			i = j
			at := 0
			if score >= 60 && score < 100 && len(best.keys) > 2 {
				at = 2 + e.r.Intn(len(best.keys)-2)
			}
			e.opDelete(best.keys[at])
			e.after()
			if mode > 0 && mode <= 4 && e.r.Intn(2) == 0 {
				e.opAdd()
				e.after()
			}
		}
		for len(e.m.m) < e.sc.N*2/3 {
			e.opAdd()
			e.after()
		}
	}
	e.checkpoint(false)
}

// sizes visits every key and value length around the encoding limits.
func (e *engine) sizes() {
	lens := []int{}
	for n := 0; n <= 40; n++ {
		lens = append(lens, n)
	}
	for n := 100; n <= 300; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 383, 384, 385, 500, 505, 506, 512, 1000, 4095, 8191, 8192, 8200, 16383, 16384, 16385, 16500, 20000, 32767, 32768, 65535, 65536, 70000)
	e.r.Shuffle(len(lens), func(i, j int) { lens[i], lens[j] = lens[j], lens[i] })
	for _, n := range lens {
		k := e.g.bytes(n)
		if e.r.Intn(3) == 0 && n < len(e.g.prefix) {
			k = append([]byte(nil), e.g.prefix[:n]...)
		}
		e.mutate(e.r.Intn(3), k, e.g.bytes(lens[e.r.Intn(len(lens))]))
		e.after()
	}
	for _, n := range lens {
		if k, ok := e.someKey(); ok {
			e.mutate(e.r.Intn(2), []byte(k), e.g.bytes(n))
			e.after()
		}
	}
	e.checkpoint(false)
	for len(e.m.m) > 0 {
		e.opDelete("")
		e.after()
	}
}

func (e *engine) someKey() (string, bool) {
	if len(e.m.keys) == 0 {
		return "", false
	}
	return e.m.keys[e.r.Intn(len(e.m.keys))], true
}

func (e *engine) opAdd() { e.mutate(e.r.Intn(3), e.g.key(), e.g.value()) }

func (e *engine) opUpdate() {
	k, ok := e.someKey()
	if !ok {
		e.opAdd()
		return
	}
	switch e.r.Intn(8) {
	case 0:
		e.mutate(2, []byte(k), e.g.value())
	case 1:
		e.test(e.g.neighbour([]byte(k)))
	case 2:
		e.mutate(1, e.g.neighbour([]byte(k)), e.g.value())
	case 3:
		e.mutate(0, e.g.neighbour([]byte(k)), e.g.value())
	default:
		e.mutate(e.r.Intn(2), []byte(k), e.g.value())
	}
}

// arg prepares a slice argument whose surroundings must stay untouched.
func (e *engine) arg(b []byte) []byte {
	if len(b) == 0 && e.r.Intn(2) == 0 {
		return nil
	}
	return append(make([]byte, 0, len(b)), b...)
}

// mutate: 0 Set, 1 SetIfExists, 2 SetIfNotExists.
func (e *engine) mutate(op int, k, v []byte) {
	e.step++
	ret := e.r.Intn(2) == 0
	ka, va := e.arg(k), e.arg(v)
	old, had := e.m.m[string(k)]
	var res []byte
	ok := had
	name := [...]string{"Set", "SetIfExists", "SetIfNotExists"}[op]
	e.logf("%s(%s, %s, %v) had=%v", name, q(k), q(v), ret, had)
	switch op {
	case 0:
		res = e.st.Set(ka, va, ret)
		e.m.set(string(k), string(v))
	case 1:
		res, ok = e.st.SetIfExists(ka, va, ret)
		if had {
			e.m.set(string(k), string(v))
		}
	case 2:
		res, ok = e.st.SetIfNotExists(ka, va, ret)
		ok = !ok
		if !had {
			e.m.set(string(k), string(v))
		}
	}
	e.outcome(name, k, res, ok, old, had, ret)
	e.args(name, ka, k, va, v)
}

func (e *engine) opDelete(k string) {
	if k == "" {
		var ok bool
		if k, ok = e.someKey(); !ok {
			k = string(e.g.key())
		} else if e.r.Intn(12) == 0 {
			k = string(e.g.neighbour([]byte(k)))
		}
	}
	e.clear(k)
}

func (e *engine) clear(k string) {
	e.step++
	ret := e.r.Intn(2) == 0
	ka := e.arg([]byte(k))
	old, had := e.m.m[k]
	e.logf("Clear(%s, %v) had=%v", q([]byte(k)), ret, had)
	res, ok := e.st.Clear(ka, ret)
	e.m.del(k)
	e.outcome("Clear", []byte(k), res, ok, old, had, ret)
	e.args("Clear", ka, []byte(k), nil, nil)
}

func (e *engine) test(k []byte) {
	ret := e.r.Intn(8) != 0
	ka := e.arg(k)
	v, had := e.m.m[string(k)]
	res, ok := e.st.Test(ka, ret)
	e.outcome("Test", k, res, ok, v, had, ret)
	e.args("Test", ka, k, nil, nil)
}

func (e *engine) outcome(op string, k, res []byte, ok bool, old string, had, ret bool) {
	e.evals++
	if e.is("C01", "C02", "C06", "C08") {
		if ok != had {
			e.fail("%s(%s): reports presence %v, the key's presence is %v", op, q(k), ok, had)
		}
		want := ""
		if had && ret {
			want = old
		}
		if string(res) != want {
			e.fail("%s(%s, return=%v): returned value %s, want %s", op, q(k), ret, q(res), q([]byte(want)))
		}
	}
	if e.is("C11") && len(res) > 0 {
		if e.r.Intn(2) == 0 {
			for i := range res {
				res[i] ^= 0xFF
			}
		} else {
			e.hold(res, "value returned by "+op)
		}
	}
}

func (e *engine) hold(b []byte, what string) {
	h := heldSlice{b, append([]byte(nil), b...), what}
	if len(e.held) < 400 {
		e.held = append(e.held, h)
	} else {
		e.held[e.r.Intn(len(e.held))] = h
	}
}

func (e *engine) checkHeld() {
	for _, h := range e.held {
		if !bytes.Equal(h.b, h.want) {
			e.fail("a %s changed after it was returned", h.what)
		}
	}
}

func (e *engine) args(op string, ka, k, va, v []byte) {
	if !e.is("C11") {
		return
	}
	if !bytes.Equal(ka, k) || !bytes.Equal(va, v) {
		e.fail("%s modified its arguments", op)
	}
	for i := range ka {
		ka[i] ^= 0xFF
	}
	for i := range va {
		va[i] ^= 0xFF
	}
}

func (e *engine) after() {
	e.since++
	if e.step&255 == 0 {
		e.beat()
	}
	sh := e.st.Shape()
	if e.od {
		if sh[0] > e.maxH {
			e.maxH = sh[0]
		}
	} else if sh[1] > e.maxH {
		e.maxH = sh[1]
	}
	fsmCheck()
	n := len(e.m.m)
	if e.is("C10") {
		e.evals++
		if e.st.Items() != n {
			e.fail("number of items reported %d, present %d", e.st.Items(), n)
		}
		if e.st.Payload() != e.m.pay {
			e.fail("payload size reported %d, actual %d", e.st.Payload(), e.m.pay)
		}
	}
	if e.is("C13") && !e.od {
		e.loadFactor()
	}
	switch {
	case e.is("C03") && e.od:
		if e.r.Intn(3) == 0 {
			e.ranges(1)
		}
		if e.r.Intn(4) == 0 {
			e.edges()
		}
	case e.is("C12") && e.od:
		if e.r.Intn(4) == 0 {
			e.partial(2)
		}
	case e.is("C05"):
		if e.r.Intn(1+n/8) == 0 || e.r.Intn(60) == 0 {
			e.reopen()
		}
	case e.is("C01", "C02", "C06", "C08"):
		if k, ok := e.someKey(); ok {
			e.test([]byte(k))
			if e.r.Intn(4) == 0 {
				e.test(e.g.neighbour([]byte(k)))
			}
		}
	}
	every := n
	switch {
	case e.is("C07", "C09", "C10", "C13"):
		every = 10 + n/12
	case e.is("C04"):
		every = 5 + n/4
	case e.is("C11"):
		every = 20 + n/3
	case e.is("C05"):
		every = 50 + n
	}
	if e.since > every+20 {
		e.checkpoint(false)
	}
}

func (e *engine) loadFactor() {
	e.evals++
	sh := e.st.Shape()
	n := len(e.m.m)
	slots, dirs := sh[0], sh[1]
	const max = 1.6180339887498949
	if float64(n) > max*float64(slots) {
		e.fail("%d items in %d slots: more than 1.618 per slot", n, slots)
	}
	if slots > 1 && float64(n) < max/2*float64(slots)-1 {
		e.fail("%d items in %d slots: less than 0.809 per slot", n, slots)
	}
	need := (slots + 4095) / 4096
	if dirs < need || dirs > need+1 {
		e.fail("%d slots in %d slot directories", slots, dirs)
	}
}

func (e *engine) content(full bool) {
	step := 1
	if n := len(e.m.keys); !full && n > 3000 {
		step = n / 3000
	}
	for i := e.r.Intn(step); i < len(e.m.keys); i += step {
		k := e.m.keys[i]
		e.evals++
		v, ok := e.st.Test([]byte(k), true)
		if !ok {
			e.fail("key %s is lost", q([]byte(k)))
		}
		if string(v) != e.m.m[k] {
			e.fail("key %s has value %s, want %s", q([]byte(k)), q(v), q([]byte(e.m.m[k])))
		}
		if e.is("C11") && len(v) > 0 {
			v[e.r.Intn(len(v))] ^= 0x55
		}
	}
	for i := 0; i < 20; i++ {
		k := e.g.key()
		if _, had := e.m.m[string(k)]; had {
			continue
		}
		if _, ok := e.st.Test(k, false); ok {
			e.fail("key %s is present but was never set or was cleared", q(k))
		}
	}
}

func (e *engine) checkpoint(full bool) {
	e.since = 0
	e.beat()
	n := len(e.m.m)
	switch {
	case e.is("C01", "C02", "C06", "C08", "C05"):
		e.content(full)
		if e.od && e.is("C06", "C02", "C05", "C08") {
			e.rangeCheck(bptree.MinKey, bptree.MaxKey, true)
		}
		if !e.od && e.is("C08", "C05", "C01") {
			e.scan()
		}
	case e.is("C03") && e.od:
		e.rangeCheck(bptree.MinKey, bptree.MaxKey, true)
		e.rangeCheck(bptree.MinKey, bptree.MaxKey, false)
		e.ranges(10)
		e.gaps(400)
	case e.is("C04") && !e.od:
		e.scan()
	case e.is("C12") && e.od:
		e.partial(20)
	case e.is("C11"):
		e.content(full)
		e.checkHeld()
		if e.od {
			e.scribbleRange()
		} else {
			e.scribbleScan()
		}
		e.content(false)
	case e.is("C07", "C09", "C10", "C13"):
		e.walk()
	}
	if full && n > 0 && e.is("C05") {
		e.reopen()
		e.content(true)
	}
	if e.is("C13", "C10") && !e.od {
		e.evals++
	}
}

func (e *engine) reopen() {
	sh, it, pay := fmt.Sprint(e.st.Shape()), e.st.Items(), e.st.Payload()
	e.logf("close and open")
	if err := e.st.Reopen(); err != nil {
		e.fail("close/open: %v", err)
	}
	e.evals++
	if s2 := fmt.Sprint(e.st.Shape()); s2 != sh || e.st.Items() != it || e.st.Payload() != pay {
		e.fail("statistics changed over close/open: %s items=%d payload=%d, before: %s items=%d payload=%d", s2, e.st.Items(), e.st.Payload(), sh, it, pay)
	}
	if k, ok := e.someKey(); ok {
		v, had := e.st.Test([]byte(k), true)
		if !had || string(v) != e.m.m[k] {
			e.fail("after close/open key %s: present=%v value %s, want %s", q([]byte(k)), had, q(v), q([]byte(e.m.m[k])))
		}
	}
	if e.od {
		e.edges()
		e.ranges(1)
	} else if e.r.Intn(4) == 0 {
		e.scan()
	}
}

// edges asks for the ranges which begin or end next to the first or last key.
func (e *engine) edges() {
	ord := e.m.order()
	if len(ord) == 0 {
		e.rangeCheck([]byte{}, bptree.MaxKey, true)
		e.rangeCheck(bptree.MinKey, []byte{0xFF}, false)
		return
	}
	first, last := []byte(ord[0]), []byte(ord[len(ord)-1])
	after := append(append([]byte(nil), last...), 0)
	far := append([]byte(nil), last...)
	for len(far) < 3 || len(far) < 300 && e.r.Intn(2) == 0 {
		far = append(far, 0xFF)
	}
	before := []byte{}
	if len(first) > 0 {
		before = first[:len(first)-1]
	}
	switch e.r.Intn(4) {
	case 0:
		e.rangeCheck(after, bptree.MaxKey, true)
		e.rangeCheck(after, far, false)
	case 1:
		e.rangeCheck(last, after, true)
		e.rangeCheck(last, bptree.MaxKey, false)
	case 2:
		e.rangeCheck(bptree.MinKey, first, false)
		e.rangeCheck(before, first, true)
	default:
		e.rangeCheck(far, far, true)
		e.rangeCheck(before, before, false)
	}
}

func (e *engine) scan() {
	sc := e.st.(scanner)
	var c hashmap.Cursor
	seen := map[string]bool{}
	for {
		k, v, ok := sc.Scan(&c)
		if !ok {
			break
		}
		e.evals++
		if seen[string(k)] {
			e.fail("scan returns key %s twice", q(k))
		}
		seen[string(k)] = true
		want, had := e.m.m[string(k)]
		if !had {
			e.fail("scan returns key %s, which is not present", q(k))
		}
		if string(v) != want {
			e.fail("scan returns value %s for key %s, want %s", q(v), q(k), q([]byte(want)))
		}
	}
	if len(seen) != len(e.m.m) {
		e.fail("scan returns %d items of %d", len(seen), len(e.m.m))
	}
	for i := 0; i < 2; i++ {
		if _, _, ok := sc.Scan(&c); ok {
			e.fail("scan returns an item after the end")
		}
	}
}

func (e *engine) scribbleScan() {
	sc := e.st.(scanner)
	var c hashmap.Cursor
	n := 0
	for {
		k, v, ok := sc.Scan(&c)
		if !ok {
			break
		}
		e.evals++
		n++
		want, had := e.m.m[string(k)]
		if !had || string(v) != want {
			e.fail("scan returns %s=%s after earlier results were written to, want %s", q(k), q(v), q([]byte(want)))
		}
		if e.r.Intn(10) == 0 {
			e.hold(k, "key returned by Scan")
			e.hold(v, "value returned by Scan")
			continue
		}
		for i := range k {
			k[i] ^= 0xFF
		}
		for i := range v {
			v[i] ^= 0xFF
		}
	}
	if n != len(e.m.m) {
		e.fail("scan returns %d items of %d after its results were written to", n, len(e.m.m))
	}
}

func (e *engine) scribbleRange() {
	it := e.st.(ranger).RangeAsc(bptree.MinKey, bptree.MaxKey)
	ord := e.m.order()
	for i := 0; !it.IsAtEnd(); i++ {
		if i >= len(ord) {
			e.fail("range returns more records than present")
		}
		k, v, err := it.ReadRecordAll()
		if err != nil {
			e.fail("read: %v", err)
		}
		e.evals++
		if string(k) != ord[i] || string(v) != e.m.m[ord[i]] {
			e.fail("record %d of a range reads %s=%s after results were written to", i, q(k), q(v))
		}
		k2, _ := it.ReadKeyAll()
		v2, _ := it.ReadValueAll()
		if e.r.Intn(10) == 0 {
			e.hold(k, "key returned by ReadRecordAll")
			e.hold(v, "value returned by ReadRecordAll")
		} else {
			for i := range k {
				k[i] ^= 0xFF
			}
			for i := range v {
				v[i] ^= 0xFF
			}
		}
		if string(k2) != ord[i] || string(v2) != e.m.m[ord[i]] {
			e.fail("results of reads share memory")
		}
		for i := range k2 {
			k2[i] ^= 0xFF
		}
		for i := range v2 {
			v2[i] ^= 0xFF
		}
		it.Advance()
	}
}

func (e *engine) bound() []byte {
	ord := e.m.order()
	switch e.r.Intn(8) {
	case 0:
		return e.g.key()
	case 1:
		return bptree.MinKey
	case 2:
		return bptree.MaxKey
	}
	if len(ord) == 0 {
		return e.g.key()
	}
	k := []byte(ord[e.r.Intn(len(ord))])
	if e.r.Intn(2) == 0 {
		return k
	}
	return e.g.neighbour(k)
}

func (e *engine) ranges(n int) {
	for i := 0; i < n; i++ {
		a, b := e.bound(), e.bound()
		ord := e.m.order()
		if e.r.Intn(2) == 0 && len(ord) > 0 {
			// a narrow interval
			x := e.r.Intn(len(ord))
			y := x + e.r.Intn(4) - 1
			if y >= len(ord) {
				y = len(ord) - 1
			}
			if y < 0 {
				y = 0
			}
			a, b = []byte(ord[x]), []byte(ord[y])
			if e.r.Intn(2) == 0 {
				a = e.g.neighbour(a)
			}
			if e.r.Intn(2) == 0 {
				b = e.g.neighbour(b)
			}
		}
		if e.r.Intn(16) == 0 {
			b = a
		}
		e.rangeCheck(a, b, true)
		e.rangeCheck(a, b, false)
	}
}

// gaps asks for the range from just after each key up to the next.
func (e *engine) gaps(n int) {
	ord := e.m.order()
	step := 1 + len(ord)/n
	for i := e.r.Intn(step); i < len(ord); i += step {
		a := append([]byte(ord[i]), 0)
		j := i + 1 + e.r.Intn(3)
		if j >= len(ord) {
			j = len(ord) - 1
		}
		e.rangeCheck(a, []byte(ord[j]), true)
		e.rangeCheck([]byte(ord[i]), []byte(ord[j]), false)
	}
}

func same(a, b []byte) bool { return len(a) > 0 && len(b) > 0 && &a[0] == &b[0] }

func (e *engine) rangeCheck(a, b []byte, asc bool) {
	ord := e.m.order()
	lo, hi := 0, len(ord)
	name := "RangeAsc"
	if !asc {
		name = "RangeDesc"
	}
	isMin := func(x []byte) bool { return same(x, bptree.MinKey) }
	isMax := func(x []byte) bool { return same(x, bptree.MaxKey) }
	d := func(x []byte) string {
		if isMin(x) {
			return "MinKey"
		}
		if isMax(x) {
			return "MaxKey"
		}
		return q(x)
	}
	var want []string
	if len(ord) > 0 {
		ax, bx := string(a), string(b)
		if isMin(a) {
			ax = ord[0]
		} else if isMax(a) {
			ax = ord[len(ord)-1]
		}
		if isMin(b) {
			bx = ord[0]
		} else if isMax(b) {
			bx = ord[len(ord)-1]
		}
		lo = sort.SearchStrings(ord, ax)
		hi = sort.Search(len(ord), func(i int) bool { return ord[i] > bx })
		if lo < hi {
			want = ord[lo:hi]
		}
	}
	var it bptree.Iterator
	if asc {
		it = e.st.(ranger).RangeAsc(a, b)
	} else {
		it = e.st.(ranger).RangeDesc(a, b)
	}
	e.evals++
	for i := 0; ; i++ {
		if it.IsAtEnd() {
			if i != len(want) {
				e.fail("%s(%s, %s) ends after %d of %d records", name, d(a), d(b), i, len(want))
			}
			break
		}
		if i >= len(want) {
			k, _ := it.ReadKeyAll()
			e.fail("%s(%s, %s) goes on after its %d records with key %s", name, d(a), d(b), len(want), q(k))
		}
		w := want[i]
		if !asc {
			w = want[len(want)-1-i]
		}
		k, v, err := it.ReadRecordAll()
		if err != nil {
			e.fail("%s: read: %v", name, err)
		}
		if string(k) != w || string(v) != e.m.m[w] {
			e.fail("%s(%s, %s): record %d is %s=%s, want %s=%s", name, d(a), d(b), i, q(k), q(v), q([]byte(w)), q([]byte(e.m.m[w])))
		}
		if e.is("C06") {
			ks, err1 := it.GetKeySize()
			vs, err2 := it.GetValueSize()
			if err1 != nil || err2 != nil || ks != len(k) || vs != len(v) {
				e.fail("record %s=%s reports sizes %d and %d", q(k), q(v), ks, vs)
			}
		}
		it = it.Advance()
	}
	if e.is("C03", "C12") {
		if !it.Advance().IsAtEnd() {
			e.fail("%s: advancing at the end restarts the iteration", name)
		}
	}
}

func (e *engine) partial(n int) {
	ord := e.m.order()
	if len(ord) == 0 {
		return
	}
	rg := e.st.(ranger)
	for i := 0; i < n; i++ {
		k := ord[e.r.Intn(len(ord))]
		v := e.m.m[k]
		it := rg.RangeAsc([]byte(k), []byte(k))
		if e.r.Intn(2) == 0 {
			it = rg.RangeDesc([]byte(k), []byte(k))
		}
		if it.IsAtEnd() {
			e.fail("range of the present key %s is empty", q([]byte(k)))
		}
		if n, err := it.GetKeySize(); err != nil || n != len(k) {
			e.fail("key size of %s reported as %d (%v)", q([]byte(k)), n, err)
		}
		if n, err := it.GetValueSize(); err != nil || n != len(v) {
			e.fail("value size of %s reported as %d (%v)", q([]byte(v)), n, err)
		}
		for j := 0; j < 6; j++ {
			e.oneRead(it.ReadKey, k, 249, "ReadKey")
			e.oneRead(it.ReadValue, v, 121, "ReadValue")
		}
		it.Advance()
		buf := []byte{7, 7, 7}
		if _, err := it.ReadKey(0, buf); err == nil {
			e.fail("ReadKey at the end reports no error")
		}
		if _, err := it.ReadValue(0, buf); err == nil {
			e.fail("ReadValue at the end reports no error")
		}
		_, err1 := it.GetKeySize()
		_, err2 := it.GetValueSize()
		_, err3 := it.ReadKeyAll()
		_, err4 := it.ReadValueAll()
		_, _, err5 := it.ReadRecordAll()
		if err1 == nil || err2 == nil || err3 == nil || err4 == nil || err5 == nil {
			e.fail("a read at the end reports no error")
		}
		if string(buf) != "\x07\x07\x07" {
			e.fail("a read at the end wrote to the buffer")
		}
	}
}

func (e *engine) oneRead(f func(int, []byte) (int, error), data string, inline int, name string) {
	e.evals++
	spots := []int{0, 1, inline - 9, inline - 1, inline, inline + 1, inline + 7, inline + 8, inline + 9, len(data) - 1, len(data), len(data) + 1, len(data) + 300, e.r.Intn(len(data) + 2)}
	off := spots[e.r.Intn(len(spots))]
	end := spots[e.r.Intn(len(spots))] + e.r.Intn(3)
	if off < 0 {
		off = 0
	}
	n := end - off
	if n < 0 {
		n = e.r.Intn(4)
	}
	buf := make([]byte, n+8)
	e.r.Read(buf)
	was := append([]byte(nil), buf...)
	got, err := f(off, buf[:n])
	want := 0
	if off < len(data) {
		want = len(data) - off
		if want > n {
			want = n
		}
		copy(was, data[off:off+want])
	}
	if err != nil || got != want || !bytes.Equal(buf, was) {
		e.fail("%s of %d bytes at offset %d of a %d byte datum: %d bytes read, want %d; buffer right: %v (%v)", name, n, off, len(data), got, want, bytes.Equal(buf, was), err)
	}
}

func (e *engine) walk() {
	if !strict {
		return
	}
	var w *walkResult
	var addr int64
	var load func()
	switch s := e.st.(type) {
	case *lowHM:
		addr = s.hm.Store()
		w = walkMap(addr)
		load = func() { s.hm.Load(addr) }
	case *lowBP:
		addr = s.bp.Store()
		w = walkTree(addr)
		load = func() { s.bp.Load(addr) }
	default:
		return
	}
	e.evals++
	live := fsmLive()
	load()
	if w.err != "" {
		e.fail("%s", w.err)
	}
	if e.is("C09") {
		for a, n := range live {
			if !w.reach[a] {
				e.fail("space %d of %d bytes is leaked (%d items)", a, n, len(e.m.m))
			}
		}
		return
	}
	if e.is("C07") || e.is("C13") && e.od {
		if len(w.items) != len(e.m.m) {
			e.fail("the pages hold %d records, want %d", len(w.items), len(e.m.m))
		}
		for k, v := range w.items {
			if x, ok := e.m.m[k]; !ok || x != v {
				e.fail("the pages hold %s=%s", q([]byte(k)), q([]byte(v)))
			}
		}
	}
	sh := e.st.Shape()
	if e.od {
		e.treeShape(w, sh)
		return
	}
	if e.is("C10") && (sh[0] != w.slots || sh[1] != w.dirs || e.st.Items() != w.nItems) {
		e.fail("reported slots, slot directories, items %v %d, actual %d %d %d", sh, e.st.Items(), w.slots, w.dirs, w.nItems)
	}
}

// treeShape checks a walked tree.
func (e *engine) treeShape(w *walkResult, sh []int) {
	if e.is("C07") {
		if w.maxLeaf > 8172-8-257-129 {
			e.fail("a leaf is filled with %d bytes: no room for a maximal record", w.maxLeaf)
		}
		if w.maxNon > 8188-12-257 {
			e.fail("a non-leaf is filled with %d bytes: no room for a maximal child", w.maxNon)
		}
		if w.sepErr != "" {
			e.fail("%s", w.sepErr)
		}
		if w.listErr != "" {
			e.fail("%s", w.listErr)
		}
	}
	if e.is("C13") {
		for i := 1; i < len(w.order); i++ {
			if w.order[i-1] >= w.order[i] {
				e.fail("keys out of order along the leaves: %s then %s", q([]byte(w.order[i-1])), q([]byte(w.order[i])))
			}
		}
		if w.minLeaf < 2770 {
			e.fail("a leaf is filled with only %d bytes", w.minLeaf)
		}
		if w.minNon < 2869 {
			e.fail("a non-leaf is filled with only %d bytes", w.minNon)
		}
		if w.sepErr != "" {
			e.fail("%s", w.sepErr)
		}
	}
	if e.is("C10") && (sh[0] != w.height || sh[1] != w.leaves || sh[2] != w.nons || e.st.Items() != w.nItems) {
		e.fail("reported height, leaves, non-leaves, records %v %d, actual %d %d %d %d", sh, e.st.Items(), w.height, w.leaves, w.nons, w.nItems)
	}
}

// finish ends a history: everything is deleted and all space given back.
func (e *engine) finish() {
	if e.is("C11") {
		e.checkHeld()
	}
	if e.is("C09") && strict {
		keys := append([]string(nil), e.m.keys...)
		for _, k := range keys {
			e.clear(k)
			if e.step&255 == 0 {
				e.beat()
			}
		}
		e.clear("x") // a clear on an empty structure
		switch s := e.st.(type) {
		case *lowHM:
			s.hm.Destroy()
		case *lowBP:
			s.bp.Destroy()
		default:
			return
		}
		if n := len(fsmLive()); n != 0 {
			e.fail("%d spaces remain allocated after everything was deleted and destroyed", n)
		}
	}
	fsmCheck()
	if e.is("C01", "C02", "C05") {
		if err := e.st.Close(); err != nil {
			e.fail("close: %v", err)
		}
	}
}
