// Package vsched is a cooperative, deterministic scheduler for model checking Go code.
//
// Code under test is rewritten (cmd/instr) so that every synchronisation operation - channel
// operations, select, go, sync, sync/atomic, context, time - calls this package. Exactly one
// virtual thread runs at a time; at each operation the scheduler decides who runs next. Each
// decision with more than one option is recorded, so that an execution is a sequence of choices
// that can be replayed and enumerated (explore.go).
package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// VC is a vector clock, indexed by thread id.
type VC []uint32

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// SyncVar is the happens-before clock of a synchronisation object.
type SyncVar struct {
	epoch uint64
	vc    VC
	hb    hist
}

// hist summarises the operations on an object so far, for recognising equivalent executions:
// w covers the writes in order, r the reads since the last write in any order.
type hist struct {
	w, r uint64
	id   int32 // names the object within an execution (all.go)
}

func mix(a, b uint64) uint64 {
	x := a ^ (b+0x9e3779b97f4a7c15)*0xff51afd7ed558ccd
	x ^= x >> 32
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 29
	return x
}

func (t *Thread) touch(o *hist, write bool) {
	if G.all != nil {
		if write {
			G.note(o, kW)
		} else {
			G.note(o, kR)
		}
	}
	t.summarise(o, write)
}

func (t *Thread) summarise(o *hist, write bool) {
	if write {
		t.h = mix(mix(t.h, o.w), o.r)
		o.w, o.r = t.h, 0
	} else {
		t.h = mix(t.h, o.w+1)
		o.r += t.h
	}
}

// Touch notes that the running thread's operation depends on the object, or changes it. Harness
// objects and shims call it so that executions that differ in its order count as different.
func (o *SyncVar) Touch(write bool) {
	if G == nil || G.cur == nil {
		return
	}
	o.fresh()
	G.cur.touch(&o.hb, write)
}

func (o *SyncVar) fresh() {
	if G != nil && o.epoch != G.epoch {
		o.epoch = G.epoch
		o.vc = nil
		o.hb = hist{}
	}
}

// Acquire joins the object's clock into the running thread's.
func (o *SyncVar) Acquire() {
	if G == nil || G.cur == nil {
		return
	}
	o.fresh()
	G.cur.touch(&o.hb, true)
	G.cur.vc.join(o.vc)
}

// AcquireRead is Acquire for operations that commute with each other.
func (o *SyncVar) AcquireRead() {
	if G == nil || G.cur == nil {
		return
	}
	o.fresh()
	G.cur.touch(&o.hb, false)
	G.cur.vc.join(o.vc)
}

// Release publishes the running thread's clock through the object.
func (o *SyncVar) Release() {
	if G == nil || G.cur == nil {
		return
	}
	o.fresh()
	G.cur.touch(&o.hb, true)
	o.vc.join(G.cur.vc)
	G.cur.tick()
}

// ReleaseRead is Release for operations that commute with each other.
func (o *SyncVar) ReleaseRead() {
	if G == nil || G.cur == nil {
		return
	}
	o.fresh()
	G.cur.touch(&o.hb, false)
	o.vc.join(G.cur.vc)
	G.cur.tick()
}

// Thread is a virtual thread.
type Thread struct {
	ID      int
	Name    string
	wake    chan struct{}
	exited  chan struct{}
	op      *op
	done    bool
	vc      VC
	yields  int
	lastRun int
	sites   map[int]int
	started bool
	h       uint64 // summary of its operations and what they depended on
}

func (t *Thread) tick() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

type selCase struct {
	c    *chanState
	send bool
	val  any
	out  any
	ok   bool
}

type op struct {
	kind  string
	where string
	seq   int
	ready func() bool
	exec  func()
	// channel operations
	cases   []*selCase
	hasDef  bool
	chosen  int
	done    bool // completed by a partner
	isYield bool
	on      []*SyncVar // what ready looks at, if known
}

type bufItem struct {
	v  any
	vc VC
}

type chanState struct {
	ref     any
	rv      reflect.Value
	cap     int
	buf     []bufItem
	closed  bool
	closeVC VC
	name    int
	hb      hist
}

// Choice is one recorded decision.
type Choice struct {
	N      int  // number of options
	Chosen int  // option taken
	Sel    bool // a select among ready cases, or a harness choice, rather than a scheduling decision
	CurEn  bool // the running thread could have continued (switching away is a preemption)
}

// Blocked describes a thread that could not continue when the execution went quiet.
type Blocked struct {
	ID   int
	Name string
	Op   string
}

// Result of one execution.
type Result struct {
	Choices    []Choice
	Panic      string   // a thread panicked
	Livelock   string   // a thread looped without ever reaching quiescence
	Diverged   string   // replaying a prefix met a different choice
	Races      []string // conflicting unsynchronised accesses
	Blocked    []Blocked
	Steps      int
	Switches   int
	Preempt    int
	Trace      []string
	RootReturn bool
	Pruned     bool // reached a state that was explored before
	Unsuited   bool // has timers or polling, which only the bounded exploration handles
	Several    bool // several threads waited for the same side of a channel that was used
}

type accState struct {
	hb     hist
	p      unsafe.Pointer // keeps the object alive so that its address is not reused
	wT     int
	wC     uint32
	wWhere string
	reads  map[int]accRead
}
type accRead struct {
	c     uint32
	where string
}

type timer struct {
	when int64
	seq  int
	fire func()
	dead bool
}

// Sched is one execution.
type Sched struct {
	epoch   uint64
	threads []*Thread
	cur     *Thread
	prefix  []int
	res     *Result
	chans   map[uintptr]*chanState
	acc     map[uintptr]*accState
	killing bool
	ended   bool
	doneCh  chan struct{}
	opSeq   int
	loops   int
	opts    *Options
	timers  []*timer
	now     int64
	tseq    int
	raceSet map[string]bool
	atomics map[uintptr]*SyncVar
	nchan   int
	gh      uint64
	used    [3]int // preemptions, other switches, selects deviating so far
	visited visited
	all     *all
	nobj    int32
}

// visited maps states to the budgets they were explored with.
type visited map[uint64]visit
type visit struct {
	n uint8
	b [4][3]uint8
}

// seen tells whether the current state has been explored with at least as much left, and notes it.
func (s *Sched) seen() bool {
	fp := mix(s.gh, 1)
	var sum uint64
	for _, t := range s.threads {
		x := t.h
		if t.done {
			x = mix(x, 2)
		} else if t.op != nil && !t.op.done && t.started {
			// who has waited longest for a channel is served first
			for _, k := range t.op.cases {
				for _, u := range s.threads {
					if u == t || u.done || u.op == nil || u.op.done || !u.started {
						continue
					}
					for _, l := range u.op.cases {
						if l.c == k.c && l.send == k.send && k.c != nil && u.op.seq < t.op.seq {
							x = mix(x, u.h)
						}
					}
				}
			}
		}
		sum += mix(x, 3)
	}
	fp = mix(fp, sum)
	if s.opts.All { // nothing is counted, so it does not matter who ran last
		if s.visited[fp].n > 0 {
			return true
		}
		s.visited[fp] = visit{n: 1}
		return false
	}
	if s.cur != nil {
		fp = mix(fp, s.cur.h)
	}
	v := s.visited[fp]
	for i := 0; i < int(v.n); i++ {
		if int(v.b[i][0]) <= s.used[0] && int(v.b[i][1]) <= s.used[1] && int(v.b[i][2]) <= s.used[2] {
			return true
		}
	}
	if int(v.n) < len(v.b) {
		v.b[v.n] = [3]uint8{uint8(s.used[0]), uint8(s.used[1]), uint8(s.used[2])}
		v.n++
		s.visited[fp] = v
	}
	return false
}

// Options of a run.
type Options struct {
	StmtPoints  bool // scheduling points before statements too (coding harnesses)
	SiteLimit   int  // times one statement is a scheduling point per thread (0: 2)
	MaxSteps    int  // scheduling points before the execution counts as livelocked
	MaxLoops    int  // loop iterations without a scheduling point before it counts as spinning
	Trace       bool
	RaceDetect  bool
	CurFirstAll bool
	All         bool // explore every schedule: merge states whoever ran last and whatever was spent
}

// G is the execution in progress, if any.
var G *Sched

var epochCounter uint64

// Active tells whether the caller runs under the scheduler.
func Active() bool { return G != nil && G.cur != nil }

// Native tells that no execution is in progress.
func Native() bool { return G == nil }

// Killing tells whether the execution is being torn down.
func Killing() bool { return G != nil && G.killing }

func (s *Sched) trace(format string, a ...any) {
	if s.opts.Trace {
		s.res.Trace = append(s.res.Trace, fmt.Sprintf(format, a...))
	}
}

// choose records and returns a decision among n options.
func (s *Sched) choose(n int, sel, curEn bool) int {
	if n <= 1 {
		return 0
	}
	i := len(s.res.Choices)
	if s.all != nil {
		s.all.choiceEv = append(s.all.choiceEv, s.all.nev-1)
	}
	c := 0
	if i < len(s.prefix) {
		c = s.prefix[i]
		if c >= n {
			s.res.Diverged = fmt.Sprintf("choice %d: prefix takes option %d of %d", i, c, n)
			c = 0
		}
	}
	s.res.Choices = append(s.res.Choices, Choice{N: n, Chosen: c, Sel: sel, CurEn: curEn})
	if c > 0 {
		switch {
		case sel:
			s.used[2]++
		case curEn:
			s.used[0]++
			s.res.Preempt++
		default:
			s.used[1]++
		}
	}
	return c
}

// Choose lets a harness take a decision that is enumerated like any other.
func Choose(n int) int {
	if G == nil {
		return 0
	}
	return G.choose(n, true, false)
}

func (s *Sched) enabled(t *Thread) bool {
	if t.done {
		return false
	}
	o := t.op
	if o == nil {
		return true
	}
	if o.done {
		return true
	}
	if o.cases != nil || o.kind == "select" {
		if o.hasDef {
			return true
		}
		for _, c := range o.cases {
			if s.caseReady(t, c) {
				return true
			}
		}
		return false
	}
	if o.ready == nil {
		return true
	}
	return o.ready()
}

func (s *Sched) waiting(self *Thread, c *chanState, send bool) (*Thread, int) {
	var best *Thread
	bi := -1
	for _, t := range s.threads {
		if t == self || t.done || t.op == nil || t.op.done || t.op.cases == nil {
			continue
		}
		if !t.started {
			continue
		}
		for i, k := range t.op.cases {
			if k.c == c && k.send == send && c != nil {
				if best == nil || t.op.seq < best.op.seq {
					best, bi = t, i
				}
				break
			}
		}
	}
	return best, bi
}

func (s *Sched) caseReady(t *Thread, k *selCase) bool {
	c := k.c
	if c == nil {
		return false
	}
	if k.send {
		if c.closed || len(c.buf) < c.cap {
			return true
		}
		if len(c.buf) > 0 {
			return false
		}
		w, _ := s.waiting(t, c, false)
		return w != nil
	}
	if len(c.buf) > 0 || c.closed {
		return true
	}
	w, _ := s.waiting(t, c, true)
	return w != nil
}

// pick decides which thread runs next; nil if none can.
func (s *Sched) pick() *Thread {
	for {
		var opts []*Thread
		curEn := false
		if s.cur != nil && s.enabled(s.cur) {
			if !(s.cur.op != nil && s.cur.op.isYield) {
				opts = append(opts, s.cur)
				curEn = true
			}
		}
		var yielding []*Thread
		for _, t := range s.threads {
			if (t == s.cur && curEn) || !s.enabled(t) {
				continue
			}
			if t.op != nil && t.op.isYield && !t.op.done {
				yielding = append(yielding, t)
				continue
			}
			opts = append(opts, t)
		}
		if len(opts) == 0 && len(yielding) > 0 {
			sort.Slice(yielding, func(i, j int) bool { return yielding[i].lastRun < yielding[j].lastRun })
			opts = yielding[:1]
		}
		if s.all != nil {
			if len(yielding) > 0 {
				s.res.Unsuited = true
				return nil
			}
			if len(opts) > 0 {
				i := s.all.pick(s, opts, curEn)
				if i < 0 {
					s.res.Pruned = true
					return nil
				}
				return opts[i]
			}
		}
		if len(opts) > 1 && s.visited != nil && len(s.res.Choices) >= len(s.prefix) && s.seen() {
			s.res.Pruned = true
			return nil
		}
		if len(opts) > 0 {
			i := s.choose(len(opts), false, curEn)
			return opts[i]
		}
		if s.pollForeign() || s.fireTimer() {
			continue
		}
		return nil
	}
}

// pollForeign looks at the native side of channels somebody is waiting on: code outside the
// scheduler (the standard library) may have closed them or sent to them.
func (s *Sched) pollForeign() bool {
	any := false
	for _, t := range s.threads {
		if t.done || t.op == nil || t.op.done {
			continue
		}
		for _, k := range t.op.cases {
			if k.c == nil || k.send || k.c.closed {
				continue
			}
			if !k.c.rv.IsValid() || k.c.rv.Kind() != reflect.Chan {
				continue
			}
			v, ok := k.c.rv.TryRecv()
			if ok {
				k.c.buf = append(k.c.buf, bufItem{v: v.Interface()})
				any = true
			} else if v.IsValid() { // closed
				k.c.closed = true
				any = true
			}
			if any {
				s.idleMix(7)
			}
		}
	}
	return any
}

func (s *Sched) fireTimer() bool {
	var best *timer
	bi := -1
	for i, t := range s.timers {
		if t.dead {
			continue
		}
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best, bi = t, i
		}
	}
	if best == nil {
		return false
	}
	s.timers = append(s.timers[:bi], s.timers[bi+1:]...)
	if best.when > s.now {
		s.now = best.when
	}
	best.dead = true
	s.idleMix(uint64(best.when))
	s.trace("timer fires at %d", s.now)
	best.fire()
	return true
}

// idleMix notes an event that happens only when nothing can run.
func (s *Sched) idleMix(x uint64) {
	s.res.Unsuited = true
	s.gh = mix(s.gh, x)
	for _, t := range s.threads {
		s.gh += mix(t.h, 5)
	}
}

// AddTimer registers a virtual timer; it fires only when no thread can run.
func AddTimer(d int64, fire func()) (stop func() bool) {
	if G == nil {
		return func() bool { return false }
	}
	s := G
	s.tseq++
	if d < 0 {
		d = 0
	}
	t := &timer{when: s.now + d, seq: s.tseq, fire: fire}
	s.timers = append(s.timers, t)
	return func() bool { was := !t.dead; t.dead = true; return was }
}

// Now is the virtual time in nanoseconds.
func Now() int64 {
	if G == nil {
		return idle
	}
	return G.now
}

// Ask is Now, asked by the code under test.
func Ask() int64 {
	asked = true
	clockVar.Touch(false)
	return Now()
}

// Elapse lets time pass. Timers fire later, when no thread can run.
func Elapse(d int64) {
	if d == 0 {
		return
	}
	if G == nil {
		idle += d
		return
	}
	clockVar.Touch(true)
	G.now += d
}

// ResetIdle undoes what Elapse did outside executions.
func ResetIdle() { idle = 0 }

// Asked tells whether anything has ever asked for the time.
func Asked() bool { return asked }

var (
	clockVar SyncVar
	idle     int64
	asked    bool
)

func (s *Sched) end() {
	if !s.ended {
		s.ended = true
		close(s.doneCh)
	}
}

// transfer hands control from t (whose op is set, or who is done) to the next thread.
// It returns when t is scheduled again.
func (s *Sched) transfer(t *Thread) {
	s.res.Steps++
	s.loops = 0
	if s.opts.MaxSteps > 0 && s.res.Steps > s.opts.MaxSteps {
		if s.res.Livelock == "" {
			s.res.Livelock = fmt.Sprintf("no end after %d steps; running: %s", s.res.Steps, s.describe())
		}
		s.stop(t)
		return
	}
	n := s.pick()
	if n == nil || s.res.Diverged != "" {
		s.stop(t)
		return
	}
	n.lastRun = s.res.Steps
	if n == t {
		return
	}
	s.res.Switches++
	s.cur = n
	n.wake <- struct{}{}
	if t.done {
		return
	}
	<-t.wake
	if s.killing {
		runtime.Goexit()
	}
}

// stop ends the execution; the calling thread never continues.
func (s *Sched) stop(t *Thread) {
	s.end()
	if t.done {
		return
	}
	<-t.wake
	runtime.Goexit()
}

func (s *Sched) describe() string {
	var b []string
	for _, t := range s.threads {
		if t.done {
			continue
		}
		k := "running"
		if t.op != nil {
			k = t.op.kind
		}
		b = append(b, fmt.Sprintf("%s:%s", t.Name, k))
	}
	return strings.Join(b, " ")
}

func (s *Sched) do(o *op) {
	t := s.cur
	if s.killing {
		runtime.Goexit()
	}
	s.opSeq++
	o.seq = s.opSeq
	t.op = o
	if s.all != nil {
		for _, k := range o.cases {
			if k.c != nil {
				s.note(&k.c.hb, postKind(k.send))
			}
		}
	}
	s.transfer(t)
	if o.cases != nil || o.kind == "select" {
		if !o.done {
			s.execSelect(t, o)
		}
	} else if o.exec != nil {
		o.exec()
	}
	t.h = mix(t.h, 11)
	t.op = nil
	if s.opts.Trace {
		x := ""
		if o.cases != nil {
			x = fmt.Sprintf(" case %d", o.chosen)
			if o.chosen >= 0 {
				x += fmt.Sprintf(" ch%d", o.cases[o.chosen].c.name)
			}
		}
		s.trace("%s: %s%s", t.Name, o.kind, x)
	}
}

func (s *Sched) execSelect(t *Thread, o *op) {
	var ready []int
	for i, k := range o.cases {
		if s.caseReady(t, k) {
			ready = append(ready, i)
		}
	}
	for _, k := range o.cases {
		if k.c != nil {
			t.summarise(&k.c.hb, false)
			if s.all != nil {
				s.note(&k.c.hb, readyKind(k.send))
			}
		}
	}
	if len(ready) == 0 {
		o.chosen = -1
		return
	}
	i := ready[s.choose(len(ready), true, false)]
	o.chosen = i
	t.h = mix(t.h, uint64(i)+17)
	s.execCase(t, o.cases[i])
}

func (s *Sched) execCase(t *Thread, k *selCase) {
	c := k.c
	if len(c.buf) > 0 || !c.closed {
		t.touch(&c.hb, true)
	}
	if k.send {
		if c.closed {
			t.op = nil
			panic("send on closed channel")
		}
		if w, wi := s.waiting(t, c, false); w != nil && len(c.buf) == 0 {
			wk := w.op.cases[wi]
			wk.out, wk.ok = k.val, true
			w.op.done, w.op.chosen = true, wi
			s.meet(t, w, c)
			t.vc.join(w.vc)
			w.vc.join(t.vc)
			t.tick()
			w.tick()
			return
		}
		c.buf = append(c.buf, bufItem{k.val, t.vc.clone()})
		t.tick()
		return
	}
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = append([]bufItem(nil), c.buf[1:]...)
		k.out, k.ok = it.v, true
		t.vc.join(it.vc)
		if w, wi := s.waiting(t, c, true); w != nil {
			wk := w.op.cases[wi]
			c.buf = append(c.buf, bufItem{wk.val, w.vc.clone()})
			w.op.done, w.op.chosen = true, wi
			s.meet(t, w, c)
			w.vc.join(t.vc)
			w.tick()
		}
		t.tick()
		return
	}
	if w, wi := s.waiting(t, c, true); w != nil {
		wk := w.op.cases[wi]
		k.out, k.ok = wk.val, true
		w.op.done, w.op.chosen = true, wi
		s.meet(t, w, c)
		t.vc.join(w.vc)
		w.vc.join(t.vc)
		t.tick()
		w.tick()
		return
	}
	// closed
	k.out, k.ok = nil, false
	t.vc.join(c.closeVC)
}

// meet notes a rendezvous of t with the waiting w.
func (s *Sched) meet(t, w *Thread, c *chanState) {
	if s.all != nil {
		s.all.meet(s, t, w, c)
	}
	x := mix(mix(t.h, w.h), uint64(w.op.chosen)+19)
	t.h, w.h = x, mix(x, 23)
	c.hb.w = x
}

// Point is a plain scheduling point.
func Point(kind string) {
	if G == nil || G.cur == nil {
		return
	}
	G.do(&op{kind: kind})
}

// Block waits until ready() holds, then runs exec atomically. Both run under the scheduler and
// must not block.
func Block(kind string, ready func() bool, exec func()) {
	if G == nil || G.cur == nil {
		if exec != nil {
			exec()
		}
		return
	}
	G.do(&op{kind: kind, ready: ready, exec: exec})
}

// BlockOn is Block where ready depends on the given objects only.
func BlockOn(kind string, ready func() bool, exec func(), on ...*SyncVar) {
	if G == nil || G.cur == nil {
		if exec != nil {
			exec()
		}
		return
	}
	G.do(&op{kind: kind, ready: ready, exec: exec, on: on})
}

// Yield lets the others run first.
func Yield() {
	if G == nil || G.cur == nil {
		runtime.Gosched()
		return
	}
	G.do(&op{kind: "yield", isYield: true})
}

// Pt is a statement-level scheduling point.
func Pt(site int) {
	if G == nil || !G.opts.StmtPoints || G.killing {
		return
	}
	t := G.cur
	if t == nil {
		return
	}
	lim := G.opts.SiteLimit
	if lim == 0 {
		lim = 2
	}
	if t.sites == nil {
		t.sites = map[int]int{}
	}
	if t.sites[site] >= lim {
		return
	}
	t.sites[site]++
	G.do(&op{kind: "stmt"})
}

// Loop is called at the start of every loop iteration.
func Loop() {
	s := G
	if s == nil || s.cur == nil || s.opts.MaxLoops == 0 {
		return
	}
	s.loops++
	if s.loops > s.opts.MaxLoops {
		if s.killing {
			runtime.Goexit()
		}
		t := s.cur
		if s.res.Livelock == "" {
			s.res.Livelock = fmt.Sprintf("thread %s spins: %d loop iterations without any synchronisation or transport operation\n%s", t.Name, s.loops, trimStack(debug.Stack()))
		}
		s.stop(t)
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "vsched.") || strings.Contains(l, "runtime/debug") || strings.Contains(l, "/vsched/") || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		out = append(out, l)
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Go starts a virtual thread.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a named virtual thread.
func GoNamed(name string, f func()) {
	if G == nil {
		go f()
		return
	}
	s := G
	if s.killing {
		return
	}
	t := s.newThread(name)
	if s.cur != nil {
		t.vc.join(s.cur.vc)
		s.cur.tick()
		s.cur.h = mix(s.cur.h, 29)
		t.h = mix(s.cur.h, 31)
		if s.all != nil {
			s.all.joins(s, t)
		}
	}
	t.tick()
	s.launch(t, f)
	if s.cur != nil && s.cur.started {
		s.do(&op{kind: "go " + t.Name})
	}
}

// GoLater starts a virtual thread without a scheduling point.
func GoLater(f func()) { GoQuiet("", f) }

// GoQuiet starts a named virtual thread without a scheduling point.
func GoQuiet(name string, f func()) {
	if G == nil {
		go f()
		return
	}
	s := G
	if s.killing {
		return
	}
	t := s.newThread(name)
	if s.cur != nil {
		t.vc.join(s.cur.vc)
		s.cur.tick()
		s.cur.h = mix(s.cur.h, 29)
		t.h = mix(s.cur.h, 31)
		if s.all != nil {
			s.all.joins(s, t)
		}
	}
	t.tick()
	s.launch(t, f)
}

// TrySend puts v into a buffered channel if there is room, without a scheduling point (timers).
func TrySend[T any](ch chan T, v T) {
	if G == nil || G.killing {
		return
	}
	c := stateOf(ch, cap(ch))
	if w, wi := G.waiting(nil, c, false); w != nil && len(c.buf) == 0 {
		k := w.op.cases[wi]
		k.out, k.ok = v, true
		w.op.done, w.op.chosen = true, wi
		w.h = mix(w.h, G.gh)
		return
	}
	c.hb.w = mix(c.hb.w, G.gh)
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, bufItem{v: v})
	}
}

// RM records a read of the map's contents and returns it.
func RM[M ~map[K]V, K comparable, V any](m M) M {
	if G != nil && G.acc != nil && m != nil {
		access(mapPtr(m), false)
	}
	return m
}

// WM records a write of the map's contents and returns it.
func WM[M ~map[K]V, K comparable, V any](m M) M {
	if G != nil && G.acc != nil && m != nil {
		access(mapPtr(m), true)
	}
	return m
}

func mapPtr(m any) unsafe.Pointer { return iface(m) }

// RS records a read of the elements of a slice and returns the slice.
func RS[S ~[]E, E any](x S) S {
	if G != nil && G.acc != nil {
		elems(x, len(x), false)
	}
	return x
}

// WS records a write of the elements of a slice and returns the slice.
func WS[S ~[]E, E any](x S) S {
	if G != nil && G.acc != nil {
		elems(x, len(x), true)
	}
	return x
}

// RSN records a read of the first n elements.
func RSN[S ~[]E, E any](x S, n int) S {
	if G != nil && G.acc != nil {
		elems(x, n, false)
	}
	return x
}

// WSN records a write of the first n elements.
func WSN[S ~[]E, E any](x S, n int) S {
	if G != nil && G.acc != nil {
		elems(x, n, true)
	}
	return x
}

// WS1 records a write of the first element: what reading into a slice writes at least.
func WS1[S ~[]E, E any](x S) S {
	return WSN(x, 1)
}

// Append is append; written in place, it writes the memory behind a.
func Append[S ~[]E, E any](a S, b ...E) S {
	if n := len(a) + len(b); G != nil && G.acc != nil && n <= cap(a) {
		elems(a[len(a):n], len(b), true)
	}
	return append(a, b...)
}

// C2 records what copy(dst, src) does and returns dst.
func C2[S ~[]E, T ~[]E, E any](dst S, src T) (S, T) {
	if G != nil && G.acc != nil {
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		elems(dst, n, true)
		elems(src, n, false)
	}
	return dst, src
}

func elems[E any](x []E, n int, write bool) {
	if n > len(x) {
		n = len(x)
	}
	if n > 32 {
		n = 32
	}
	for i := 0; i < n; i++ {
		access(unsafe.Pointer(&x[i]), write)
	}
}

func (s *Sched) newThread(name string) *Thread {
	t := &Thread{ID: len(s.threads), Name: name, wake: make(chan struct{}, 1), exited: make(chan struct{})}
	if name == "" {
		t.Name = fmt.Sprintf("g%d", t.ID)
	}
	t.op = &op{kind: "start"}
	s.threads = append(s.threads, t)
	return t
}

func (s *Sched) launch(t *Thread, f func()) {
	go func() {
		defer close(t.exited)
		<-t.wake
		if s.killing {
			t.done = true
			return
		}
		t.started = true
		t.op = nil
		t.h = mix(t.h, 37)
		defer func() {
			if s.killing {
				t.done = true
				recover()
				return
			}
			if r := recover(); r != nil {
				t.done = true
				s.res.Panic = fmt.Sprintf("panic in %s: %v\n%s", t.Name, r, trimStack(debug.Stack()))
				s.end()
				return
			}
			t.done = true
			t.op = nil
			if t.ID == 0 {
				s.res.RootReturn = true
			}
			s.trace("%s: end", t.Name)
			s.transfer(t)
		}()
		f()
	}()
}

// Run executes body as thread 0 under the scheduler, following prefix and then option 0.
func Run(opts *Options, prefix []int, body func()) *Result {
	return run(opts, prefix, nil, nil, body)
}

func run(opts *Options, prefix []int, seen visited, a *all, body func()) *Result {
	epochCounter++
	s := &Sched{epoch: epochCounter, prefix: prefix, res: &Result{}, chans: map[uintptr]*chanState{}, doneCh: make(chan struct{}), opts: opts, visited: seen, all: a}
	if opts.RaceDetect {
		s.acc = map[uintptr]*accState{}
	}
	if G != nil {
		panic("vsched: nested Run")
	}
	G = s
	if a != nil {
		a.begin()
	}
	t := s.newThread("root")
	t.tick()
	s.cur = t
	s.launch(t, body)
	t.wake <- struct{}{}
	<-s.doneCh
	// quiescence, panic, livelock or divergence: note who is left, then unwind them
	for _, t := range s.threads {
		if !t.done {
			k := "running"
			if t.op != nil {
				k = t.op.kind
			}
			s.res.Blocked = append(s.res.Blocked, Blocked{t.ID, t.Name, k})
		}
	}
	if a != nil {
		a.pending(s)
	}
	s.killing = true
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		select {
		case <-t.exited:
			continue
		default:
		}
		s.cur = t
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-t.exited
	}
	G = nil
	return s.res
}

// ---- channels ----

func iface(x any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1] }

func (s *Sched) state(p uintptr, mk func() (any, reflect.Value, int)) *chanState {
	if p == 0 {
		return nil
	}
	c := s.chans[p]
	if c == nil {
		ref, rv, cp := mk()
		s.nchan++
		c = &chanState{ref: ref, rv: rv, cap: cp, name: s.nchan}
		s.chans[p] = c
	}
	return c
}

func stateOf(ch any, cp int) *chanState {
	p := uintptr(iface(ch))
	return G.state(p, func() (any, reflect.Value, int) {
		rv := reflect.ValueOf(ch)
		if rv.Type().ChanDir()&reflect.RecvDir == 0 {
			rv = reflect.Value{}
		}
		return ch, rv, cp
	})
}

// upgrade remembers a receivable view of the channel for pollForeign.
func (c *chanState) upgrade(ch any) *chanState {
	if c != nil && !c.rv.IsValid() {
		rv := reflect.ValueOf(ch)
		if rv.Type().ChanDir()&reflect.RecvDir != 0 {
			c.rv = rv
		}
	}
	return c
}

func cast[T any](x any) T {
	v, _ := x.(T)
	return v
}

// Send is ch <- v, curried.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if G == nil || G.cur == nil {
			ch <- v
			return
		}
		if G.killing {
			runtime.Goexit()
		}
		G.do(&op{kind: "send", cases: []*selCase{{c: stateOf(ch, cap(ch)), send: true, val: v}}})
	}
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if G == nil || G.cur == nil {
		v, ok := <-ch
		return v, ok
	}
	if G.killing {
		runtime.Goexit()
	}
	k := &selCase{c: stateOf(ch, cap(ch)).upgrade(ch)}
	G.do(&op{kind: "recv", cases: []*selCase{k}})
	return cast[T](k.out), k.ok
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if G == nil || G.cur == nil {
		close(ch)
		return
	}
	if G.killing {
		return
	}
	if ch == nil {
		panic("close of nil channel")
	}
	G.do(&op{kind: "close", exec: func() { closeNow(ch) }})
}

// CloseNow closes without a scheduling point.
func CloseNow[T any](ch chan<- T) {
	if G == nil {
		close(ch)
		return
	}
	closeNow(ch)
}

func closeNow[T any](ch chan<- T) {
	c := stateOf(ch, cap(ch))
	if c.closed {
		G.cur.op = nil
		panic("close of closed channel")
	}
	c.closed = true
	if G.cur != nil {
		G.cur.summarise(&c.hb, true)
		if G.all != nil {
			G.note(&c.hb, kC)
		}
		c.closeVC = G.cur.vc.clone()
		G.cur.tick()
	}
	func() {
		defer func() { recover() }()
		close(ch)
	}()
	// receivers and senders waiting become enabled by c.closed
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	if G == nil {
		return len(ch)
	}
	c := stateOf(ch, cap(ch))
	if c == nil {
		return 0
	}
	if G.cur != nil {
		G.cur.touch(&c.hb, false)
	}
	return len(c.buf)
}

// IsClosed tells, without a scheduling point, whether ch has been closed (for harness oracles).
func IsClosed[T any](ch <-chan T) bool {
	if G == nil {
		return false
	}
	c := stateOf(ch, cap(ch))
	if c != nil && G.cur != nil {
		G.cur.touch(&c.hb, false)
	}
	return c != nil && c.closed
}

// Case is one prepared case of a select.
type Case[T any] struct {
	ch <-chan T
	k  *selCase
}

// AnyCase is a Case of any element type.
type AnyCase interface{ sel() *selCase }

func (c *Case[T]) sel() *selCase { return c.k }

// Val is the received value.
func (c *Case[T]) Val() T { return cast[T](c.k.out) }

// Val2 is the received value and whether it was sent.
func (c *Case[T]) Val2() (T, bool) { return cast[T](c.k.out), c.k.ok }

// RecvCase prepares a receive case.
func RecvCase[T any](ch <-chan T) *Case[T] {
	if G == nil {
		return &Case[T]{ch: ch, k: &selCase{}}
	}
	return &Case[T]{ch: ch, k: &selCase{c: stateOf(ch, cap(ch)).upgrade(ch)}}
}

// SendCase prepares a send case, curried.
func SendCase[T any](ch chan<- T) func(T) *Case[T] {
	return func(v T) *Case[T] {
		if G == nil {
			return &Case[T]{k: &selCase{send: true, val: v}}
		}
		return &Case[T]{k: &selCase{c: stateOf(ch, cap(ch)), send: true, val: v}}
	}
}

// Select runs a select statement; -1 is the default case.
func Select(hasDefault bool, cases ...AnyCase) int {
	if G == nil || G.cur == nil {
		panic("vsched: select outside the scheduler")
	}
	if G.killing {
		runtime.Goexit()
	}
	o := &op{kind: "select", hasDef: hasDefault}
	for _, c := range cases {
		o.cases = append(o.cases, c.sel())
	}
	t := G.cur
	if hasDefault {
		if t.yields >= 3 {
			o.isYield = true
		}
	}
	G.do(o)
	if o.chosen == -1 {
		t.yields++
	} else {
		t.yields = 0
	}
	return o.chosen
}

// Progress resets the polling heuristic of the running thread (called by harness transports).
func Progress() {
	if G != nil && G.cur != nil {
		G.cur.yields = 0
	}
}

// ---- shared memory accesses ----

// RP records a read of *p and returns p.
func RP[T any](p *T) *T {
	if G != nil && G.acc != nil && p != nil {
		span(unsafe.Pointer(p), unsafe.Sizeof(*p), false)
	}
	return p
}

// W records a write through the pointer.
func W[T any](p *T) {
	if G != nil && G.acc != nil && p != nil {
		span(unsafe.Pointer(p), unsafe.Sizeof(*p), true)
	}
}

// WP records a write to *p and returns p.
func WP[T any](p *T) *T {
	W(p)
	return p
}

// span records an access to n bytes at p: small values by their address, larger ones (structs,
// arrays) byte by byte so that an access to a part of them is seen as one to the same memory.
func span(p unsafe.Pointer, n uintptr, write bool) {
	if n == 0 {
		return
	}
	if n <= 8 {
		access(p, write)
		return
	}
	if n > 1024 {
		n = 1024
	}
	for i := uintptr(0); i < n; i++ {
		access(unsafe.Pointer(uintptr(p)+i), write)
	}
}

func caller() string {
	if !G.opts.Trace {
		return "?" // found again by replaying the execution
	}
	for i := 3; i < 8; i++ {
		_, f, l, ok := runtime.Caller(i)
		if !ok {
			break
		}
		if strings.Contains(f, "/vsched/") {
			continue
		}
		if j := strings.LastIndex(f, "/"); j >= 0 {
			f = f[j+1:]
		}
		return fmt.Sprintf("%s:%d", f, l)
	}
	return "?"
}

func access(p unsafe.Pointer, write bool) {
	s := G
	t := s.cur
	if t == nil || s.killing || s.ended {
		return
	}
	a := s.acc[uintptr(p)]
	if a == nil {
		a = &accState{p: p, wT: -1}
		s.acc[uintptr(p)] = a
	}
	t.summarise(&a.hb, write)
	if write && a.wT == t.ID && a.wC == t.vc.at(t.ID) && len(a.reads) == 0 {
		return
	}
	if a.wT >= 0 && a.wT != t.ID && t.vc.at(a.wT) < a.wC {
		s.race(a.wWhere, "write", s.threads[a.wT].Name, write, t.Name)
	}
	if write {
		for id, r := range a.reads {
			if id != t.ID && t.vc.at(id) < r.c {
				s.race(r.where, "read", s.threads[id].Name, true, t.Name)
			}
		}
		a.wT, a.wC, a.wWhere = t.ID, t.vc.at(t.ID), caller()
		a.reads = nil
	} else {
		if r, ok := a.reads[t.ID]; ok && r.c == t.vc.at(t.ID) {
			return
		}
		if a.reads == nil {
			a.reads = map[int]accRead{}
		}
		a.reads[t.ID] = accRead{t.vc.at(t.ID), caller()}
	}
}

func (s *Sched) race(where, kind, who string, write bool, me string) {
	k2 := "read"
	if write {
		k2 = "write"
	}
	d := fmt.Sprintf("data race: %s at %s by %s, %s at %s by %s", kind, where, who, k2, caller(), me)
	if s.raceSet == nil {
		s.raceSet = map[string]bool{}
	}
	if !s.raceSet[d] {
		s.raceSet[d] = true
		s.res.Races = append(s.res.Races, d)
	}
}

// AtomicVar is the clock of a memory word used with sync/atomic functions.
func AtomicVar(p unsafe.Pointer) *SyncVar {
	if G == nil {
		return &SyncVar{}
	}
	if G.atomics == nil {
		G.atomics = map[uintptr]*SyncVar{}
	}
	v := G.atomics[uintptr(p)]
	if v == nil {
		v = &SyncVar{}
		G.atomics[uintptr(p)] = v
	}
	return v
}

// Epoch identifies the execution; objects left over from another one reset themselves.
func Epoch() uint64 {
	if G == nil {
		return 0
	}
	return G.epoch
}

// CurName names the running thread.
func CurName() string {
	if G == nil || G.cur == nil {
		return "-"
	}
	return G.cur.Name
}

// NumThreads that have not ended.
func LiveThreads() (n int) {
	if G == nil {
		return 0
	}
	for _, t := range G.threads {
		if !t.done {
			n++
		}
	}
	return
}

// Gosched replaces runtime.Gosched.
func Gosched(func()) { Yield() }
