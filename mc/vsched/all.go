package vsched

import (
	"math/bits"
	"time"
)

// Exploration of every schedule, without a bound on preemptions, by dynamic partial-order
// reduction with sleep sets (source sets): of the schedules that differ only in the order of
// independent steps, one is run.
//
// A step (event) is what a thread does from one scheduling point to the next: the operation it was
// waiting to do, the code after it, and the posting of its next operation. Its footprint is the set
// of objects it used and how. Steps of different threads are dependent if their footprints conflict.
// After each execution every pair of conflicting steps that is not ordered by what happened before
// the later step's thread got there is considered the other way round.

// Kinds of use of an object.
const (
	kR      = 1 << iota // looked at
	kW                  // changed
	kC                  // channel closed
	kRR                 // channel looked at by an operation that receives
	kRS                 // channel looked at by an operation that sends
	kPS                 // send posted
	kPR                 // receive posted
	nKinds  = 7
	allKind = 1<<nKinds - 1
)

func postKind(send bool) uint8 {
	if send {
		return kPS
	}
	return kPR
}

func readyKind(send bool) uint8 {
	if send {
		return kRS
	}
	return kRR
}

// against gives the kinds that conflict with each set of kinds; posts of the same kind conflict
// only in strict mode, when several threads wait for the same side of a channel.
var against, againstStrict [allKind + 1]uint8

func init() {
	c := map[uint8]uint8{
		kR: kW | kC, kW: allKind, kC: kR | kW | kC | kRR | kRS,
		kRR: kW | kC | kPS, kRS: kW | kC | kPR, kPS: kW | kRR, kPR: kW | kRS,
	}
	for m := 1; m <= allKind; m++ {
		for k, v := range c {
			if m&int(k) != 0 {
				against[m] |= v
				againstStrict[m] |= v
				if k == kPS || k == kPR {
					againstStrict[m] |= k
				}
			}
		}
	}
}

type use struct {
	id int32 // object, or -1-thread
	k  uint8
}

type event struct {
	t       int
	foot    []use
	pass    int   // thread whose operation this step completed, -1 if none
	skip    bool  // that thread could only have done the same
	join    []int // earlier steps that gave rise to this one otherwise than through objects
	univ    bool  // conflicts with everything
	clock   []int32
	pseudo  bool
	enabled uint64
}

type sleeper struct {
	t    int
	foot []use
	nobj int32
}

type node struct {
	opts    []int // threads, in the order of the options
	enabled uint64
	back    uint64 // to explore
	done    uint64 // explored or being explored
	asleep  uint64
	sleep   []sleeper // asleep when the state was reached, and those explored since
	cur     int
	foot    []use // of cur's step, over all its outcomes
	nobj    int32
	choice  int // index of the choice, -1 if there was one option
}

// all is an exploration.
type all struct {
	strict   bool
	nodes    []node // per event of the current execution; nodes[0] is unused
	events   []event
	nev      int
	choiceEv []int // event of each choice
	pend     []int // per thread: the step it must be ordered after
	pendJoin map[int][]int
	last     []int
	prevOf   []int
	objs     [][]int // events per object
	clocks   []int32
	objClk   map[int64][]int32
}

func (s *Sched) note(o *hist, k uint8) {
	a := s.all
	if a == nil || a.nev == 0 || s.killing {
		return
	}
	if o.id == 0 {
		s.nobj++
		o.id = s.nobj
	}
	e := &a.events[a.nev-1]
	e.foot = addUse(e.foot, use{o.id, k})
}

func addUse(f []use, u use) []use {
	for i := range f {
		if f[i].id == u.id {
			f[i].k |= u.k
			return f
		}
	}
	return append(f, u)
}

func (a *all) begin() {
	a.nev = 0
	a.choiceEv = a.choiceEv[:0]
	a.pendJoin = map[int][]int{}
	a.next(0, 1)
}

func (a *all) next(t int, enabled uint64) *event {
	if a.nev == len(a.events) {
		a.events = append(a.events, event{})
	}
	e := &a.events[a.nev]
	a.nev++
	*e = event{t: t, foot: e.foot[:0], pass: -1, join: a.pendJoin[t], clock: e.clock, enabled: enabled}
	delete(a.pendJoin, t)
	return e
}

// joins notes that thread t's next step comes after the current one.
func (a *all) joins(s *Sched, t *Thread) {
	a.pendJoin[t.ID] = append(a.pendJoin[t.ID], a.nev-1)
}

// meet notes that t completes the operation of the waiting w.
func (a *all) meet(s *Sched, t, w *Thread, c *chanState) {
	e := &a.events[a.nev-1]
	e.pass = w.ID
	a.joins(s, w)
	k := w.op.cases[w.op.chosen]
	for _, x := range w.op.cases {
		if x.c != nil {
			s.note(&x.c.hb, readyKind(x.send))
		}
	}
	count := func(send bool, not *Thread) (n int) {
		for _, u := range s.threads {
			if u == not || u.done || !u.started || u.op == nil || (u.op.done && u != w) {
				continue
			}
			for _, x := range u.op.cases {
				if x.c == c && x.send == send {
					n++
					break
				}
			}
		}
		return n
	}
	mine := count(k.send, t)
	if mine > 1 {
		s.res.Several = true
	}
	ready := 0
	w.op.done = false
	for _, x := range w.op.cases {
		if s.caseReady(w, x) {
			ready++
		}
	}
	w.op.done = true
	e.skip = ready <= 1 && c.cap == 0 && mine == 1 && count(!k.send, w) == 1
}

func (a *all) conflicts(k uint8) uint8 {
	if a.strict {
		return againstStrict[k]
	}
	return against[k]
}

// dependent tells whether a step conflicts with the sleeper's.
func (a *all) dependent(sl *sleeper, e *event) bool {
	if e.t == sl.t || e.pass == sl.t {
		return true
	}
	fresh := false
	for _, u := range sl.foot {
		if u.id > sl.nobj {
			fresh = true
		}
		if u.id == int32(-1-e.t) {
			return true
		}
	}
	for _, x := range e.foot {
		if x.id > sl.nobj {
			if fresh {
				return true
			}
			continue
		}
		for _, u := range sl.foot {
			if u.id == x.id && a.conflicts(u.k)&x.k != 0 {
				return true
			}
		}
	}
	return false
}

// pick decides who runs next: what the prefix says, or else the first thread not asleep.
func (a *all) pick(s *Sched, opts []*Thread, curEn bool) int {
	d := a.nev
	var mask uint64
	for _, t := range opts {
		if t.ID > 63 {
			s.res.Unsuited = true
			return -1
		}
		mask |= 1 << uint(t.ID)
	}
	if d >= len(a.nodes) {
		n := node{enabled: mask, nobj: s.nobj, choice: -1, cur: -1}
		if d > 1 {
			p := &a.nodes[d-1]
			e := &a.events[d-1]
			for i := range p.sleep {
				if sl := &p.sleep[i]; !a.dependent(sl, e) {
					n.sleep = append(n.sleep, *sl)
					n.asleep |= 1 << uint(sl.t)
				}
			}
		}
		for _, t := range opts {
			n.opts = append(n.opts, t.ID)
			if n.cur < 0 && n.asleep>>uint(t.ID)&1 == 0 {
				n.cur = t.ID
			}
		}
		if n.cur < 0 {
			return -1
		}
		n.back, n.done = 1<<uint(n.cur), 1<<uint(n.cur)
		a.nodes = append(a.nodes, n)
	}
	n := &a.nodes[d]
	i := -1
	for j, t := range opts {
		if t.ID == n.cur {
			i = j
		}
	}
	if i < 0 || n.enabled != mask || len(n.opts) != len(opts) || n.opts[i] != n.cur {
		s.res.Diverged = "the prefix leads elsewhere"
		return -1
	}
	if len(opts) > 1 {
		n.choice = len(s.res.Choices)
		a.choiceEv = append(a.choiceEv, d)
		s.res.Choices = append(s.res.Choices, Choice{N: len(opts), Chosen: i, CurEn: curEn})
	}
	a.next(n.cur, mask)
	return i
}

// pending notes the operations nobody could complete.
func (a *all) pending(s *Sched) {
	if s.res.Pruned || s.res.Panic != "" || s.res.Livelock != "" || s.res.Diverged != "" {
		return
	}
	for _, t := range s.threads {
		if t.done || t.op == nil || !t.started {
			continue
		}
		o := t.op
		var foot []use
		name := func(h *hist) int32 {
			if h.id == 0 {
				s.nobj++
				h.id = s.nobj
			}
			return h.id
		}
		for _, k := range o.cases {
			if k.c != nil {
				foot = addUse(foot, use{name(&k.c.hb), readyKind(k.send)})
			}
		}
		for _, v := range o.on {
			v.fresh()
			foot = addUse(foot, use{name(&v.hb), kW})
		}
		e := a.next(t.ID, 0)
		e.foot, e.pseudo = append(e.foot, foot...), true
		e.univ = len(o.cases) == 0 && len(o.on) == 0 && o.kind != "select"
	}
}

func (a *all) hb(i, j int) bool { // i before or at j
	return a.events[j].clock[a.events[i].t] >= int32(i)+1
}

// analyse orders the steps of the execution and adds what must be explored as well. Steps before
// from were analysed with an earlier execution.
func (a *all) analyse(from int) {
	nt := 0
	for i := 0; i < a.nev; i++ {
		if t := a.events[i].t; t >= nt {
			nt = t + 1
		}
	}
	nobj := int32(0)
	for i := 0; i < a.nev; i++ {
		for _, u := range a.events[i].foot {
			if u.id > nobj {
				nobj = u.id
			}
		}
	}
	for len(a.objs) <= int(nobj) {
		a.objs = append(a.objs, nil)
	}
	for i := range a.objs {
		a.objs[i] = a.objs[i][:0]
	}
	need := (int(nobj) + 1) * nKinds * nt
	if cap(a.clocks) < need {
		a.clocks = make([]int32, need)
	}
	oc := a.clocks[:need]
	for i := range oc {
		oc[i] = 0
	}
	a.last = a.last[:0]
	for i := 0; i < nt; i++ {
		a.last = append(a.last, -1)
	}
	join := func(c, o []int32) {
		for i, x := range o {
			if x > c[i] {
				c[i] = x
			}
		}
	}
	for j := 0; j < a.nev; j++ {
		e := &a.events[j]
		if cap(e.clock) < nt {
			e.clock = make([]int32, nt)
		}
		e.clock = e.clock[:nt]
		for i := range e.clock {
			e.clock[i] = 0
		}
		prev := a.last[e.t]
		if prev >= 0 {
			join(e.clock, a.events[prev].clock)
		}
		for _, i := range e.join {
			join(e.clock, a.events[i].clock)
		}
		// what was ordered before the thread got here
		var before []int32
		if j >= from || e.pseudo {
			before = append(before, e.clock...)
			if e.join != nil && prev >= 0 {
				copy(before, a.events[prev].clock)
			}
		}
		for _, u := range e.foot {
			c := a.conflicts(u.k)
			for k := 0; k < nKinds; k++ {
				if c>>uint(k)&1 != 0 {
					at := (int(u.id)*nKinds + k) * nt
					join(e.clock, oc[at:at+nt])
				}
			}
		}
		e.clock[e.t] = int32(j) + 1
		if before != nil {
			for _, u := range e.foot {
				c := a.conflicts(u.k)
				for _, i := range a.objs[u.id] {
					x := &a.events[i]
					if x.t == e.t || before[x.t] >= int32(i)+1 {
						continue
					}
					for _, v := range x.foot {
						if v.id == u.id && c&v.k != 0 {
							a.reverse(i, j, nt)
							break
						}
					}
				}
			}
			if e.univ {
				for i := 1; i < j; i++ {
					if x := &a.events[i]; x.t != e.t && before[x.t] < int32(i)+1 && !x.pseudo {
						a.reverse(i, j, nt)
					}
				}
			}
			for _, i := range e.join {
				if x := &a.events[i]; x.pass == e.t && !x.skip {
					a.reverse(i, j, nt)
				}
			}
		}
		if e.pseudo {
			continue
		}
		a.last[e.t] = j
		for _, u := range e.foot {
			for k := 0; k < nKinds; k++ {
				if u.k>>uint(k)&1 != 0 {
					at := (int(u.id)*nKinds + k) * nt
					join(oc[at:at+nt], e.clock)
				}
			}
			a.objs[u.id] = append(a.objs[u.id], j)
		}
	}
}

// reverse makes sure that step j is also tried before step i.
func (a *all) reverse(i, j, nt int) {
	if i < 1 {
		return
	}
	n := &a.nodes[i]
	if n.enabled&(n.enabled-1) == 0 {
		return
	}
	var first [64]int32 // first step of each thread among those kept, plus one
	var initials uint64
	keep := func(k int) {
		e := &a.events[k]
		if first[e.t] == 0 {
			ok := true
			for q := 0; q < nt && ok; q++ {
				if first[q] != 0 && e.clock[q] >= first[q] {
					ok = false
				}
			}
			if ok {
				initials |= 1 << uint(e.t)
			}
			first[e.t] = int32(k) + 1
		}
	}
	for k := i + 1; k < j; k++ {
		if !a.events[k].pseudo && !a.hb(i, k) {
			keep(k)
		}
	}
	keep(j)
	initials &= n.enabled
	if initials == 0 || initials&(n.back|n.done|n.asleep) != 0 {
		return
	}
	q := a.events[j].t
	if initials>>uint(q)&1 == 0 {
		q = bits.TrailingZeros64(initials)
	}
	n.back |= 1 << uint(q)
}

// ExploreAll runs body for every schedule, up to the order of independent steps. ok is false if it
// gave up: at the cap, or because the program polls or uses timers.
func ExploreAll(o *Options, b Bounds, body func(), check func(*Result) bool) (st Stats, ok bool) {
	a := &all{nodes: make([]node, 1)}
	var prefix []int
	from := 0
	for {
		r := run(o, prefix, nil, a, body)
		st.Executions++
		st.Steps += r.Steps
		st.Choices += len(r.Choices) - len(prefix)
		if len(r.Choices) > st.MaxDepth {
			st.MaxDepth = len(r.Choices)
		}
		if r.Pruned {
			st.Pruned++
		}
		if r.Unsuited {
			return st, false
		}
		if r.Several && !a.strict {
			// once more, with the order in which threads come to wait taken into account
			a = &all{nodes: make([]node, 1), strict: true}
			prefix, from = nil, 0
			if !check(r) {
				st.Prefix = Taken(r)
				return st, false
			}
			continue
		}
		if !check(r) {
			st.Prefix = Taken(r)
			return st, false
		}
		if b.MaxExec > 0 && st.Executions >= b.MaxExec || (!b.Deadline.IsZero() && st.Executions&63 == 0 && time.Now().After(b.Deadline)) {
			st.Capped = true
			return st, false
		}
		if r.Panic == "" && r.Livelock == "" && r.Diverged == "" {
			a.analyse(from)
		} else if r.Diverged != "" {
			return st, false
		}
		for i := from; i < len(a.nodes); i++ {
			if i > 0 && i < a.nev {
				for _, u := range a.events[i].foot {
					a.nodes[i].foot = addUse(a.nodes[i].foot, u)
				}
				if p := a.events[i].pass; p >= 0 {
					a.nodes[i].foot = addUse(a.nodes[i].foot, use{int32(-1 - p), kW})
				}
			}
		}
		prefix = nil
		for i := len(r.Choices) - 1; i >= 0 && prefix == nil; i-- {
			c := r.Choices[i]
			d := a.choiceEv[i]
			n := &a.nodes[d]
			next := -1
			if c.Sel {
				if c.Chosen+1 < c.N {
					next = c.Chosen + 1
				}
			} else {
				n.sleep = append(n.sleep, sleeper{n.cur, append([]use(nil), n.foot...), n.nobj})
				n.asleep |= 1 << uint(n.cur)
				if left := n.back &^ n.done &^ n.asleep; left != 0 {
					n.cur = bits.TrailingZeros64(left)
					n.done |= 1 << uint(n.cur)
					n.foot = n.foot[:0]
					for j, t := range n.opts {
						if t == n.cur {
							next = j
						}
					}
				}
			}
			if next >= 0 {
				prefix = make([]int, i+1)
				for k := 0; k < i; k++ {
					prefix[k] = r.Choices[k].Chosen
				}
				prefix[i] = next
				a.nodes = a.nodes[:d+1]
				from = d
			}
		}
		if prefix == nil {
			return st, true
		}
	}
}
