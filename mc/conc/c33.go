package main

import (
	"context"
	"fmt"
	"time"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/vsched"
)

// never is a condition that does not come true.
const never = 1 << 20

// exch is an exchange over one stream in which either side may wait for the other.
type exch struct {
	reads  []string // frames that arrive, one per transport read, or one in two with half
	half   bool     // each frame arrives in two pieces, the second after the next so many writes
	after  []int    // each becomes available once so many transport writes are complete
	sends  []string
	when   []int // each is sent once so many frames have been taken
	done   []int // each transport write completes once so many reads (or, with taken, frames) are through
	taken  bool
	take   []int // each frame is taken once so many writes are complete
	reply  bool  // sends are replies, sent by the goroutine that takes the frames
	takers int
	split  bool // each send by a goroutine of its own
	cap    int
	log    bool
	ask    bool
}

func (x *exch) String() string {
	return fmt.Sprintf("arriving %v after %v writes, sent %v when %v frames taken (reply %v), written when %v reads (taken %v), taken after %v writes, %d takers, split %v, channel %d, log %v, half %v",
		x.reads, x.after, x.sends, x.when, x.reply, x.done, x.taken, x.take, x.takers, x.split, x.cap, x.log, x.half)
}

func (x *exch) pieces() int {
	if x.half {
		return 2 * len(x.reads)
	}
	return len(x.reads)
}

// through is the number of frames complete after so many pieces.
func (x *exch) through(given int) int {
	if x.half {
		return given / 2
	}
	return given
}

func (x *exch) piece(i int) []byte {
	if !x.half {
		return segOf[x.reads[i]]
	}
	b := segOf[x.reads[i/2]]
	n := len(b) / 2
	if i&1 == 0 {
		return b[:n]
	}
	return b[n:]
}

// least is how far a stream gets whose directions are independent and which reads nothing ahead.
func (x *exch) least() (delivered, written int) {
	var given, accepted, begun, done int
	for {
		switch {
		case x.through(given) == delivered && given < x.pieces() && done >= x.after[given]:
			given++
		case delivered < x.through(given) && done >= x.take[delivered] && (!x.reply || accepted >= delivered):
			delivered++
		case accepted < len(x.sends) && (x.reply && delivered > accepted || !x.reply && delivered >= x.when[accepted]) && (accepted-begun < x.cap || begun == done && accepted == begun):
			accepted++
			if begun == done {
				begun++
			}
		case begun == done && begun < accepted:
			begun++
		case begun > done && (x.taken && delivered >= x.done[done] || !x.taken && x.through(given) >= x.done[done]):
			done++
		default:
			return delivered, begun
		}
	}
}

// exchange is one execution.
type exchange struct {
	world
	x      *exch
	given  int
	off    int
	begun  [][]byte
	done   int
	took   int
	by     []int // the taker of each frame
	closed bool
	start  int64
	v      vsched.SyncVar
}

func (e *exchange) Read(p []byte) (n int, err error) {
	vsched.Progress()
	vsched.BlockOn("tread", func() bool {
		return e.closed || e.given < e.x.pieces() && e.done >= e.x.after[e.given] || len(p) == 0
	}, func() {
		e.v.Touch(true)
		if e.closed {
			err = errTransportClosed
			return
		}
		if len(p) == 0 {
			return
		}
		b := e.x.piece(e.given)
		n = copy(p, b[e.off:])
		vsched.WS(p[:n])
		if e.off += n; e.off == len(b) {
			e.given++
			e.off = 0
		}
	}, &e.v)
	return
}

func (e *exchange) Write(p []byte) (n int, err error) {
	vsched.Progress()
	e.v.Touch(true)
	vsched.RS(p)
	i := len(e.begun)
	e.prompt("written")
	e.begun = append(e.begun, append([]byte(nil), p...))
	vsched.BlockOn("twrite", func() bool {
		return e.closed || i >= len(e.x.sends) || e.x.taken && e.took >= e.x.done[i] || !e.x.taken && e.x.through(e.given) >= e.x.done[i]
	}, func() {
		e.v.Touch(true)
		e.done++
		n = len(p)
	}, &e.v)
	return
}

// prompt: nothing here takes time, so nothing has to wait for any.
func (e *exchange) prompt(what string) {
	if t := vsched.Now() - e.start; t > int64(time.Second) {
		e.bad("a frame was %s only after %v of waiting", what, time.Duration(t))
	}
}

func (e *exchange) Close() error {
	vsched.Point("tclose")
	e.v.Touch(true)
	e.closed = true
	return nil
}

func (e *exchange) body() {
	x := e.x
	e.in = make(chan m.Frame, x.cap)
	e.start = vsched.Now()
	if x.log {
		e.lg = &logger{w: &e.world}
		e.fs = m.NewFrameStreamWithLogger(e, e.in, stdDialects, false, e.lg)
	} else {
		e.fs = m.NewFrameStream(e, e.in, stdDialects, false)
	}
	vsched.GoQuiet("R", func() { e.fs.ReadContext(context.Background()) })
	vsched.GoQuiet("W", func() { e.fs.WriteContext(context.Background()) })
	send := func(name string) bool {
		return vsched.Select(false, vsched.RecvCase(e.fs.Closed()), vsched.SendCase(e.fs.Write())(frameOf(segOf[name]))) == 1
	}
	for k := 0; k < x.takers; k++ {
		vsched.GoQuiet(fmt.Sprintf("taker%d", k), func() {
			for i := 0; ; i++ {
				if x.takers == 1 && i < len(x.take) && x.take[i] > 0 {
					vsched.BlockOn("waits to take", func() bool { return e.done >= x.take[i] }, func() { e.v.Touch(true) }, &e.v)
				}
				f, ok := vsched.Recv2(e.fs.Read())
				if !ok {
					return
				}
				e.v.Touch(true)
				e.prompt("received")
				e.got(f)
				e.by = append(e.by, k)
				e.took++
				if x.reply && i < len(x.sends) && !send(x.sends[i]) {
					return
				}
			}
		})
	}
	if !x.reply {
		one := func(i int) bool {
			if x.when[i] > 0 {
				vsched.BlockOn("waits to send", func() bool { return e.took >= x.when[i] }, func() { e.v.Touch(true) }, &e.v)
			}
			return send(x.sends[i])
		}
		if x.split {
			for i := range x.sends {
				vsched.GoQuiet(fmt.Sprintf("sender%d", i), func() { one(i) })
			}
		} else if len(x.sends) > 0 {
			vsched.GoQuiet("sender", func() {
				for i := range x.sends {
					if !one(i) {
						return
					}
				}
			})
		}
	}
	if x.ask {
		vsched.GoQuiet("asker", func() {
			if e.fs.GetCloseErr() != nil || e.fs.Closed() == nil || e.fs.Read() == nil || e.fs.Write() == nil {
				e.bad("the stream is asked and says that it is closed")
			}
		})
	}
}

func (e *exchange) judge(r *vsched.Result) string {
	x := e.x
	if len(e.problems) > 0 {
		return e.problems[0]
	}
	if isClosed(e.fs.Closed()) || e.closed || e.fs.GetCloseErr() != nil {
		return fmt.Sprintf("the stream closed: %v", e.fs.GetCloseErr())
	}
	for _, b := range r.Blocked {
		if b.Name == "asker" {
			return "asking the stream waits in " + b.Op
		}
	}
	var want [][]byte
	for _, n := range x.reads {
		want = append(want, segOf[n])
	}
	nd, nw := x.least()
	if len(e.delivered) < nd {
		return fmt.Sprintf("%d frames received, want at least %d; waiting: %s", len(e.delivered), nd, blocked(r))
	}
	if x.takers < 2 {
		if s := sameFrames(e.delivered, want[:min(len(want), len(e.delivered))]); s != "" {
			return s
		}
	} else if s := sameSet(e.delivered, want, e.by, x.takers); s != "" {
		return s
	}
	if len(e.begun) < nw {
		return fmt.Sprintf("%d frames written, want at least %d; waiting: %s", len(e.begun), nw, blocked(r))
	}
	var sent [][]byte
	for _, n := range x.sends {
		sent = append(sent, segOf[n])
	}
	if x.split {
		if s := sameSet(e.begun, sent, nil, 0); s != "" {
			return "written: " + s
		}
	} else if s := sameFrames(e.begun, sent[:min(len(sent), len(e.begun))]); s != "" {
		return "written: " + s
	}
	return ""
}

// sameSet: each wanted frame occurs once among those got (all of them different), and each taker
// has its own in order.
func sameSet(got, want [][]byte, by []int, takers int) string {
	pos := map[string]int{}
	for i, w := range want {
		pos[string(w)] = i
	}
	last := make([]int, takers)
	for i := range last {
		last[i] = -1
	}
	for i, g := range got {
		p, ok := pos[string(g)]
		if !ok {
			return fmt.Sprintf("frame %s is not expected, or came twice", hex(g))
		}
		delete(pos, string(g))
		if by != nil {
			if p < last[by[i]] {
				return fmt.Sprintf("taker %d got frame %d after frame %d", by[i], p, last[by[i]])
			}
			last[by[i]] = p
		}
	}
	if len(pos) > 0 {
		return fmt.Sprintf("%d of %d frames are missing", len(pos), len(want))
	}
	return ""
}

// rising lists the non-decreasing sequences of length n over the values.
func rising(n int, vals ...int) (out [][]int) {
	var rec func(p []int, from int)
	rec = func(p []int, from int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := from; i < len(vals); i++ {
			rec(append(p, vals[i]), i)
		}
	}
	rec(nil, 0)
	return
}

func c33(c *chk.C) {
	rs := []string{"v1", "v2", "signed", "v2cut"}
	ws := []string{"v2", "v1", "max", "signed"}
	zero := []int{0, 0, 0, 0}
	var e *exchange
	run := func(x *exch) {
		r := once(c, func() { e = &exchange{x: x}; e.body() })
		if s := e.judge(r); s != "" {
			chk.Failf("%s: %s", x, s)
		}
	}
	all := func(b vsched.Bounds, x *exch) {
		explore(c, vsched.Options{}, b, func() func() {
			e = &exchange{x: x}
			return e.body
		}, func(r *vsched.Result) string {
			s := e.judge(r)
			if s != "" {
				s = x.String() + ": " + s
			}
			return s
		})
	}
	// one schedule, every way of waiting for each other
	wide := func(n int, vals []int) {
		for _, a := range rising(n, vals...) {
			for _, w := range rising(n, vals...) {
				c.Case(func() string {
					return fmt.Sprintf("%d frames each way: arriving after %v writes, sent when %v are taken, and every way of writing and taking", n, a, w)
				}, func() {
					for _, d := range rising(n, vals...) {
						for _, k := range rising(n, vals...) {
							for f := 0; f < 4; f++ {
								run(&exch{reads: rs[:n], after: a, sends: ws[:n], when: w, done: d, take: k, taken: f&1 > 0, takers: 1, cap: f >> 1, log: f == 3})
							}
						}
					}
					c.State(chk.HashS(33, fmt.Sprint(a, w)))
				})
			}
		}
	}
	wide(2, []int{0, 1, 2, never})
	wide(3, []int{0, 1, 2, 3})
	if c.Thorough {
		wide(3, []int{0, 1, 2, 3, never})
		wide(4, []int{0, 1, 2, 3, 4})
	}
	// frames that arrive in two pieces
	for _, a := range rising(4, 0, 1, 2, never) {
		c.Case(func() string { return fmt.Sprintf("2 frames each way, arriving in halves after %v writes", a) }, func() {
			for _, w := range rising(2, 0, 1, 2, never) {
				for _, d := range rising(2, 0, 1, 2, never) {
					for _, k := range rising(2, 0, 1, 2, never) {
						for f := 0; f < 4; f++ {
							run(&exch{reads: rs[:2], half: true, after: a, sends: ws[:2], when: w, done: d, take: k, taken: f&1 > 0, takers: 1, cap: f >> 1, log: f == 3})
						}
					}
				}
			}
		})
	}
	// all schedules
	b := bounds(c, 1, 0, 0)
	for _, a := range rising(2, 0, 1, 2) {
		for _, w := range rising(2, 0, 1, 2) {
			for _, d := range rising(2, 0, 1, 2) {
				c.Case(func() string {
					return fmt.Sprintf("all schedules: arriving after %v writes, sent when %v are taken, written when %v were read", a, w, d)
				}, func() {
					for _, k := range rising(2, 0, 1, 2) {
						for _, taken := range []bool{false, true} {
							all(b, &exch{reads: rs[:2], after: a, sends: ws[:2], when: w, done: d, take: k, taken: taken, takers: 1})
						}
					}
				})
			}
		}
	}
	for _, a := range rising(4, 0, 1, 2) {
		c.Case(func() string { return fmt.Sprintf("all schedules: arriving in halves after %v writes", a) }, func() {
			for _, d := range rising(2, 0, 1, never) {
				for _, k := range []int{0, never} {
					all(b, &exch{reads: rs[:2], half: true, after: a, sends: ws[:2], when: zero[:2], done: d, take: []int{0, k}, takers: 1})
				}
			}
		})
	}
	b = bounds(c, 1, 1, 0)
	for n := 1; n <= 3; n++ {
		for _, a := range rising(n, 0, 1, 2, never)[:] {
			for _, cp := range []int{0, 1} {
				c.Case(func() string {
					return fmt.Sprintf("replies to %d frames that arrive after %v writes, channel %d", n, a, cp)
				}, func() {
					for _, d := range rising(n, 0, 1, 2, 3) {
						all(b, &exch{reads: rs[:n], after: a, sends: ws[:n], done: d, take: zero[:n], reply: true, takers: 1, cap: cp, ask: n == 1, log: n == 2 && cp == 1})
					}
				})
			}
		}
	}
	for takers := 0; takers <= 3; takers++ {
		for n := 0; n <= 3; n++ {
			for ns := 0; ns <= 3; ns++ {
				for _, split := range []bool{false, true} {
					if split && ns < 2 || takers == 0 && n > 1 {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("%d takers of %d frames, %d frames sent, by as many goroutines: %v", takers, n, ns, split)
					}, func() {
						take := zero[:n]
						if takers == 0 {
							take = []int{never, never, never}
						}
						all(b, &exch{reads: rs[:n], after: zero[:n], sends: ws[:ns], when: zero[:ns], done: zero[:ns], take: take, takers: takers, split: split, ask: true, log: takers == 1})
						if ns > 0 {
							all(b, &exch{reads: rs[:n], after: zero[:n], sends: ws[:1], when: zero[:1], done: []int{never}, take: take, takers: takers, ask: true})
						}
					})
				}
			}
		}
	}
}
