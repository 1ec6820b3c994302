package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/vsched"
	"verifmc/vsched/vcontext"
)

// scn is one configuration of the threads around a stream.
type scn struct {
	loops    string // which loops run: "RW", "R", "W" or ""
	reads    []item
	end      error
	chunk    int
	outcomes []wout
	inCap    int
	send     [][]string // per producer: names of the segments it sends
	closeIn  int        // 0 no; 1 by the producer after its last frame; 2 by a thread of its own at any time
	consumer int        // frames the consumer takes: -1 all, -2 no consumer
	closers  int        // threads calling Close
	cancel   string     // "", "both" (one context for both loops), "R", "W" (separate contexts), "deadline", "parent"
	log      bool
	logErr   error
	watch    bool // threads that wait for the close and look at the error
	twice    bool // a closer closes again
	clsErr   error
	goneErr  error // what a closed transport's calls return
	invalid  bool
	again    int    // how many more times each loop is started when it has returned
	inside   string // which call, made by the stream, closes it: "LogRead", "LogWritten", "Read", "Write"
}

func (s *scn) String() string {
	var p []string
	add := func(f string, a ...any) { p = append(p, fmt.Sprintf(f, a...)) }
	add("loops=%s", s.loops)
	for _, i := range s.reads {
		add("read(%d,%v)", len(i.data), i.err)
	}
	add("end=%v", s.end)
	if s.chunk > 0 {
		add("chunk=%d", s.chunk)
	}
	for _, o := range s.outcomes {
		add("write(%d,%v,block=%v)", o.n, o.err, o.block)
	}
	add("cap=%d send=%v closeIn=%d consumer=%d closers=%d cancel=%q", s.inCap, s.send, s.closeIn, s.consumer, s.closers, s.cancel)
	if s.log {
		add("logger(%v)", s.logErr)
	}
	if s.twice {
		add("twice")
	}
	if s.clsErr != nil {
		add("closefails")
	}
	if s.goneErr != nil {
		add("closed transport says %q", s.goneErr)
	}
	if s.again > 0 {
		add("loops started %d more times", s.again)
	}
	if s.inside != "" {
		add("closed from within %s", s.inside)
	}
	if s.invalid {
		add("invalid frames too")
	}
	return strings.Join(p, " ")
}

// customContext is a context of the user's own, with an error of its own.
type customContext struct{ context.Context }

var errCustom = errors.New("the user's own context error")

func (c customContext) Err() error {
	if c.Context.Err() == nil {
		return nil
	}
	return errCustom
}

// life is one execution of a scenario.
type life struct {
	world
	s         *scn
	sent      [][][]byte // per producer: frames whose send has completed
	unaware   [][]byte
	closedRet int
	closers   int
	finalErrs []error // close errors read after seeing the stream closed
	inClosed  bool
}

func newLife(s *scn) *life {
	l := &life{s: s}
	l.tr = &transport{reads: append([]item(nil), s.reads...), end: s.end, chunk: s.chunk, outcomes: s.outcomes, closeErr: s.clsErr, goneErr: s.goneErr}
	l.in = make(chan m.Frame, s.inCap)
	if s.log {
		l.lg = &logger{err: s.logErr}
	}
	return l
}

// saw is called by whoever has just seen the stream closed.
func (l *life) saw(how string) {
	l.causev.Touch(false)
	causes := append([]error(nil), l.caused...)
	e := l.fs.GetCloseErr()
	if e == nil {
		l.bad("%s sees the stream closed, but the close error is nil", how)
		return
	}
	w := world{caused: causes}
	if !w.has(e) {
		l.bad("%s sees the stream closed; the close error is %q, but what had happened is %v", how, e, causes)
	}
	l.finalErrs = append(l.finalErrs, e)
}

func (l *life) body() {
	s := l.s
	l.open(stdDialects, s.invalid)
	fs := l.fs
	go1 := func(name string, f func()) { vsched.GoQuiet(name, f) }
	inside := func() {
		l.closers++
		l.happen(m.ErrUserClosed)
		fs.Close()
		l.closedRet++
		if !vsched.IsClosed(fs.Closed()) {
			l.bad("Close returned before the stream signals that it is closed")
		}
		l.saw("the closer")
	}
	switch s.inside {
	case "LogRead":
		l.lg.onRead = func([]byte) { inside() }
	case "LogWritten":
		l.lg.onWritten = func([]byte) { inside() }
	case "Read":
		l.tr.readBegun = inside
	case "Write":
		l.tr.writeBegun = func([]byte) { inside() }
	}
	rctx, wctx := context.Context(context.Background()), context.Context(context.Background())
	var cancels []func()
	cancelOne := func() (context.Context, func()) {
		c, f := vcontext.WithCancel(context.Background())
		return c, func() { l.happen(context.Canceled); f() }
	}
	switch s.cancel {
	case "both":
		c, f := cancelOne()
		rctx, wctx = c, c
		cancels = append(cancels, f)
	case "R":
		c, f := cancelOne()
		rctx = c
		cancels = append(cancels, f)
	case "W":
		c, f := cancelOne()
		wctx = c
		cancels = append(cancels, f)
	case "two":
		c, f := cancelOne()
		c2, f2 := cancelOne()
		rctx, wctx = c, c2
		cancels = append(cancels, f, f2)
	case "before":
		c, f := cancelOne()
		rctx, wctx = c, c
		f()
	case "parent":
		c, f := cancelOne()
		rctx, _ = vcontext.WithCancel(c)
		wctx = vcontext.WithValue(c, struct{}{}, 1)
		cancels = append(cancels, f)
	case "custom":
		c, f := vcontext.WithCancel(context.Background())
		x := customContext{c}
		rctx, wctx = x, x
		cancels = append(cancels, func() { l.happen(errCustom); f() })
	case "deadline":
		c, _ := vcontext.WithTimeout(context.Background(), time.Second)
		l.happen(context.DeadlineExceeded) // at a time of the scheduler's choosing
		rctx, wctx = c, c
	}
	if strings.Contains(s.loops, "R") {
		go1("R", func() {
			for i := 0; i <= s.again; i++ {
				fs.ReadContext(rctx)
			}
		})
	}
	if strings.Contains(s.loops, "W") {
		go1("W", func() {
			for i := 0; i <= s.again; i++ {
				fs.WriteContext(wctx)
			}
		})
	}
	l.sent = make([][][]byte, len(s.send))
	for i, names := range s.send {
		go1(fmt.Sprintf("producer%d", i), func() {
			for _, n := range names {
				f := frameOf(segOf[n])
				d := vsched.RecvCase(fs.Closed())
				k := vsched.SendCase(fs.Write())(f)
				if vsched.Select(false, d, k) == 0 {
					l.saw("producer")
					return
				}
				l.sent[i] = append(l.sent[i], segOf[n])
			}
			if s.closeIn == 1 {
				l.happen(m.ErrWriteChannelClosed)
				vsched.Close(l.in)
			}
		})
	}
	if s.closeIn == 2 {
		go1("incloser", func() {
			vsched.Point("incloser")
			l.happen(m.ErrWriteChannelClosed)
			vsched.Close(l.in)
		})
	}
	if s.consumer != -2 {
		go1("consumer", func() {
			for n := 0; s.consumer < 0 || n < s.consumer; n++ {
				f, ok := vsched.Recv2(fs.Read())
				if !ok {
					l.saw("consumer")
					return
				}
				l.got(f)
				if l.lg != nil {
					l.lg.rdv.Touch(false)
				}
				if l.lg != nil && len(l.lg.read) < len(l.delivered) {
					l.bad("frame %d was delivered before it was logged", len(l.delivered)-1)
				}
			}
		})
	}
	for i := 0; i < s.closers; i++ {
		go1(fmt.Sprintf("closer%d", i), func() {
			l.closers++
			l.happen(m.ErrUserClosed)
			fs.Close()
			l.closedRet++
			if !vsched.IsClosed(fs.Closed()) {
				l.bad("Close returned before the stream signals that it is closed")
			}
			if s.twice {
				l.saw("closer")
				l.closers++
				fs.Close()
				l.closedRet++
			}
		})
	}
	for i, f := range cancels {
		go1(fmt.Sprintf("canceller%d", i), f)
	}
	if s.watch {
		go1("watcher", func() {
			e0 := fs.GetCloseErr()
			l.causev.Touch(false)
			if e := e0; e != nil && !l.has(e) {
				l.bad("the close error is %q, but what had happened is %v", e, l.caused)
			}
			vsched.Recv2(fs.Closed())
			l.saw("watcher")
			e := fs.GetCloseErr()
			l.finalErrs = append(l.finalErrs, e)
		})
	}
}

func (l *life) isClosed() bool { return isClosed(l.fs.Closed()) }

func blocked(r *vsched.Result) string {
	var b []string
	for _, x := range r.Blocked {
		b = append(b, x.Name+" in "+x.Op)
	}
	return strings.Join(b, ", ")
}

// ---- oracles ----

// okClose: C15
func (l *life) okClose(r *vsched.Result) string {
	if l.closedRet != l.closers {
		return fmt.Sprintf("%d of %d Close calls returned; still there: %s", l.closedRet, l.closers, blocked(r))
	}
	if len(l.caused) > 0 && !l.isClosed() {
		return fmt.Sprintf("after %v the stream is not closed; still there: %s", l.caused, blocked(r))
	}
	if l.isClosed() != isClosed(l.fs.Read()) {
		return fmt.Sprintf("closed channel closed: %v, frame channel closed: %v", l.isClosed(), isClosed(l.fs.Read()))
	}
	if want := b2i(l.isClosed()); l.tr.closes != want {
		return fmt.Sprintf("the transport was closed %d times, want %d", l.tr.closes, want)
	}
	for _, p := range l.problems {
		if strings.Contains(p, "Close returned before") {
			return p
		}
	}
	return ""
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// okErr: C16
func (l *life) okErr(r *vsched.Result) string {
	for _, p := range l.problems {
		if strings.Contains(p, "close error") {
			return p
		}
	}
	e := l.fs.GetCloseErr()
	if !l.isClosed() {
		if e != nil {
			return fmt.Sprintf("the stream is open, the close error is %v", e)
		}
		return ""
	}
	if e == nil || !l.has(e) {
		return fmt.Sprintf("the close error is %v, but what happened is %v", e, l.caused)
	}
	for _, x := range l.finalErrs {
		if x != e {
			return fmt.Sprintf("the close error changed from %v to %v", x, e)
		}
	}
	return ""
}

// okEnd: C17
func (l *life) okEnd(r *vsched.Result) string {
	if (len(l.caused) > 0 || l.isClosed()) && len(r.Blocked) > 0 {
		return fmt.Sprintf("after %v goroutines stay behind: %s", l.caused, blocked(r))
	}
	return ""
}

// okWrites: C13
func (l *life) okWrites(r *vsched.Result) string {
	if l.tr.maxIn > 1 {
		return "two transport writes at the same time"
	}
	for _, p := range l.problems {
		if strings.Contains(p, "transport write changed") {
			return p
		}
	}
	next := make([]int, len(l.s.send))
	failed := false
	for i, b := range l.tr.wrote {
		if failed {
			return fmt.Sprintf("write %d after a failed write", i)
		}
		if l.tr.werrs[i] != nil {
			failed = true
		}
		found := false
		for p, names := range l.s.send {
			if next[p] < len(names) && string(segOf[names[next[p]]]) == string(b) {
				next[p]++
				found = true
				break
			}
		}
		if !found {
			return fmt.Sprintf("write %d is %s, which is not the next frame of any producer", i, hex(b))
		}
	}
	e := l.fs.GetCloseErr()
	if !strings.Contains(l.s.loops, "W") {
		if len(l.tr.wrote) > 0 {
			return "frames were written without a write loop"
		}
		return ""
	}
	if !l.isClosed() || e == m.ErrWriteChannelClosed {
		for p := range l.s.send {
			if next[p] < len(l.sent[p]) {
				return fmt.Sprintf("producer %d: %d frames were accepted, %d written; close error %v", p, len(l.sent[p]), next[p], e)
			}
		}
		if !l.isClosed() {
			for p := range l.s.send {
				if len(l.sent[p]) < len(l.s.send[p]) {
					return fmt.Sprintf("producer %d: %d of %d frames accepted while the stream is open", p, len(l.sent[p]), len(l.s.send[p]))
				}
			}
		}
	}
	if l.isClosed() && e == m.ErrWriteChannelClosed && failed {
		return "a write failed, but the close error is ErrWriteChannelClosed"
	}
	return ""
}

// okLog: C14
func (l *life) okLog(r *vsched.Result) string {
	for _, p := range l.problems {
		if strings.Contains(p, "logged") {
			return p
		}
	}
	if l.lg == nil {
		return ""
	}
	var ok [][]byte
	for i, b := range l.tr.wrote {
		if l.tr.took[i] >= 0 && l.tr.werrs[i] == nil {
			ok = append(ok, b)
		}
	}
	if s := sameFrames(l.lg.written, ok); s != "" {
		return "log of written frames: " + strings.ReplaceAll(s, "delivered", "logged")
	}
	n := len(l.delivered)
	if len(l.lg.read) > n+1 {
		return fmt.Sprintf("%d frames were logged as read, %d delivered", len(l.lg.read), n)
	}
	if len(l.lg.read) < n {
		return fmt.Sprintf("%d frames were logged as read, %d delivered", len(l.lg.read), n)
	}
	if s := sameFrames(l.lg.read[:n], l.delivered); s != "" {
		return "log of read frames: " + s
	}
	return ""
}

// okTraffic: what arrived is a prefix of what should arrive.
func (l *life) okTraffic(r *vsched.Result) string {
	var in []byte
	for _, i := range l.s.reads {
		in = append(in, i.data...)
	}
	want := expect(in, stdLookup, l.s.invalid)
	if len(l.delivered) <= len(want) {
		want = want[:len(l.delivered)]
	}
	return sameFrames(l.delivered, want)
}

// lifecycle explores the scenarios with the given oracle.
func lifecycle(c *chk.C, scns []scn, b vsched.Bounds, race bool, oracle func(*life, *vsched.Result) string) {
	for i := range scns {
		s := &scns[i]
		c.Case(s.String, func() {
			var l *life
			start := func() func() {
				l = newLife(s)
				return func() { l.body() }
			}
			judge := func(r *vsched.Result) string { return oracle(l, r) }
			if race {
				explore(c, vsched.Options{RaceDetect: true}, b, start, judge)
			} else {
				exploreStmts(c, b, start, judge)
			}
		})
	}
}
