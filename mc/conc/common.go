package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	m "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/common"

	"verifmc/chk"
	"verifmc/ref"
	"verifmc/vsched"
)

// item is one scripted result of a transport Read.
type item struct {
	data []byte
	err  error // returned together with the data, once all of it has been handed out
}

// wout is one scripted outcome of a transport Write.
type wout struct {
	n     int // bytes taken before the error
	err   error
	block bool // blocks until the transport is closed
}

var (
	errTransportClosed = errors.New("use of closed transport")
	errRead            = errors.New("transport read failure")
	errRead2           = errors.New("transport failure after the first")
	errWrite           = errors.New("transport write failure")
	errCloseFails      = errors.New("transport close failure")
)

// transport is the scripted io.ReadWriteCloser under the stream. All its state belongs to the
// scheduler: only one thread runs at a time.
type transport struct {
	w      *world
	reads  []item
	off    int
	end    error // after the script; nil: block until closed
	single bool  // hand out at most one byte per read
	chunk  int   // hand out at most this many bytes per read (0: no limit)

	outcomes []wout
	wrote    [][]byte // one per Write call: the bytes given
	took     []int    // bytes taken
	werrs    []error
	inWrite  int
	maxIn    int
	inRead   int

	closed        bool
	closes        int
	closeErr      error
	goneErr       error // of calls after Close; nil: errTransportClosed
	nreads        int
	rdv, wrv, clv vsched.SyncVar
	afterClosed   int // writes begun after the transport was closed
	writeBegun    func(p []byte)
	readBegun     func()
	writeDone     func(p []byte, err error)
}

func (t *transport) fail(err error) error {
	if t.w != nil {
		t.w.happen(err)
	}
	return err
}

func (t *transport) gone() error {
	if t.goneErr != nil {
		return t.goneErr
	}
	return errTransportClosed
}

// gap is the time that passes at each call of a transport. It matters only to code that asks for
// the time; the cases are run again with an hour in between once any has.
var gap int64

func passTime(c *chk.C) {
	c.Again = func(n int) bool {
		gap = 0
		if n == 0 && (vsched.Asked() || c.Replaying()) {
			gap = int64(time.Hour)
			c.Count("cases run again with an hour between transport calls", 1)
			return true
		}
		return false
	}
}

func (t *transport) Read(p []byte) (int, error) {
	vsched.Progress()
	t.nreads++
	if t.readBegun != nil && t.nreads > 1 {
		t.readBegun()
	}
	var n int
	var err error
	vsched.BlockOn("tread", func() bool { return t.closed || len(t.reads) > 0 || t.end != nil || len(p) == 0 }, func() {
		t.rdv.Touch(true)
		t.clv.Touch(false)
		vsched.Elapse(gap)
		switch {
		case t.closed:
			err = t.gone()
		case len(t.reads) > 0:
			it := t.reads[0]
			d := it.data[t.off:]
			if t.chunk > 0 && len(d) > t.chunk {
				d = d[:t.chunk]
			}
			if gap > 0 && len(d) > 23 {
				d = d[:23]
			}
			n = copy(p, d)
			vsched.WS(p[:n])
			t.off += n
			if t.off >= len(it.data) {
				t.reads = t.reads[1:]
				t.off = 0
				if it.err != nil {
					err = t.fail(it.err)
				}
			}
		case len(p) == 0:
		default:
			err = t.fail(t.end)
		}
	}, &t.rdv, &t.clv)
	return n, err
}

func (t *transport) Write(p []byte) (int, error) {
	vsched.Progress()
	vsched.Elapse(gap)
	// the bytes must not change during the call
	t.wrv.Touch(true)
	t.inWrite++
	if t.inWrite > t.maxIn {
		t.maxIn = t.inWrite
	}
	if t.closed {
		t.afterClosed++
	}
	if t.writeBegun != nil {
		t.writeBegun(p)
	}
	vsched.RS(p)
	before := append([]byte(nil), p...)
	i := len(t.wrote)
	t.wrote = append(t.wrote, before)
	t.took = append(t.took, -1)
	t.werrs = append(t.werrs, nil)
	var o wout
	if i < len(t.outcomes) {
		o = t.outcomes[i]
	}
	n := len(p)
	var err error
	vsched.BlockOn("twrite", func() bool { return !o.block || t.closed }, func() {
		t.wrv.Touch(true)
		t.clv.Touch(false)
		switch {
		case t.closed:
			n, err = 0, t.gone()
		case o.err != nil:
			n = o.n
			if n > len(p) {
				n = len(p)
			}
			err = t.fail(o.err)
		}
	}, &t.wrv, &t.clv)
	t.inWrite--
	if !bytes.Equal(before, p) {
		t.w.bad("the bytes given to a transport write changed during the call")
	}
	t.took[i], t.werrs[i] = n, err
	if t.writeDone != nil {
		t.writeDone(p, err)
	}
	return n, err
}

func (t *transport) Close() error {
	vsched.Point("tclose")
	t.clv.Touch(true)
	t.closes++
	t.closed = true
	return t.closeErr
}

// world is what one execution observes.
type world struct {
	tr        *transport
	lg        *logger
	in        chan m.Frame
	fs        *m.FrameStream
	caused    []error // causes of closing that have struck
	delivered [][]byte
	frames    []m.Frame
	problems  []string
	causev    vsched.SyncVar
	accepted  [][]byte
}

func (w *world) happen(err error) { w.causev.Touch(true); w.caused = append(w.caused, err) }

func (w *world) has(err error) bool {
	for _, e := range w.caused {
		if errors.Is(err, e) || (e == errEOF && errors.Is(err, errUEOF)) {
			return true
		}
	}
	return false
}

func (w *world) bad(format string, a ...any) {
	w.problems = append(w.problems, fmt.Sprintf(format, a...))
}

func (w *world) got(f m.Frame) {
	w.frames = append(w.frames, f)
	w.delivered = append(w.delivered, append([]byte(nil), f.Bytes()...))
}

// logger records what it is told.
type logger struct {
	w             *world
	err           error
	read, written [][]byte
	rdv, wrv      vsched.SyncVar
	onRead        func([]byte)
	onWritten     func([]byte)
}

func (l *logger) LogRead(b []byte) error {
	vsched.Point("logread")
	l.rdv.Touch(true)
	vsched.RS(b)
	l.read = append(l.read, append([]byte(nil), b...))
	if l.onRead != nil {
		l.onRead(b)
	}
	return l.err
}

func (l *logger) LogWritten(b []byte) error {
	vsched.Point("logwritten")
	l.wrv.Touch(true)
	vsched.RS(b)
	l.written = append(l.written, append([]byte(nil), b...))
	if l.onWritten != nil {
		l.onWritten(b)
	}
	return l.err
}

func (w *world) open(ds m.Dialects, invalid bool) {
	w.tr.w = w
	if w.lg != nil {
		w.lg.w = w
		w.fs = m.NewFrameStreamWithLogger(w.tr, w.in, ds, invalid, w.lg)
	} else {
		w.fs = m.NewFrameStream(w.tr, w.in, ds, invalid)
	}
}

// drain receives frames until the channel is closed.
func (w *world) drain() {
	for {
		f, ok := vsched.Recv2(w.fs.Read())
		if !ok {
			return
		}
		w.got(f)
		if w.lg != nil && len(w.lg.read) < len(w.delivered) {
			w.bad("frame %d was delivered before it was logged", len(w.delivered)-1)
		}
	}
}

func isClosed[T any](ch <-chan T) bool {
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

var stdDialects = m.Dialects{common.Dialect{}, ardupilotmega.Dialect{}}
var stdLookup = ref.LookupOf("common", "ardupilotmega")

// ---- exploration ----

var noMerge = os.Getenv("MC_NOMERGE") != ""

type schedule struct {
	Choices []int `json:"schedule"`
	Stmt    bool  `json:"statements,omitempty"`
}

// explore runs every schedule of the scenario within the bounds. start prepares an execution and
// returns its root thread; check judges it afterwards ("" if it is fine).
func explore(c *chk.C, o vsched.Options, b vsched.Bounds, start func() func(), check func(*vsched.Result) string) {
	exploreRaces(c, o, b, true, start, check)
}

// exploreStmts explores at the granularity of synchronisation operations. That is enough as long
// as nothing is shared without synchronisation; where an execution shows that something is, the
// scenario is explored again with a scheduling point before every statement.
func exploreStmts(c *chk.C, b vsched.Bounds, start func() func(), check func(*vsched.Result) string) {
	var s schedule
	if c.Replaying() && c.Extra(&s) && s.Stmt {
		exploreRaces(c, vsched.Options{StmtPoints: true, SiteLimit: 3}, b, false, start, check)
		return
	}
	racy := false
	ck := func(r *vsched.Result) string {
		racy = racy || len(r.Races) > 0
		return check(r)
	}
	if !every(c, vsched.Options{RaceDetect: true}, start, false, ck) {
		pre := b
		pre.Preemptions, pre.Free, pre.Sel = 1, 1, 0
		bounded(c, vsched.Options{RaceDetect: true}, pre, start, false, ck)
		bounded(c, vsched.Options{}, b, start, false, check)
	}
	if c.Replaying() {
		return
	}
	if racy {
		c.Count("scenarios with unsynchronised accesses", 1)
		b.MaxExec = 20000
		b.Free, b.Sel = 1, 1
		exploreRaces(c, vsched.Options{StmtPoints: true, SiteLimit: 3}, b, false, start, check)
	}
}

// exploreRaces explores every schedule, or where that is too much those within the bounds.
func exploreRaces(c *chk.C, o vsched.Options, b vsched.Bounds, races bool, start func() func(), check func(*vsched.Result) string) {
	if o.StmtPoints || !every(c, o, start, races, check) {
		bounded(c, o, b, start, races, check)
	}
}

// every explores every schedule, up to the order of independent steps; false if that takes more
// than a number of executions.
func every(c *chk.C, o vsched.Options, start func() func(), races bool, check func(*vsched.Result) string) bool {
	if noAll || c.Replaying() {
		return false
	}
	b := vsched.Bounds{MaxExec: everyQuick}
	if c.Thorough {
		b.MaxExec = everyThorough
	}
	if everyCap > 0 {
		b.MaxExec = everyCap
	}
	ok := exploration(c, o, start, races, check, func(o *vsched.Options, run func(), f func(*vsched.Result) bool) (vsched.Stats, bool) {
		b.Deadline = c.Deadline()
		return vsched.ExploreAll(o, b, run, f)
	})
	if ok {
		c.Count("scenarios explored on every schedule", 1)
	} else {
		c.Count("scenarios explored within the bounds", 1)
	}
	return ok
}

const (
	everyQuick    = 2000
	everyThorough = 50000
)

var noAll = os.Getenv("MC_NOALL") != ""
var everyCap, _ = strconv.Atoi(os.Getenv("MC_ALLCAP"))

func bounded(c *chk.C, o vsched.Options, b vsched.Bounds, start func() func(), races bool, check func(*vsched.Result) string) {
	b.Deadline = c.Deadline()
	b.Merge = !o.StmtPoints && !noMerge
	exploration(c, o, start, races, check, func(o *vsched.Options, run func(), f func(*vsched.Result) bool) (vsched.Stats, bool) {
		st := vsched.Explore(o, b, run, f)
		if st.Capped {
			c.NotExhaustive()
			c.Count("capped scenarios", 1)
		}
		return st, true
	})
}

func exploration(c *chk.C, o vsched.Options, start func() func(), races bool, check func(*vsched.Result) string, explorer func(*vsched.Options, func(), func(*vsched.Result) bool) (vsched.Stats, bool)) bool {
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	if o.MaxLoops == 0 {
		o.MaxLoops = 1 << 24
	}
	var body func()
	run := func() { body() }
	judge := func(r *vsched.Result) string {
		if r.Panic != "" {
			return r.Panic
		}
		if r.Livelock != "" {
			return "no progress: " + r.Livelock
		}
		if races && len(r.Races) > 0 {
			return strings.Join(r.Races, "; ")
		}
		if r.Pruned {
			return ""
		}
		return check(r)
	}
	var s schedule
	if c.Replaying() && c.Extra(&s) {
		o.Trace = true
		body = start()
		r := vsched.Run(&o, s.Choices, run)
		if v := judge(r); v != "" {
			chk.FailExtra(v, s, r.Trace)
		}
		return true
	}
	body = start()
	var viol string
	s.Stmt = o.StmtPoints
	base := c.CaseHash()
	st, ok := explorer(&o, run, func(r *vsched.Result) bool {
		c.Alive()
		c.Trans(r.Steps)
		if r.Diverged != "" {
			c.Count("diverged", 1)
			c.NotExhaustive()
		} else if v := judge(r); v != "" {
			viol = v
			s.Choices = vsched.Taken(r)
			return false
		}
		c.Trace()
		h := base ^ uint64(1469598103934665603)
		for _, ch := range r.Choices {
			h = (h ^ uint64(ch.Chosen+1)) * 1099511628211
			h = (h ^ uint64(ch.N)) * 1099511628211
		}
		c.State(h)
		body = start()
		return true
	})
	c.Count("schedules", st.Executions)
	c.Count("schedules that joined one explored before", st.Pruned)
	c.Count("scheduler states", st.States)
	c.Count("choice points", st.Choices)
	if viol != "" {
		o.Trace = true
		body = start()
		r := vsched.Run(&o, s.Choices, run)
		if v := judge(r); v != "" {
			viol = v
		}
		chk.FailExtra(viol, s, r.Trace)
	}
	return ok
}

// once runs the default schedule.
func once(c *chk.C, body func()) *vsched.Result {
	c.Alive()
	r := vsched.Run(&onceOpts, nil, body)
	c.Trans(r.Steps)
	c.Trace()
	if r.Panic != "" {
		chk.Failf("%s", r.Panic)
	}
	if r.Livelock != "" {
		chk.Failf("no progress: %s", r.Livelock)
	}
	return r
}

var onceOpts = vsched.Options{MaxSteps: 1 << 22, MaxLoops: 1 << 26}

// readAll feeds the script to a stream and collects what it delivers, in the default schedule.
func readAll(c *chk.C, w *world, ds m.Dialects, invalid bool) *vsched.Result {
	return once(c, func() {
		w.open(ds, invalid)
		vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
		w.drain()
	})
}

// ---- streams of segments ----

type segment struct {
	name string
	b    []byte
}

func msg(dialect string, name string) *ref.Msg {
	for _, x := range ref.ByDialect[dialect] {
		if x.Name == name {
			return x
		}
	}
	panic("no message " + name)
}

func payloadOf(n int, seed byte) []byte {
	p := make([]byte, n)
	for i := range p {
		p[i] = seed + byte(i)*7
		if p[i] == 0 {
			p[i] = 1
		}
	}
	return p
}

var segs []segment
var segOf = map[string][]byte{}

func cat(bs ...[]byte) (o []byte) {
	for _, b := range bs {
		o = append(o, b...)
	}
	return
}

func init() {
	hb := msg("common", "Heartbeat")
	ld := msg("common", "LoggingData")
	add := func(n string, b []byte) { segs = append(segs, segment{n, b}); segOf[n] = b }
	f := func(v int, inc byte, seq byte, x *ref.Msg, p []byte) []byte {
		return ref.Frame(ref.Header{Version: v, Incompat: inc, Seq: seq, Sys: 1, Comp: 2, ID: x.ID}, p, x.CRC)
	}
	v1 := f(1, 0, 1, hb, payloadOf(hb.Max, 3))
	v2 := f(2, 0, 2, hb, payloadOf(hb.Max, 5))
	sg := f(2, 1, 3, hb, payloadOf(hb.Max, 7))
	flip := func(b []byte, i int) []byte {
		c := append([]byte(nil), b...)
		if i < 0 {
			i += len(c)
		}
		c[i] ^= 0x10
		return c
	}
	add("v1", v1)
	add("v2", v2)
	add("signed", sg)
	add("v2cut", f(2, 0, 4, hb, []byte{9}))
	add("max", f(2, 1, 5, ld, payloadOf(255, 11)))
	add("badcrc1", flip(v1, -1))
	add("badcrc2", flip(v2, -2))
	add("badsig", func() []byte { // signed, wrong payload, valid frame inside the signature area's tail
		b := flip(sg, 12)
		return b
	}())
	add("unknown", ref.Frame(ref.Header{Version: 2, ID: 0x00abcdef, Seq: 6}, payloadOf(4, 1), 0))
	add("short", f(1, 0, 7, hb, payloadOf(2, 1)))
	add("long", f(1, 0, 8, hb, payloadOf(hb.Max+3, 1)))
	add("nestbad", func() []byte { b := f(2, 0, 9, ld, cat(payloadOf(3, 1), v1, payloadOf(2, 2))); return flip(b, -1) }())
	add("nestgood", f(2, 0, 10, ld, cat(payloadOf(5, 1), v1, v2, payloadOf(2, 2))))
	add("nestlong", func() []byte { return cat([]byte{0xfd, 40, 1}, v1) }()) // swallows what follows
	add("half", v1[:9])
	add("fe", []byte{0xfe})
	add("fd", []byte{0xfd})
	add("fdff", []byte{0xfd, 0xff, 0x01})
	add("00", []byte{0})
	add("junk", bytes.Repeat([]byte{0x55}, 300))
	add("fefe", bytes.Repeat([]byte{0xfe, 0x00}, 20))
	for _, s := range []struct {
		n string
		v bool
	}{{"v1", true}, {"v2", true}, {"signed", true}, {"v2cut", true}, {"max", true}, {"nestgood", true}, {"badcrc1", false}, {"badcrc2", false}, {"badsig", false}, {"unknown", false}, {"short", false}, {"long", false}, {"nestbad", false}} {
		b := segOf[s.n]
		if ref.CandLen(b) != len(b) || (ref.Validate(b, stdLookup) == ref.Valid) != s.v {
			panic("segment " + s.n)
		}
	}
	if len(segOf["max"]) != 280 {
		panic("max")
	}
}

// forSeqs calls f with every sequence of n segment indexes of each length lo..hi.
func forSeqs(k, lo, hi int, f func(idx []int)) {
	for l := lo; l <= hi; l++ {
		idx := make([]int, l)
		for {
			f(idx)
			i := l - 1
			for ; i >= 0; i-- {
				idx[i]++
				if idx[i] < k {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

func names(ss []segment, idx []int) string {
	var n []string
	for _, i := range idx {
		n = append(n, ss[i].name)
	}
	return strings.Join(n, "+")
}

func pick(names ...string) (out []segment) {
	for _, n := range names {
		out = append(out, segment{n, segOf[n]})
	}
	return
}

func join(ss []segment, idx []int) (b []byte) {
	for _, i := range idx {
		b = append(b, ss[i].b...)
	}
	return
}

// variants gives frames with every value of each header byte in turn, in both versions, signed and
// not: valid ones of the given message.
func variants(e *ref.Msg, f func(what string, b []byte)) {
	for v := 1; v <= 2; v++ {
		for signed := byte(0); signed < 2; signed++ {
			if v == 1 && signed == 1 {
				continue
			}
			for field := 0; field < 5; field++ {
				for x := 0; x < 256; x++ {
					h := ref.Header{Version: v, Seq: 9, Sys: 8, Comp: 7, ID: e.ID, Incompat: signed}
					p := payloadOf(e.Base(), 3)
					switch field {
					case 0:
						h.Seq = byte(x)
					case 1:
						h.Sys = byte(x)
					case 2:
						h.Comp = byte(x)
					case 3:
						h.Compat = byte(x)
						if v == 1 {
							continue
						}
					case 4:
						p[0] = byte(x)
					}
					f(fmt.Sprintf("version %d, signed %d, %s %d", v, signed, []string{"sequence", "system", "component", "compatibility flags", "first payload byte"}[field], x), ref.Frame(h, p, e.CRC))
				}
			}
		}
	}
}

// validOnly keeps the frames a stream delivers.
func expect(b []byte, l ref.Lookup, invalid bool) (out [][]byte) {
	for _, f := range ref.Scan(b, l) {
		if f.Valid || invalid {
			out = append(out, f.Bytes)
		}
	}
	return
}

func hex(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func sameFrames(got, want [][]byte) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("delivered %d frames, want %d; frame %d is %s", len(got), len(want), i, hex(got[i]))
		}
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Sprintf("frame %d is %s, want %s", i, hex(got[i]), hex(want[i]))
		}
	}
	if len(got) < len(want) {
		return fmt.Sprintf("delivered %d frames, want %d; missing %s", len(got), len(want), hex(want[len(got)]))
	}
	return ""
}

// ---- a tiny dialect, under which frames over a 4 letter alphabet can be valid ----

type tinyDialect struct{ metas map[uint32]ref.Meta }

func (d tinyDialect) GetMeta(id uint32) (m.MessageMeta, error) {
	x, ok := d.metas[id]
	if !ok {
		return m.MessageMeta{}, m.ErrUnknownMessage
	}
	return m.MessageMeta{CRCExtra: x.CRC, MinimumLength: uint(x.Min), MaximumLength: uint(x.Max)}, nil
}
func (d tinyDialect) GetMessage(m.Frame) (m.Message, error) { return nil, m.ErrUnknownMessage }
func (d tinyDialect) lookup(id uint32) (ref.Meta, bool)     { x, ok := d.metas[id]; return x, ok }

var alphabet = []byte{0xfe, 0x00, 0x01, 0xfd}

// newTiny gives each id of the alphabet the CRC extra under which most headers of that id have a
// checksum inside the alphabet.
func newTiny() tinyDialect {
	d := tinyDialect{map[uint32]ref.Meta{}}
	in := map[byte]bool{}
	for _, a := range alphabet {
		in[a] = true
	}
	for _, id := range alphabet {
		best, bn := 0, -1
		for x := 0; x < 256; x++ {
			n := 0
			for k := 0; k < 64; k++ {
				b := ref.Frame(ref.Header{Version: 1, Seq: alphabet[k&3], Sys: alphabet[k>>2&3], Comp: alphabet[k>>4&3], ID: uint32(id)}, nil, byte(x))
				if in[b[6]] && in[b[7]] {
					n++
				}
			}
			if n > bn {
				best, bn = x, n
			}
		}
		d.metas[uint32(id)] = ref.Meta{CRC: byte(best), Min: 0, Max: 255}
	}
	return d
}
