package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"reflect"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
	"verifmc/vsched"
	"verifmc/vsched/vcontext"
)

// pipe carries bytes one way; cut decides how many of the available bytes a read gets.
type pipe struct {
	buf   []byte
	ended bool // the writer has gone away
	cut   func(avail, room int) int
	total []byte
	limit int // bytes it holds (0: no limit)
	v     vsched.SyncVar
}

// pipeEnd is one end of a reliable connection.
type pipeEnd struct {
	in, out *pipe
	closed  bool
	v       vsched.SyncVar
}

func (e *pipeEnd) Read(p []byte) (n int, err error) {
	vsched.Progress()
	vsched.BlockOn("pread", func() bool { return e.closed || len(e.in.buf) > 0 || e.in.ended || len(p) == 0 }, func() {
		e.in.v.Touch(true)
		e.v.Touch(false)
		vsched.Elapse(gap)
		switch {
		case e.closed:
			err = errTransportClosed
		case len(e.in.buf) > 0 && len(p) > 0:
			n = len(e.in.buf)
			if n > len(p) {
				n = len(p)
			}
			if k := e.in.cut(len(e.in.buf), len(p)); k < n {
				n = k
			}
			copy(p, e.in.buf[:n])
			e.in.buf = e.in.buf[n:]
		case e.in.ended:
			err = io.EOF
		}
	}, &e.in.v, &e.v)
	return
}

func (e *pipeEnd) Write(p []byte) (n int, err error) {
	vsched.Progress()
	// a write larger than what the connection holds waits for the reader
	for len(p) > 0 && err == nil {
		vsched.BlockOn("pwrite", func() bool { return e.closed || e.out.limit == 0 || len(e.out.buf) < e.out.limit }, func() {
			e.out.v.Touch(true)
			e.v.Touch(false)
			if e.closed {
				err = errTransportClosed
				return
			}
			k := len(p)
			if e.out.limit > 0 && k > e.out.limit-len(e.out.buf) {
				k = e.out.limit - len(e.out.buf)
			}
			e.out.buf = append(e.out.buf, p[:k]...)
			e.out.total = append(e.out.total, p[:k]...)
			p = p[k:]
			n += k
		}, &e.out.v, &e.v)
	}
	return
}

func (e *pipeEnd) Close() error {
	vsched.Point("pclose")
	e.v.Touch(true)
	e.out.v.Touch(true)
	e.closed = true
	e.out.ended = true
	return nil
}

// letter is a message to send.
type letter struct {
	e   *ref.Msg
	p   []byte
	ver int
	seq byte
}

func (l letter) raw() []byte { return rawFrame(l.e, l.p, l.ver, l.seq) }

func letters(names ...string) (out []letter) {
	for i, n := range names {
		ver := 1 + i&1
		e := msg("common", n)
		if e.ID > 255 {
			ver = 2
		}
		out = append(out, letter{e, fill(e, byte(5+i*13)), ver, byte(250 + i*3)})
	}
	return
}

// typeFor finds the Go type of a message.
func typeFor(d m.Dialect, e *ref.Msg) reflect.Type {
	if t := goTypes[e]; t != nil {
		return t
	}
	x, err := d.GetMessage(m.FrameV2(ref.Frame(ref.Header{Version: 2, ID: e.ID}, []byte{0}, e.CRC)))
	if err != nil {
		chk.Failf("%s is not decoded: %v", e.Name, err)
	}
	goTypes[e] = reflect.TypeOf(x).Elem()
	return goTypes[e]
}

func (l letter) message() m.Message {
	v := reflect.New(typeFor(allDialects[l.e.Dialect], l.e))
	l.e.Fill(v.Elem(), l.p)
	if l.e.Variable {
		v.Elem().FieldByName("PayloadLength").SetUint(uint64(l.e.Max - 5))
	}
	return v.Interface().(m.Message)
}

// is tells how a received message differs from the one sent.
func (l letter) is(f m.Frame, x m.Message) string {
	if !bytes.Equal(f.Bytes(), l.raw()) {
		return fmt.Sprintf("received frame %s, sent %s", hex(f.Bytes()), hex(l.raw()))
	}
	v := reflect.ValueOf(x)
	if v.Type() != reflect.PtrTo(goTypes[l.e]) {
		return fmt.Sprintf("received a %T, sent %s", x, l.e.Name)
	}
	if got, want := l.e.Canon(l.e.Payload(v.Elem())), wanted(l.e, l.p, l.ver); !bytes.Equal(got, want) {
		return fmt.Sprintf("received %s with fields % x, sent % x", l.e.Name, got, want)
	}
	return ""
}

// side is one of the two streams.
type side struct {
	end      *pipeEnd
	in       chan m.Frame
	fs       *m.FrameStream
	send     []letter
	accepted int
	frames   []m.Frame
	msgs     []m.Message
	bad      string
}

// link is one execution: two streams joined by a connection.
type link struct {
	a, b side
	ds   m.Dialects
}

type linkScn struct {
	name string
	a, b []letter
	cut  string
	caps int
	hold int
	end  string // how a goes away: "", "close", "channel", "cancel", "end" (after everything was received)
	ds   m.Dialects
	loss bool // b may close before it has received everything
}

func cutter(s string) func(avail, room int) int {
	k := 0
	switch s {
	case "all":
		return func(a, r int) int { return a }
	case "mixed":
		return func(a, r int) int { k = k%7 + 1; return k * k }
	case "choose":
		return func(a, r int) int {
			if a == 1 {
				return 1
			}
			return []int{a, 1, (a + 1) / 2, a - 1}[vsched.Choose(4)]
		}
	}
	var n int
	fmt.Sscan(s, &n)
	return func(a, r int) int { return n }
}

func newLink(s *linkScn) *link {
	l := &link{ds: s.ds}
	ab, ba := &pipe{cut: cutter(s.cut), limit: s.hold}, &pipe{cut: cutter(s.cut), limit: s.hold}
	l.a = side{end: &pipeEnd{in: ba, out: ab}, in: make(chan m.Frame, s.caps), send: s.a}
	l.b = side{end: &pipeEnd{in: ab, out: ba}, in: make(chan m.Frame, s.caps), send: s.b}
	return l
}

func (l *link) start(s *side, name string, ctx context.Context, stop func()) {
	s.fs = m.NewFrameStream(s.end, s.in, l.ds, false)
	vsched.GoQuiet(name+".R", func() { s.fs.ReadContext(ctx) })
	vsched.GoQuiet(name+".W", func() { s.fs.WriteContext(ctx) })
	vsched.GoQuiet(name+".consumer", func() {
		for {
			f, ok := vsched.Recv2(s.fs.Read())
			if !ok {
				return
			}
			x, err := l.ds.GetMessage(f)
			if err != nil && s.bad == "" {
				s.bad = fmt.Sprintf("%s received a frame that does not decode: %v", name, err)
			}
			s.frames = append(s.frames, f)
			s.msgs = append(s.msgs, x)
		}
	})
	if len(s.send) > 0 || stop != nil {
		vsched.GoQuiet(name+".producer", func() {
			for _, x := range s.send {
				f, err := l.ds.GetFrame(x.ver, 3, 4, x.seq, x.message())
				if err != nil {
					s.bad = fmt.Sprintf("packing %s: %v", x.e.Name, err)
					return
				}
				if vsched.Select(false, vsched.RecvCase(s.fs.Closed()), vsched.SendCase(s.fs.Write())(f)) == 0 {
					return
				}
				s.accepted++
			}
			if stop != nil {
				stop()
			}
		})
	}
}

// body sets the threads going.
func (l *link) body(s *linkScn) {
	ctx, cancel := context.Context(context.Background()), func() {}
	if s.end == "cancel" {
		ctx, cancel = vcontext.WithCancel(context.Background())
	}
	var stop func()
	switch s.end {
	case "close":
		stop = func() { l.a.fs.Close() }
	case "channel":
		stop = func() { vsched.Close(l.a.in) }
	case "cancel":
		stop = cancel
	}
	l.start(&l.a, "a", ctx, stop)
	l.start(&l.b, "b", context.Background(), nil)
}

// received compares what one side received with what the other has sent.
func received(name string, to, from *side, complete bool) string {
	if to.bad != "" {
		return to.bad
	}
	if len(to.frames) > len(from.send) {
		return fmt.Sprintf("%s received %d messages, %d were sent; the last is %s", name, len(to.frames), len(from.send), hex(to.frames[len(to.frames)-1].Bytes()))
	}
	for i, f := range to.frames {
		if d := from.send[i].is(f, to.msgs[i]); d != "" {
			return fmt.Sprintf("%s, message %d: %s", name, i, d)
		}
	}
	// every frame whose last byte went into the connection must have arrived
	n, whole := 0, 0
	for _, x := range from.send {
		n += len(x.raw())
		if n <= len(from.end.out.total) {
			whole++
		}
	}
	if complete && len(to.frames) < whole {
		return fmt.Sprintf("%s received %d messages, but %d had been sent completely", name, len(to.frames), whole)
	}
	return ""
}

func (l *link) judge(s *linkScn, r *vsched.Result) string {
	if x := received("b", &l.b, &l.a, true); x != "" {
		return x
	}
	if x := received("a", &l.a, &l.b, s.end == ""); x != "" {
		return x
	}
	switch s.end {
	case "":
		if l.a.accepted != len(s.a) || l.b.accepted != len(s.b) || len(l.b.frames) != len(s.a) || len(l.a.frames) != len(s.b) {
			return fmt.Sprintf("a sent %d of %d, b received %d; b sent %d of %d, a received %d; waiting: %s", l.a.accepted, len(s.a), len(l.b.frames), l.b.accepted, len(s.b), len(l.a.frames), blocked(r))
		}
	case "channel":
		if len(l.b.frames) != len(s.a) {
			return fmt.Sprintf("a's channel was closed after %d messages, but b received %d; waiting: %s", len(s.a), len(l.b.frames), blocked(r))
		}
		fallthrough
	default:
		if !isClosed(l.a.fs.Closed()) || !isClosed(l.b.fs.Closed()) {
			return fmt.Sprintf("a has gone away (%s), but a is closed: %v, b is closed: %v; waiting: %s", s.end, isClosed(l.a.fs.Closed()), isClosed(l.b.fs.Closed()), blocked(r))
		}
	}
	return ""
}

func c27(c *chk.C) {
	common := m.Dialects{allDialects["common"], allDialects["ardupilotmega"]}
	ab := [][]letter{letters("Heartbeat", "SystemTime"), letters("Heartbeat", "V2Extension", "Heartbeat"), letters("LoggingData")}
	ba := [][]letter{nil, letters("Ping")}
	b := bounds(c, 1, 1, 1)
	same := letters("Heartbeat", "SystemTime")[1]
	ab = append(ab, []letter{same, same, same})
	for _, end := range []string{"", "close", "channel", "cancel"} {
		for ai, as := range ab {
			for bi, bs := range ba {
				for _, cut := range []string{"all", "choose", "1", "mixed", "13"} {
					for _, hold := range []int{0, 20} {
						for _, caps := range []int{0, 2} {
							n := 0
							for _, l := range as {
								n += len(l.raw())
							}
							if cut == "1" && (hold > 0 || caps > 0 || n > 60) || caps > 0 && hold > 0 {
								continue // as many steps as bytes
							}
							s := &linkScn{a: as, b: bs, cut: cut, hold: hold, caps: caps, end: end, ds: common}
							c.Case(func() string {
								return fmt.Sprintf("a sends list %d, b list %d, reads cut by %s, the connection holds %d, channels %d, a ends by %q", ai, bi, cut, hold, caps, end)
							}, func() {
								for _, x := range append(append([]letter(nil), as...), bs...) {
									typeFor(allDialects["common"], x.e)
								}
								var l *link
								explore(c, vsched.Options{}, b, func() func() {
									l = newLink(s)
									return func() { l.body(s) }
								}, func(r *vsched.Result) string { return l.judge(s, r) })
							})
						}
					}
				}
			}
		}
	}
	// every sequence of a few messages, equal ones and equal or falling sequence numbers among them
	hb, st, pg, ext := msg("common", "Heartbeat"), msg("common", "SystemTime"), msg("common", "Ping"), msg("common", "V2Extension")
	abc := []letter{
		{hb, fill(hb, 5), 1, 7}, {hb, fill(hb, 5), 2, 7}, {hb, fill(hb, 5), 2, 6}, {st, fill(st, 9), 2, 7}, {st, fill(st, 9), 1, 0},
		{pg, make([]byte, pg.Max), 2, 255}, {ext, fill(ext, 3), 2, 255},
	}
	depth := 4
	if c.Thorough {
		depth = 6
	}
	forSeqs(len(abc), 1, depth, func(idx []int) {
		ls := make([]letter, len(idx))
		for i, k := range idx {
			ls[i] = abc[k]
		}
		c.Case(func() string { return fmt.Sprintf("a sends %v of the fixed messages", idx) }, func() {
			for _, l := range ls {
				typeFor(allDialects["common"], l.e)
			}
			for _, cut := range []string{"all", "7"} {
				s := &linkScn{a: ls, cut: cut, caps: len(idx) % 2 * 4, end: "channel", ds: common}
				l := newLink(s)
				r := once(c, func() { l.body(s) })
				if x := l.judge(s, r); x != "" {
					chk.Failf("%s", x)
				}
			}
			c.State(chk.HashS(271, fmt.Sprint(idx)))
		})
	})
	c.Case(func() string { return "a thousand messages each way, most of them equal" }, func() {
		var x, y []letter
		for i := 0; i < 1000; i++ {
			x = append(x, letter{hb, fill(hb, byte(i/300)), 1 + i/2&1, byte(i / 2)})
			y = append(y, letter{st, fill(st, 7), 2 - i/500, byte(i % 3)})
		}
		typeFor(allDialects["common"], hb)
		typeFor(allDialects["common"], st)
		for _, cut := range []string{"all", "mixed", "29"} {
			s := &linkScn{a: x, b: y, cut: cut, ds: common}
			l := newLink(s)
			r := once(c, func() { l.body(s) })
			if v := l.judge(s, r); v != "" {
				chk.Failf("reads cut by %s: %s", cut, v)
			}
		}
	})
	c.Case(func() string { return "messages one way for long" }, func() {
		var x []letter
		for i := 0; i < many; i++ {
			x = append(x, letter{hb, fill(hb, byte(i/256)), 1 + i/3&1, byte(i)})
		}
		typeFor(allDialects["common"], hb)
		s := &linkScn{a: x, cut: "64", ds: common}
		l := newLink(s)
		r := once(c, func() { l.body(s) })
		if v := l.judge(s, r); v != "" {
			chk.Failf("%s", v)
		}
	})
	// every message of every dialect, both versions mixed, in one connection per dialect
	ds := dialectNames()
	cuts := []string{"all", "1", "2", "3", "5", "7", "11", "64", "mixed"}
	if c.Thorough {
		cuts = nil
		for i := 1; i <= 300; i++ {
			cuts = append(cuts, fmt.Sprint(i))
		}
	}
	for _, d := range ds {
		es := sortedMsgs(d)
		for _, cut := range cuts {
			for _, hold := range []int{0, 100} {
				c.Case(func() string {
					return fmt.Sprintf("all messages of %s, reads cut by %s, the connection holds %d", d, cut, hold)
				}, func() {
					var ls []letter
					for i, e := range es {
						typeFor(allDialects[d], e)
						for k := 0; k < 2; k++ {
							v := 1 + (i+k)&1
							if e.ID > 255 {
								v = 2
							}
							ls = append(ls, letter{e, fill(e, byte(i*5+k*101)), v, byte(i*2 + k)})
						}
					}
					s := &linkScn{a: ls, cut: cut, hold: hold, end: "channel", ds: m.Dialects{allDialects[d]}}
					l := newLink(s)
					r := once(c, func() { l.body(s) })
					if x := l.judge(s, r); x != "" {
						chk.Failf("%s", x)
					}
					c.State(chk.HashS(uint64(hold), d+cut))
				})
			}
		}
	}
}
