package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"

	m "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
	"verifmc/chk"
	"verifmc/ref"
	"verifmc/vsched"
	"verifmc/vsched/vcontext"
)

// udpEnd is the UDP transport as the stream sees it. The scheduler cannot see into the kernel, so a
// read waits here until there is a datagram to take or the transport is closed.
type udpEnd struct {
	t       *util.UDPReadWriteCloser
	pending int
	taken   int // datagrams read
	wrote   int // writes ended
	closed  bool
	early   int // writes begun before the first datagram was read
	v       vsched.SyncVar
}

func (e *udpEnd) Read(p []byte) (int, error) {
	vsched.Progress()
	vsched.Block("uread", func() bool { return e.closed || e.pending > 0 || len(p) == 0 }, func() {
		e.v.Touch(true)
		if e.pending > 0 && !e.closed {
			e.pending--
		}
	})
	vsched.Elapse(gap)
	n, err := e.t.Read(p)
	vsched.WS(p[:max(n, 0)])
	e.v.Touch(true)
	if err == nil {
		e.taken++
	}
	return n, err
}

func (e *udpEnd) Write(p []byte) (int, error) {
	vsched.Progress()
	e.v.Touch(true)
	if e.taken == 0 {
		e.early++
	}
	vsched.RS(p)
	vsched.Elapse(gap)
	n, err := e.t.Write(p)
	e.v.Touch(true)
	e.wrote++
	return n, err
}

func (e *udpEnd) Close() error {
	vsched.Point("uclose")
	e.v.Touch(true)
	err := e.t.Close()
	e.closed = true
	return err
}

// uStep is a step of what goes on around a stream over UDP.
type uStep struct {
	kind byte   // 'd' a datagram arrives, 's' a frame is sent
	who  int    // from this peer
	b    []byte // what it holds, or the frame
	name string
}

func (s uStep) String() string {
	if s.kind == 'd' {
		return fmt.Sprintf("%s from peer%d", s.name, s.who)
	}
	return "send " + s.name
}

type uRun struct {
	w    *world
	e    *udpEnd
	u    *udpWorld
	in   []byte
	sent [][]byte // accepted frames
	who  int      // sender of the first datagram
}

func (u *udpWorld) stream() *uRun {
	u.drain()
	r := &uRun{w: &world{tr: &transport{}, in: make(chan m.Frame)}, e: &udpEnd{t: u.open()}, u: u, who: -1}
	return r
}

// datagram sends one to the transport.
func (r *uRun) datagram(who int, b []byte) {
	vsched.Point("datagram")
	r.e.v.Touch(true)
	if r.e.closed {
		return
	}
	if _, err := r.u.peers[who].c.WriteToUDP(b, r.u.dst); err != nil {
		panic(err)
	}
	if r.who < 0 {
		r.who = who
	}
	r.in = append(r.in, b...)
	r.e.pending++
}

func (r *uRun) open(invalid bool) {
	r.w.fs = m.NewFrameStream(r.e, r.w.in, stdDialects, invalid)
}

func (r *uRun) end() {
	r.e.t.Close()
}

// arrived compares what the peers received with the frames accepted. The stream may have been
// closed before the last `slack` of them were written.
func (r *uRun) arrived(slack int) string {
	var got [][]byte
	for k, p := range r.u.peers {
		for {
			b, from := p.recv(k == r.who && len(got) < len(r.sent)-slack)
			if b == nil {
				break
			}
			if from.Port != r.u.port || !from.IP.Equal(net.ParseIP(r.u.ip)) {
				return fmt.Sprintf("peer%d received %s from %v", k, hex(b), from)
			}
			if k != r.who {
				return fmt.Sprintf("peer%d received %s, but the first datagram came from peer%d", k, hex(b), r.who)
			}
			got = append(got, b)
		}
	}
	want := r.sent
	if len(got) < len(want) && len(got) >= len(want)-slack {
		want = want[:len(got)]
	}
	if s := sameFrames(got, want); s != "" {
		return fmt.Sprintf("at peer%d: %s", r.who, s)
	}
	return ""
}

// steps runs them one after the other; before the next one everything has settled.
func (u *udpWorld) steps(c *chk.C, ops []uStep, invalid bool) {
	r := u.stream()
	defer r.end()
	early := false
	res := once(c, func() {
		r.open(invalid)
		vsched.GoNamed("R", func() { r.w.fs.ReadContext(context.Background()) })
		vsched.GoNamed("W", func() { r.w.fs.WriteContext(context.Background()) })
		for _, o := range ops {
			switch o.kind {
			case 'd':
				r.datagram(o.who, o.b)
				n := len(expect(r.in, stdLookup, invalid))
				for len(r.w.delivered) < n {
					f, ok := vsched.Recv2(r.w.fs.Read())
					if !ok {
						break
					}
					r.w.got(f)
				}
				vsched.Block("taken", func() bool { return r.e.pending == 0 || r.e.closed }, func() { r.e.v.Touch(false) })
			case 's':
				if r.who < 0 {
					early = true
				}
				if vsched.Select(false, vsched.RecvCase(r.w.fs.Closed()), vsched.SendCase(r.w.fs.Write())(frameOf(append([]byte(nil), o.b...)))) == 1 && !early {
					r.sent = append(r.sent, o.b)
				}
			}
			if early {
				break
			}
		}
		if !early {
			vsched.Close(r.w.in)
		}
		r.w.drain()
	})
	fail := func(s string) {
		if s != "" {
			chk.Failf("%v, invalid %v: %s", ops, invalid, s)
		}
	}
	fail(sameFrames(r.w.delivered, expect(r.in, stdLookup, invalid)))
	for i, f := range r.w.frames {
		if !bytes.Equal(f.Bytes(), r.w.delivered[i]) {
			fail(fmt.Sprintf("frame %d changed", i))
		}
	}
	fail(r.arrived(0))
	want := m.ErrWriteChannelClosed
	if early {
		want = util.ErrNoAddress
	}
	if err := r.w.fs.GetCloseErr(); !errors.Is(err, want) {
		fail(fmt.Sprintf("closed by %v, want %v", err, want))
	}
	if len(res.Blocked) > 0 {
		fail("left waiting: " + blocked(res))
	}
	fail(u.free())
}

// free: the port can be taken again.
func (u *udpWorld) free() string {
	t, err := util.NewUDPReadWriteCloser(u.ip, u.port)
	if err != nil {
		return fmt.Sprintf("the port is not free after the stream was closed: %v", err)
	}
	t.Close()
	return ""
}

func c29(c *chk.C) {
	u := newUDP(2)
	// sequences of datagrams and sends
	var ops []uStep
	for i, n := range []string{"v1", "signed", "badcrc2", "half", "junk"} {
		ops = append(ops, uStep{'d', i & 1, segOf[n], n})
	}
	ops = append(ops, uStep{'d', 1, cat(segOf["v1"], segOf["v2"], segOf["badcrc1"], segOf["max"]), "v1+v2+badcrc1+max"}, uStep{'d', 0, nil, "nothing"},
		uStep{'s', 0, segOf["v2"], "v2"}, uStep{'s', 0, segOf["max"], "max"})
	depth := 4
	if c.Thorough {
		depth = 5
	}
	forSeqs(len(ops), 1, depth-1, func(idx []int) {
		idx = append([]int(nil), idx...)
		c.Case(func() string { return fmt.Sprintf("steps %v and any other", idx) }, func() {
			for i := -1; i < len(ops); i++ {
				if i < 0 && len(idx) > 1 {
					continue
				}
				var seq []uStep
				for _, k := range idx {
					seq = append(seq, ops[k])
				}
				if i >= 0 {
					seq = append(seq, ops[i])
				}
				for _, inv := range []bool{false, true} {
					u.steps(c, seq, inv)
				}
				c.State(chk.HashS(29, fmt.Sprint(idx, i)))
			}
		})
	})
	// datagrams filled with frames of every length
	ld := msg("common", "LoggingData")
	for L := 1; L <= 255; L++ {
		c.Case(func() string { return fmt.Sprintf("datagrams of frames with payloads of %d bytes", L) }, func() {
			for _, inc := range []byte{0, 1} {
				for _, limit := range []int{0, 512, 576, 1024, 1280, 1472} {
					var seq []uStep
					for k := 0; k < 3; k++ {
						var b []byte
						for i := 0; ; i++ {
							f := ref.Frame(ref.Header{Version: 2, Incompat: inc, Seq: byte(i), Sys: byte(k), Comp: 2, ID: ld.ID}, payloadOf(L, byte(i+k)), ld.CRC)
							if len(b) > 0 && len(b)+len(f) > limit {
								break
							}
							b = append(b, f...)
						}
						seq = append(seq, uStep{'d', k & 1, b, fmt.Sprintf("%d bytes of frames", len(b))}, uStep{'s', 0, b[:ref.CandLen(b)], "the first of them"})
					}
					u.steps(c, seq, false)
				}
			}
			c.State(chk.HashS(291, fmt.Sprint(L)))
		})
	}
	c.Case(func() string { return "a long exchange" }, func() {
		n := 600
		if c.Thorough {
			n = 20000
		}
		var seq []uStep
		ss := pick("v1", "v2", "signed", "badcrc1", "max", "unknown", "v2cut")
		for i := 0; i < n; i++ {
			a, b := ss[i%7], ss[i/7%7]
			seq = append(seq, uStep{'d', i / 3 & 1, cat(a.b, b.b), a.name + "+" + b.name})
			if i%3 == 0 {
				seq = append(seq, uStep{'s', 0, a.b, a.name})
			}
		}
		u.steps1(c, seq)
	})
	// all loops at once
	for _, ds := range [][]uStep{
		{{'d', 0, cat(segOf["v1"], segOf["v2"]), "v1+v2"}, {'d', 1, segOf["signed"], "signed"}},
		{{'d', 1, segOf["badcrc1"], "badcrc1"}, {'d', 0, segOf["v2"], "v2"}, {'d', 1, segOf["v1"], "v1"}},
	} {
		for _, send := range [][]string{nil, {"v1", "max"}} {
			for _, when := range []string{"at once", "after the first frame"} {
				for _, how := range []string{"stays", "close", "cancel", "channel", "two close"} {
					if send == nil && when == "at once" || how == "channel" && send == nil {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("datagrams %v, sends %v %s, %s, all schedules", ds, send, when, how)
					}, func() { u.schedules(c, ds, send, when, how) })
				}
			}
		}
	}
}

// steps1 is steps for many: what is expected is worked out once.
func (u *udpWorld) steps1(c *chk.C, ops []uStep) {
	r := u.stream()
	defer r.end()
	var in []byte
	for _, o := range ops {
		if o.kind == 'd' {
			in = append(in, o.b...)
		}
	}
	want := expect(in, stdLookup, false)
	var sent int
	res := once(c, func() {
		r.open(false)
		vsched.GoNamed("R", func() { r.w.fs.ReadContext(context.Background()) })
		vsched.GoNamed("W", func() { r.w.fs.WriteContext(context.Background()) })
		vsched.GoNamed("consumer", func() { r.w.drain() })
		for i, o := range ops {
			if o.kind == 'd' {
				r.datagram(o.who, o.b)
				vsched.Block("taken", func() bool { return r.e.pending == 0 || r.e.closed }, func() { r.e.v.Touch(false) })
				continue
			}
			if vsched.Select(false, vsched.RecvCase(r.w.fs.Closed()), vsched.SendCase(r.w.fs.Write())(frameOf(append([]byte(nil), o.b...)))) == 0 {
				r.w.bad("the stream closed by itself at step %d: %v", i, r.w.fs.GetCloseErr())
				return
			}
			sent++
			// the peer takes it at once, lest its buffer runs full
			vsched.Block("written", func() bool { return r.e.wrote >= sent || r.e.closed }, func() { r.e.v.Touch(false) })
			b, _ := u.peers[r.who].recv(true)
			if !bytes.Equal(b, o.b) {
				r.w.bad("send %d: the peer received %s, want %s", sent, hex(b), hex(o.b))
				return
			}
		}
		vsched.Block("delivered", func() bool { return len(r.w.delivered) >= len(want) || r.e.closed }, func() {})
		vsched.Close(r.w.in)
	})
	if len(r.w.problems) > 0 {
		chk.Failf("%s", r.w.problems[0])
	}
	if s := sameFrames(r.w.delivered, want); s != "" {
		chk.Failf("%s; waiting: %s", s, blocked(res))
	}
	if s := r.arrived(0); s != "" {
		chk.Failf("%s", s)
	}
}

func (u *udpWorld) schedules(c *chk.C, ds []uStep, send []string, when, how string) {
	var r *uRun
	done := func() {
		if r != nil {
			r.end()
			r = nil
		}
	}
	defer done()
	var causes []error
	start := func() func() {
		done()
		r = u.stream()
		x := r
		causes = nil
		return func() {
			x.open(false)
			ctx, cancel := context.Context(context.Background()), func() {}
			if how == "cancel" {
				ctx, cancel = vcontext.WithCancel(context.Background())
			}
			first := make(chan struct{})
			vsched.GoQuiet("R", func() { x.w.fs.ReadContext(ctx) })
			vsched.GoQuiet("W", func() { x.w.fs.WriteContext(ctx) })
			vsched.GoQuiet("peers", func() {
				for _, o := range ds {
					x.datagram(o.who, o.b)
				}
			})
			vsched.GoQuiet("consumer", func() {
				for {
					f, ok := vsched.Recv2(x.w.fs.Read())
					if !ok {
						return
					}
					x.w.got(f)
					if len(x.w.delivered) == 1 {
						vsched.Close(first)
					}
				}
			})
			vsched.GoQuiet("producer", func() {
				if when != "at once" && vsched.Select(false, vsched.RecvCase(x.w.fs.Closed()), vsched.RecvCase((<-chan struct{})(first))) == 0 {
					return
				}
				for _, n := range send {
					if vsched.Select(false, vsched.RecvCase(x.w.fs.Closed()), vsched.SendCase(x.w.fs.Write())(frameOf(append([]byte(nil), segOf[n]...)))) == 0 {
						return
					}
					x.sent = append(x.sent, segOf[n])
				}
				if how == "channel" {
					causes = append(causes, m.ErrWriteChannelClosed)
					vsched.Close(x.w.in)
				}
			})
			switch how {
			case "two close":
				vsched.GoQuiet("closer2", func() { causes = append(causes, m.ErrUserClosed); x.w.fs.Close() })
				fallthrough
			case "close":
				vsched.GoQuiet("closer", func() { causes = append(causes, m.ErrUserClosed); x.w.fs.Close() })
			case "cancel":
				vsched.GoQuiet("canceller", func() { causes = append(causes, context.Canceled); cancel() })
			}
		}
	}
	b := bounds(c, 1, 1, 1)
	b.MaxExec = 400000
	explore(c, vsched.Options{}, b, start, func(res *vsched.Result) string {
		x := r
		closed := isClosed(x.w.fs.Closed())
		err := x.w.fs.GetCloseErr()
		want := expect(x.in, stdLookup, false)
		if closed && len(x.w.delivered) < len(want) {
			want = want[:len(x.w.delivered)]
		}
		if s := sameFrames(x.w.delivered, want); s != "" {
			return s + "; waiting: " + blocked(res)
		}
		if errors.Is(err, util.ErrNoAddress) && x.e.early == 0 {
			return "closed by the no-address error, though a datagram had been read before the first write"
		}
		ok := !closed && how == "stays" || errors.Is(err, util.ErrNoAddress) && x.e.early > 0
		for _, e := range causes {
			ok = ok || closed && errors.Is(err, e)
		}
		if !ok {
			return fmt.Sprintf("closed: %v by %v, waiting: %s", closed, err, blocked(res))
		}
		slack := 0
		if closed {
			slack = 1
			if errors.Is(err, util.ErrNoAddress) {
				slack = len(x.sent)
			} else if errors.Is(err, m.ErrWriteChannelClosed) {
				slack = 0
			}
		} else if len(x.sent) != len(send) || x.e.early == 0 && len(x.w.delivered) != len(want) {
			return fmt.Sprintf("%d of %d frames accepted; waiting: %s", len(x.sent), len(send), blocked(res))
		}
		if x.who < 0 {
			x.who = 0
		}
		if s := x.arrived(slack); s != "" {
			return s
		}
		if closed {
			if len(res.Blocked) > 0 {
				return "left waiting after closing: " + blocked(res)
			}
			return u.free()
		}
		return ""
	})
}
