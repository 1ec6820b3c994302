package main

import (
	"bytes"
	"context"
	"fmt"
	"io"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/vsched"
)

// dop is one step of a stream used in both directions.
type dop struct {
	kind byte // 'r' bytes arrive, 's' a frame is sent, 'f' the frame received last is sent on, 'b' sent and arriving at once
	b    []byte
	name string
}

// duplex runs the steps one after the other on one stream: what arrives must not depend on what is
// sent, nor the other way round.
func duplex(c *chk.C, ops []dop, invalid, logged bool, end error) {
	w := &world{tr: &transport{}, in: make(chan m.Frame)}
	if logged {
		w.lg = &logger{}
	}
	var in []byte
	var sent, log [][]byte
	var want [][]byte
	add := func(b []byte) int {
		in = append(in, b...)
		want = expect(in, stdLookup, invalid)
		return len(want)
	}
	once(c, func() {
		w.open(stdDialects, invalid)
		vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
		vsched.GoNamed("W", func() { w.fs.WriteContext(context.Background()) })
		feed := func(b []byte) {
			vsched.Point("feed")
			w.tr.rdv.Touch(true)
			w.tr.reads = append(w.tr.reads, item{data: b})
		}
		take := func(n int) {
			for len(w.delivered) < n {
				f, ok := vsched.Recv2(w.fs.Read())
				if !ok {
					return
				}
				w.got(f)
			}
		}
		put := func(f m.Frame) {
			sent = append(sent, append([]byte(nil), f.Bytes()...))
			vsched.Send(w.fs.Write())(f)
		}
		settle := func() {
			vsched.Block("settled", func() bool {
				return len(w.tr.reads) == 0 && len(w.tr.wrote) == len(sent) && (!logged || len(w.lg.written) == len(sent))
			}, func() {})
		}
		for _, o := range ops {
			switch o.kind {
			case 'r':
				feed(o.b)
				take(add(o.b))
			case 's':
				put(frameOf(append([]byte(nil), o.b...)))
			case 'f':
				if n := len(w.frames); n > 0 {
					put(w.frames[n-1])
				} else {
					put(frameOf(o.b))
				}
			case 'b':
				n := add(o.b)
				feed(o.b)
				put(frameOf(append([]byte(nil), o.b...)))
				take(n)
			}
			settle()
		}
		if end != nil {
			vsched.Point("end")
			w.tr.rdv.Touch(true)
			w.tr.end = end
		} else {
			vsched.Close(w.in)
		}
		w.drain()
	})
	log = want
	fail := func(s string) {
		if s != "" {
			var n []string
			for _, o := range ops {
				n = append(n, string(o.kind)+" "+o.name)
			}
			chk.Failf("%v, invalid %v, logged %v: %s", n, invalid, logged, s)
		}
	}
	fail(sameFrames(w.delivered, want))
	for i, f := range w.frames {
		if !bytes.Equal(f.Bytes(), want[i]) {
			fail(fmt.Sprintf("frame %d changed", i))
		}
	}
	if s := sameFrames(w.tr.wrote, sent); s != "" {
		fail("written: " + s)
	}
	if logged {
		if s := sameFrames(w.lg.read, log); s != "" {
			fail("logged as read: " + s)
		}
		if s := sameFrames(w.lg.written, sent); s != "" {
			fail("logged as written: " + s)
		}
	}
	if end == nil {
		end = m.ErrWriteChannelClosed
	}
	fail(w.closedBy(end))
}

// duplexes: all sequences of steps, received and sent frames being the same ones, in both directions.
func duplexes(c *chk.C, invalid, logged bool) {
	depth := 3
	if c.Thorough {
		depth = 4
	}
	var ops []dop
	for _, s := range pick("v1", "v2", "badcrc1", "signed") {
		for _, k := range []byte("rsbf") {
			if k == 'f' && s.name != "v1" {
				continue
			}
			ops = append(ops, dop{k, s.b, s.name})
		}
	}
	forSeqs(len(ops), 1, depth-1, func(idx []int) {
		idx = append([]int(nil), idx...)
		c.Case(func() string { return fmt.Sprintf("both directions, steps %v and any other", idx) }, func() {
			for i := range ops {
				var seq []dop
				for _, k := range append(idx[:len(idx):len(idx)], i) {
					seq = append(seq, ops[k])
				}
				for _, end := range []error{io.EOF, nil} {
					duplex(c, seq, invalid, logged, end)
				}
			}
			c.State(chk.HashS(61, fmt.Sprint(idx)))
		})
	})
	for _, kinds := range []string{"b", "rf", "rs", "sr", "rrff", "rfsbb", "ssssrrrr"} {
		c.Case(func() string { return fmt.Sprintf("both directions, a long run of %s", kinds) }, func() {
			n := 3000
			if c.Thorough {
				n = many
			}
			var seq []dop
			for i := 0; i < n; i++ {
				// every frame comes around twice, as an echo in either direction
				b := numbered(i / len(kinds) / 2)
				seq = append(seq, dop{kinds[i%len(kinds)], b, "numbered"})
			}
			duplexLong(c, seq, invalid, logged)
			c.State(chk.HashS(62, kinds))
		})
	}
}

// duplexLong is duplex for long runs of valid frames: the expectation is the list of frames, not a
// scan repeated at each step.
func duplexLong(c *chk.C, ops []dop, invalid, logged bool) {
	w := &world{tr: &transport{}, in: make(chan m.Frame)}
	if logged {
		w.lg = &logger{}
	}
	var sent, want [][]byte
	once(c, func() {
		w.open(stdDialects, invalid)
		vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
		vsched.GoNamed("W", func() { w.fs.WriteContext(context.Background()) })
		for _, o := range ops {
			if o.kind == 'r' || o.kind == 'b' {
				vsched.Point("feed")
				w.tr.rdv.Touch(true)
				w.tr.reads = append(w.tr.reads, item{data: o.b})
				want = append(want, o.b)
			}
			if o.kind != 'r' {
				f := frameOf(o.b)
				if n := len(w.frames); o.kind == 'f' && n > 0 {
					f = w.frames[n-1]
				}
				sent = append(sent, append([]byte(nil), f.Bytes()...))
				vsched.Send(w.fs.Write())(f)
			}
			if len(w.delivered) < len(want) {
				f, ok := vsched.Recv2(w.fs.Read())
				if !ok {
					return
				}
				w.got(f)
			}
		}
		vsched.Block("settled", func() bool {
			return len(w.tr.wrote) == len(sent) && (!logged || len(w.lg.written) == len(sent))
		}, func() {})
		vsched.Point("end")
		w.tr.rdv.Touch(true)
		w.tr.end = io.EOF
		w.drain()
	})
	fail := func(what, s string) {
		if s != "" {
			chk.Failf("%s%s", what, s)
		}
	}
	fail("delivered: ", sameFrames(w.delivered, want))
	var now [][]byte
	for _, f := range w.frames {
		now = append(now, f.Bytes())
	}
	fail("at the end: ", sameFrames(now, want))
	fail("written: ", sameFrames(w.tr.wrote, sent))
	if logged {
		fail("logged as read: ", sameFrames(w.lg.read, want))
		fail("logged as written: ", sameFrames(w.lg.written, sent))
	}
	fail("", w.closedBy(io.EOF))
}
