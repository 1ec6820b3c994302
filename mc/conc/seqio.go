package main

import (
	"context"
	"errors"
	"fmt"
	"io"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
	"verifmc/vsched"
)

var errLog = errors.New("log failure")

// sequentialWrites: frames of every kind and length, one after the other.
func sequentialWrites(c *chk.C) {
	send := func(frames [][]byte, capacity int, how string) *world {
		w := &world{tr: &transport{}, in: make(chan m.Frame, capacity)}
		once(c, func() {
			w.open(stdDialects, false)
			vsched.GoNamed("W", func() { w.fs.WriteContext(context.Background()) })
			for _, b := range frames {
				vsched.Send(w.fs.Write())(frameOf(b))
			}
			vsched.Close(w.in)
			vsched.Recv2(w.fs.Closed())
		})
		if s := sameFrames(w.tr.wrote, frames); s != "" {
			chk.Failf("%s: written: %s", how, s)
		}
		for i, n := range w.tr.took {
			if n != len(frames[i]) {
				chk.Failf("%s: write %d", how, i)
			}
		}
		if !isClosed(w.fs.Closed()) || w.fs.GetCloseErr() != m.ErrWriteChannelClosed {
			chk.Failf("%s: after the channel was closed the close error is %v", how, w.fs.GetCloseErr())
		}
		return w
	}
	for n := 0; n < 256; n++ {
		c.Case(func() string { return fmt.Sprintf("frames with %d payload bytes", n) }, func() {
			var fs [][]byte
			for v := 1; v <= 2; v++ {
				for inc := byte(0); inc < 2; inc++ {
					for _, id := range []uint32{0, 248, 0xabcdef} {
						fs = append(fs, ref.Frame(ref.Header{Version: v, Incompat: inc, Seq: byte(n), ID: id}, payloadOf(n, byte(n)), 50))
					}
				}
			}
			send(fs, 0, "unbuffered")
			send(fs, 5, "buffered")
			c.State(uint64(n) + 1<<33)
		})
	}
	failingWritesLogged(c)
	depth := 3
	if c.Thorough {
		depth = 4
	}
	ss := pick("v1", "v2", "signed", "v2cut", "max", "badcrc1", "unknown", "short", "long", "nestgood")
	forSeqs(len(ss), 0, depth, func(idx []int) {
		nm := names(ss, idx)
		c.Case(func() string { return "sent: " + nm }, func() {
			var fs [][]byte
			for _, i := range idx {
				fs = append(fs, ss[i].b)
			}
			for _, cp := range []int{0, 1, 16} {
				send(fs, cp, fmt.Sprintf("capacity %d", cp))
			}
			c.State(chk.HashS(13, nm))
		})
	})
	var cur string
	c.Case(func() string { return "every header byte: " + cur }, func() {
		variants(msg("common", "SystemTime"), func(what string, x []byte) {
			cur = what
			y := append([]byte(nil), x...)
			y[len(y)-3] ^= 1 // what is sent is not looked at
			send([][]byte{x, x, segOf["v1"], y, x}, 2, "buffered")
			c.State(chk.HashS(132, what))
		})
	})
	duplexes(c, false, false)
	longWrites(c, false, nil)
	longWrites(c, false, errWrite)
	otherFrames(c)
	c.Case(func() string { return "a long run of frames" }, func() {
		var fs [][]byte
		for i := 0; i < 3000; i++ {
			fs = append(fs, ref.Frame(ref.Header{Version: 1 + i%2, Seq: byte(i), Sys: byte(i >> 8), ID: uint32(i % 250)}, payloadOf(i%256, byte(i)), byte(i)))
		}
		send(fs, 0, "unbuffered")
		send(fs, 64, "buffered")
	})
}

// sequentialLog: every composition of segments through a logged stream, and echoed back.
func sequentialLog(c *chk.C) {
	failingWritesLogged(c)
	duplexes(c, false, true)
	duplexes(c, true, true)
	longWrites(c, true, nil)
	longWrites(c, true, errWrite)
	for _, inv := range []bool{false, true} {
		longLog(c, inv, nil)
		longLog(c, inv, errLog)
	}
	depth := 2
	if c.Thorough {
		depth = 3
	}
	logged := func(b []byte, ds m.Dialects, look ref.Lookup) {
		for _, inv := range []bool{false, true} {
			want := expect(b, look, inv)
			for kind := 0; kind < 3; kind++ {
				w := &world{tr: &transport{end: io.EOF}, in: make(chan m.Frame)}
				if len(b) > 0 {
					w.tr.reads = []item{{data: b}}
				}
				if kind > 0 {
					w.lg = &logger{}
					if kind == 2 {
						w.lg.err = errLog
					}
				}
				readAll(c, w, ds, inv)
				if s := sameFrames(w.delivered, want); s != "" {
					chk.Failf("logger %d, invalid frames %v: %s", kind, inv, s)
				}
				if kind > 0 {
					if s := sameFrames(w.lg.read, want); s != "" {
						chk.Failf("logger %d, invalid frames %v: log: %s", kind, inv, s)
					}
					if len(w.lg.written) > 0 {
						chk.Failf("something was logged as written")
					}
				}
				if len(w.problems) > 0 {
					chk.Failf("logger %d, invalid frames %v: %s", kind, inv, w.problems[0])
				}
			}
		}
	}
	forSeqs(len(segs), 0, depth, func(idx []int) {
		b := join(segs, idx)
		nm := names(segs, idx)
		c.Case(func() string { return "logged: " + nm }, func() {
			logged(b, stdDialects, stdLookup)
			c.State(chk.HashS(14, nm))
		})
	})
	var cur string
	c.Case(func() string { return "logged, every header byte: " + cur }, func() {
		variants(msg("common", "SystemTime"), func(what string, x []byte) {
			cur = what
			y := append([]byte(nil), x...)
			y[len(y)-3] ^= 1
			logged(cat(x, y, x), stdDialects, stdLookup)
			c.State(chk.HashS(141, what))
		})
	})
	for n := 0; n < 256; n++ {
		c.Case(func() string { return fmt.Sprintf("logged, %d payload bytes", n) }, func() {
			d := tinyDialect{map[uint32]ref.Meta{7: {CRC: 33, Min: 0, Max: 255}}}
			for v := 1; v <= 2; v++ {
				for inc := byte(0); inc < 2; inc++ {
					x := ref.Frame(ref.Header{Version: v, Incompat: inc, Seq: 9, ID: 7}, payloadOf(n, 3), 33)
					logged(cat(x, segOf["v1"], x, x), m.Dialects{d}, d.lookup)
				}
			}
			c.State(uint64(n) + 1<<35)
		})
	}
	for _, d := range dialectNames() {
		c.Case(func() string { return "logged, every message of " + d }, func() {
			var b []byte
			for _, e := range sortedMsgs(d) {
				b = cat(b, ref.Frame(ref.Header{Version: 2, ID: e.ID}, payloadOf(e.Max, 3), e.CRC))
				if e.ID < 256 {
					b = cat(b, ref.Frame(ref.Header{Version: 1, ID: e.ID}, payloadOf(e.Base(), 3), e.CRC))
				}
			}
			logged(b, m.Dialects{allDialects[d]}, ref.LookupOf(d))
			c.State(chk.HashS(142, d))
		})
	}
	for n := 0; n < 256; n++ {
		c.Case(func() string { return fmt.Sprintf("written with %d payload bytes", n) }, func() {
			var fs [][]byte
			for v := 1; v <= 2; v++ {
				for inc := byte(0); inc < 2; inc++ {
					fs = append(fs, ref.Frame(ref.Header{Version: v, Incompat: inc, Seq: byte(n), ID: 300}, payloadOf(n, byte(n)), 50))
				}
			}
			for fail := 0; fail <= len(fs); fail++ {
				for kind := 0; kind < 3; kind++ {
					w := &world{tr: &transport{}, in: make(chan m.Frame, 8)}
					if kind > 0 {
						w.lg = &logger{}
						if kind == 2 {
							w.lg.err = errLog
						}
					}
					for i := 0; i < fail; i++ {
						w.tr.outcomes = append(w.tr.outcomes, wout{})
					}
					w.tr.outcomes = append(w.tr.outcomes, wout{n: 3, err: errWrite})
					once(c, func() {
						w.open(stdDialects, false)
						for _, b := range fs {
							vsched.Send(w.fs.Write())(frameOf(b))
						}
						vsched.Close(w.in)
						w.fs.WriteContext(context.Background())
					})
					k := fail + 1
					if k > len(fs) {
						k = len(fs)
					}
					if s := sameFrames(w.tr.wrote, fs[:k]); s != "" {
						chk.Failf("logger %d, write %d fails: written: %s", kind, fail, s)
					}
					if kind > 0 {
						if fail > len(fs) {
							fail = len(fs)
						}
						if s := sameFrames(w.lg.written, fs[:fail]); s != "" {
							chk.Failf("logger %d, write %d fails: logged as written: %s", kind, fail, s)
						}
						if len(w.lg.read) > 0 {
							chk.Failf("something was logged as read")
						}
					}
				}
			}
			c.State(uint64(n) + 1<<34)
		})
	}
}

// failingWritesLogged: a write fails, with every kind of error, at every place.
func failingWritesLogged(c *chk.C) {
	// a write fails, with each error, after any part of each frame; later writes would succeed
	for _, k := range failKinds {
		if k.withData {
			continue
		}
		for n := 0; n < 4; n++ {
			c.Case(func() string { return fmt.Sprintf("write %d fails with %s", n, k.name) }, func() {
				fs := [][]byte{segOf["v1"], segOf["v2"], segOf["signed"], segOf["v2cut"], segOf["v1"]}
				for part := 0; part <= len(fs[n]); part++ {
					for _, logged := range []bool{false, true} {
						w := &world{tr: &transport{}, in: make(chan m.Frame, 8)}
						if logged {
							w.lg = &logger{}
						}
						w.tr.outcomes = append(make([]wout, n), wout{n: part, err: k.err})
						once(c, func() {
							w.open(stdDialects, false)
							for _, b := range fs {
								vsched.Send(w.fs.Write())(frameOf(b))
							}
							vsched.Close(w.in)
							w.fs.WriteContext(context.Background())
						})
						if s := sameFrames(w.tr.wrote, fs[:n+1]); s != "" {
							chk.Failf("write %d fails with %s after %d bytes: written: %s", n, k.name, part, s)
						}
						if logged {
							if s := sameFrames(w.lg.written, fs[:n]); s != "" {
								chk.Failf("write %d fails with %s after %d bytes: logged as written: %s", n, k.name, part, s)
							}
						}
						if s := w.closedBy(k.err); s != "" {
							chk.Failf("write %d fails with %s after %d bytes: %s", n, k.name, part, s)
						}
						c.State(chk.HashS(131, fmt.Sprint(k.name, n, part, logged)))
					}
				}
			})
		}
	}
}
