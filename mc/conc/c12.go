package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/vsched"
)

type failKind struct {
	name     string
	err      error
	withData bool
}

var tempErr = timeoutErr{}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var failKinds = []failKind{
	{"end of file", io.EOF, false}, {"end of file with the last bytes", io.EOF, true},
	{"failure", errRead, false}, {"failure with the last bytes", errRead, true},
	{"timeout", tempErr, false}, {"timeout with the last bytes", tempErr, true},
	{"unexpected end of file", io.ErrUnexpectedEOF, true},
	{"no progress", io.ErrNoProgress, false}, {"closed pipe", io.ErrClosedPipe, true}, {"short buffer", io.ErrShortBuffer, false},
	{"interrupted call", syscall.EINTR, false}, {"try again", &net.OpError{Op: "read", Net: "udp", Err: syscall.EAGAIN}, false},
	{"connection refused", &net.OpError{Op: "read", Net: "udp", Err: syscall.ECONNREFUSED}, false}, {"use of closed connection", net.ErrClosed, false},
	{"deadline", os.ErrDeadlineExceeded, false}, {"short write", io.ErrShortWrite, false}, {"context", context.Canceled, false},
	{"an error of the library", m.ErrUnknownMessage, false}, {"closed by the user, says the transport", m.ErrUserClosed, false},
}

// closedBy checks that the stream has closed itself once, for the given reason.
func (w *world) closedBy(err error) string {
	if !isClosed(w.fs.Closed()) || !isClosed(w.fs.Read()) {
		return "the stream has not closed itself"
	}
	if w.tr.closes != 1 {
		return fmt.Sprintf("the transport was closed %d times", w.tr.closes)
	}
	g := w.fs.GetCloseErr()
	if g == nil || !(errors.Is(g, err) || (err == io.EOF && errors.Is(g, io.ErrUnexpectedEOF))) {
		return fmt.Sprintf("the close error is %v, want %v", g, err)
	}
	return ""
}

func c12(c *chk.C) {
	run := func(c *chk.C, b []byte, k failKind, chunk int, invalid bool, want [][]byte) {
		it := item{data: b}
		end := k.err
		if k.withData && len(b) > 0 {
			it.err = k.err
			end = errRead2
		}
		w := &world{tr: &transport{end: end, chunk: chunk}, in: make(chan m.Frame)}
		if len(b) > 0 {
			w.tr.reads = []item{it}
		}
		readAll(c, w, stdDialects, invalid)
		s := sameFrames(w.delivered, want)
		if s == "" {
			s = w.closedBy(k.err)
		}
		if s != "" {
			chk.Failf("%s after %d bytes, in reads of %d: %s", k.name, len(b), chunk, s)
		}
	}
	depth := 2
	if c.Thorough {
		depth = 3
	}
	forSeqs(len(segs), 0, depth, func(idx []int) {
		b := join(segs, idx)
		nm := names(segs, idx)
		c.Case(func() string { return "failure at every byte of " + nm }, func() {
			c.State(chk.HashS(12, nm))
			lo := 0
			if len(idx) > 1 {
				lo = len(b) - len(segs[idx[len(idx)-1]].b)
			}
			for n := lo; n <= len(b); n++ {
				want := expect(b[:n], stdLookup, false)
				for ki, k := range failKinds {
					run(c, b[:n], k, 0, false, want)
					if ki < 4 {
						if n-lo < 60 || n%11 == 0 {
							run(c, b[:n], k, 1, false, want)
						}
						run(c, b[:n], k, 7, false, want)
					}
				}
				if n%4 == 0 {
					run(c, b[:n], failKinds[n/4%4], 0, true, expect(b[:n], stdLookup, true))
				}
			}
		})
	})
	// a deeper alphabet of the segments that interact
	some := pick("v1", "signed", "badcrc2", "nestbad", "v2cut", "half", "nestgood", "00")
	forSeqs(len(some), depth+1, depth+1, func(idx []int) {
		b := join(some, idx)
		nm := names(some, idx)
		c.Case(func() string { return "failure at every byte of the last part of " + nm }, func() {
			for n := len(b) - len(some[idx[len(idx)-1]].b); n <= len(b); n++ {
				want := expect(b[:n], stdLookup, false)
				for _, k := range failKinds[:4] {
					run(c, b[:n], k, 0, false, want)
					run(c, b[:n], k, 7, false, want)
				}
				run(c, b[:n], failKinds[n%4], 0, true, expect(b[:n], stdLookup, true))
			}
			c.State(chk.HashS(12, nm))
		})
	})
	failAfter(c, 300)
	longWrites(c, false, errWrite)
	// failing writes: after every number of frames, with every part of the frame taken, reads idle or busy
	for n := 0; n < 4; n++ {
		for ki, k := range failKinds {
			if k.withData {
				continue
			}
			for _, busy := range []int{0, 1, 2} {
				c.Case(func() string {
					return fmt.Sprintf("write %d fails with %s, reads %d", n, k.name, busy)
				}, func() {
					c.State(uint64(n)<<16 | uint64(ki)<<4 | uint64(busy))
					for _, part := range []int{0, 1, 10, 20, 21} {
						for _, cap := range []int{0, 4} {
							if c.TimeUp() {
								return
							}
							failingWrite(c, n, part, cap, busy, k)
						}
					}
				})
			}
		}
	}
}

func failingWrite(c *chk.C, n, part, capacity, busy int, k failKind) {
	var w *world
	sent := [][]byte{segOf["v1"], segOf["v2"], segOf["signed"], segOf["max"], segOf["v2cut"]}
	pb := 1
	if c.Thorough {
		pb = 2
	}
	explore(c, vsched.Options{}, vsched.Bounds{Preemptions: pb, Free: 1, Sel: 1, MaxExec: 40000}, func() func() {
		w = &world{tr: &transport{}, in: make(chan m.Frame, capacity)}
		for i := 0; i < n; i++ {
			w.tr.outcomes = append(w.tr.outcomes, wout{})
		}
		w.tr.outcomes = append(w.tr.outcomes, wout{n: part, err: k.err})
		if busy > 0 {
			w.tr.reads = []item{{data: cat(segOf["v1"], segOf["v2"])}}
		}
		return func() {
			w.open(stdDialects, false)
			vsched.GoNamed("W", func() { w.fs.WriteContext(context.Background()) })
			vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
			if busy == 2 {
				vsched.GoNamed("consumer", w.drain)
			}
			for _, b := range sent {
				f := frameOf(b)
				d := vsched.RecvCase(w.fs.Closed())
				s := vsched.SendCase(w.fs.Write())(f)
				if vsched.Select(false, d, s) == 0 {
					break
				}
			}
		}
	}, func(r *vsched.Result) string {
		if len(w.tr.wrote) != n+1 {
			return fmt.Sprintf("%d writes, want %d: nothing after the failure", len(w.tr.wrote), n+1)
		}
		if s := sameFrames(w.tr.wrote, sent[:n+1]); s != "" {
			return "written: " + s
		}
		if len(r.Blocked) > 0 {
			return fmt.Sprintf("still there: %v", r.Blocked)
		}
		return w.closedBy(k.err)
	})
}

func frameOf(b []byte) m.Frame {
	if b[0] == 0xfe {
		return m.FrameV1(append([]byte(nil), b...))
	}
	return m.FrameV2(append([]byte(nil), b...))
}
