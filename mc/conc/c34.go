package main

import (
	"context"
	"fmt"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
	"verifmc/vsched"
)

const (
	aheadBytes  = 256 << 10 // how far a stream may read beyond the frame to be taken next
	aheadFrames = 16        // how many frames it may accept beyond the channel's capacity while a write blocks
	lastThreads = 12        // more goroutines than a stream needs
)

// source is a transport that has very much to read, and counts what is asked of it.
type source struct {
	pat     []byte // repeated
	limit   int
	chunk   int
	handed  int
	reads   int
	wrote   int
	blockAt int // this write and those after it block
	closed  bool
	v       vsched.SyncVar
}

func (s *source) Read(p []byte) (n int, err error) {
	vsched.Progress()
	s.reads++
	vsched.BlockOn("tread", func() bool { return s.closed || s.handed < s.limit || len(p) == 0 }, func() {
		s.v.Touch(true)
		vsched.Elapse(gap)
		if s.closed {
			err = errTransportClosed
			return
		}
		if s.chunk > 0 && len(p) > s.chunk {
			p = p[:s.chunk]
		}
		vsched.WS(p)
		for n < len(p) && s.handed < s.limit {
			k := copy(p[n:], s.pat[s.handed%len(s.pat):])
			if k > s.limit-s.handed {
				k = s.limit - s.handed
			}
			n += k
			s.handed += k
		}
	}, &s.v)
	return
}

func (s *source) Write(p []byte) (n int, err error) {
	vsched.Progress()
	s.v.Touch(true)
	i := s.wrote
	s.wrote++
	vsched.BlockOn("twrite", func() bool { return s.closed || s.blockAt < 0 || i < s.blockAt }, func() { s.v.Touch(true); n = len(p) }, &s.v)
	if s.closed && i >= s.blockAt && s.blockAt >= 0 {
		return 0, errTransportClosed
	}
	return
}

func (s *source) Close() error {
	vsched.Point("tclose")
	s.v.Touch(true)
	s.closed = true
	return nil
}

// held runs a stream whose consumer takes so many frames and then no more.
func held(c *chk.C, pat []byte, chunk, take int, invalid, logged bool) {
	src := &source{pat: pat, limit: 4 * aheadBytes, chunk: chunk, blockAt: -1}
	// where the frames are; the pattern may be out of step with the scan, so scan as much as needed
	var in []byte
	for len(in) < 2000*(take+1) {
		in = append(in, pat...)
	}
	var want []ref.Found
	for _, f := range ref.Scan(in, stdLookup) {
		if f.Valid || invalid {
			want = append(want, f)
		}
	}
	if len(want) <= take {
		return
	}
	w := &world{}
	in2 := make(chan m.Frame)
	var taken int
	r := once(c, func() {
		if logged {
			w.lg = &logger{w: w}
			w.fs = m.NewFrameStreamWithLogger(src, in2, stdDialects, invalid, w.lg)
		} else {
			w.fs = m.NewFrameStream(src, in2, stdDialects, invalid)
		}
		vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
		for ; taken < take; taken++ {
			f, ok := vsched.Recv2(w.fs.Read())
			if !ok {
				w.bad("the stream closed: %v", w.fs.GetCloseErr())
				return
			}
			if string(f.Bytes()) != string(want[taken].Bytes) {
				w.bad("frame %d is %s, want %s", taken, hex(f.Bytes()), hex(want[taken].Bytes))
			}
		}
	})
	if len(w.problems) == 0 && isClosed(w.fs.Closed()) {
		w.bad("the stream closed: %v", w.fs.GetCloseErr())
	}
	if n := src.handed - (want[take].Off + len(want[take].Bytes)); n > aheadBytes {
		w.bad("%d bytes were read beyond the frame to be taken next", n)
	}
	if len(r.Blocked) > lastThreads {
		w.bad("%d goroutines: %s", len(r.Blocked), blocked(r))
	}
	if logged && len(w.lg.read) > take+aheadFrames {
		w.bad("%d frames were logged, %d taken", len(w.lg.read), take)
	}
	if len(w.problems) > 0 {
		chk.Failf("after %d frames, invalid %v, logged %v, reads of %d: %s", take, invalid, logged, chunk, w.problems[0])
	}
}

func c34(c *chk.C) {
	depth := 2
	if c.Thorough {
		depth = 3
	}
	forSeqs(len(segs), 1, depth, func(idx []int) {
		idx = append([]int(nil), idx...)
		c.Case(func() string { return "no end of " + names(segs, idx) + ", nobody takes more than some frames" }, func() {
			for _, take := range []int{0, 1, 2, 7} {
				for _, chunk := range []int{0, 500} {
					for f := 0; f < 3; f++ {
						held(c, join(segs, idx), chunk, take, f == 1, f == 2)
					}
				}
			}
			c.State(chk.HashS(34, fmt.Sprint(idx)))
		})
	})
	// the goroutines stay as many as they were
	n := 3000
	if c.Thorough {
		n = 70000
	}
	for _, kind := range []string{"v1", "max", "badcrc2"} {
		for f := 0; f < 4; f++ {
			invalid, logged := f&1 > 0, f&2 > 0
			if kind == "badcrc2" && !invalid {
				continue
			}
			c.Case(func() string {
				return fmt.Sprintf("goroutines over %d frames %s each way, invalid %v, logged %v", n, kind, invalid, logged)
			}, func() {
				src := &source{pat: segOf[kind], limit: n * len(segOf[kind]), blockAt: -1}
				w := &world{}
				in := make(chan m.Frame, 2)
				once(c, func() {
					if logged {
						w.lg = &logger{w: w}
						w.fs = m.NewFrameStreamWithLogger(src, in, stdDialects, invalid, w.lg)
					} else {
						w.fs = m.NewFrameStream(src, in, stdDialects, invalid)
					}
					vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
					vsched.GoNamed("W", func() { w.fs.WriteContext(context.Background()) })
					for i := 0; i < n; i++ {
						if vsched.Select(false, vsched.RecvCase(w.fs.Closed()), vsched.SendCase(w.fs.Write())(frameOf(segOf[kind]))) == 0 {
							w.bad("closed: %v", w.fs.GetCloseErr())
							return
						}
						if _, ok := vsched.Recv2(w.fs.Read()); !ok {
							w.bad("closed: %v", w.fs.GetCloseErr())
							return
						}
						if k := vsched.LiveThreads(); k > lastThreads {
							w.bad("%d goroutines after %d frames", k, i+1)
							return
						}
					}
				})
				if len(w.problems) > 0 {
					chk.Failf("%s", w.problems[0])
				}
			})
		}
	}
	// sending while a write blocks
	for cp := 0; cp <= 4; cp++ {
		for at := 0; at <= 3; at++ {
			for senders := 1; senders <= 2; senders++ {
				c.Case(func() string {
					return fmt.Sprintf("write %d blocks, %d senders, channel capacity %d", at, senders, cp)
				}, func() {
					var w *world
					var src *source
					var accepted int
					b := bounds(c, 1, 0, 0)
					if senders == 2 {
						b = bounds(c, 0, 0, 0)
					}
					explore(c, vsched.Options{}, b, func() func() {
						w, accepted = &world{}, 0
						src = &source{blockAt: at}
						return func() {
							w.fs = m.NewFrameStream(src, make(chan m.Frame, cp), stdDialects, false)
							vsched.GoQuiet("W", func() { w.fs.WriteContext(context.Background()) })
							for k := 0; k < senders; k++ {
								vsched.GoQuiet(fmt.Sprintf("sender%d", k), func() {
									for i := 0; i < 30; i++ {
										if vsched.Select(false, vsched.RecvCase(w.fs.Closed()), vsched.SendCase(w.fs.Write())(frameOf(segOf["v1"]))) == 0 {
											return
										}
										src.v.Touch(true)
										accepted++
									}
								})
							}
						}
					}, func(r *vsched.Result) string {
						if src.wrote != at+1 || isClosed(w.fs.Closed()) {
							return fmt.Sprintf("%d writes, want %d; close error %v", src.wrote, at+1, w.fs.GetCloseErr())
						}
						if accepted > at+1+cp+aheadFrames {
							return fmt.Sprintf("%d frames were accepted while write %d blocked", accepted, at)
						}
						if len(r.Blocked) > lastThreads {
							return fmt.Sprintf("%d goroutines", len(r.Blocked))
						}
						return ""
					})
				})
			}
		}
	}
	// no loop runs, or one of them
	for loops := 0; loops < 3; loops++ {
		for cp := 0; cp <= 2; cp++ {
			for f := 0; f < 4; f++ {
				c.Case(func() string {
					return fmt.Sprintf("loops %s only, channel capacity %d, logger %v, closed %v", []string{"none", "R", "W"}[loops], cp, f&1 > 0, f&2 > 0)
				}, func() {
					var w *world
					var src *source
					explore(c, vsched.Options{}, bounds(c, 1, 1, 1), func() func() {
						w = &world{}
						src = &source{pat: segOf["v1"], limit: 3 * len(segOf["v1"]), blockAt: -1}
						return func() {
							if f&1 > 0 {
								w.lg = &logger{w: w}
								w.fs = m.NewFrameStreamWithLogger(src, make(chan m.Frame, cp), stdDialects, false, w.lg)
							} else {
								w.fs = m.NewFrameStream(src, make(chan m.Frame, cp), stdDialects, false)
							}
							switch loops {
							case 1:
								vsched.GoQuiet("R", func() { w.fs.ReadContext(context.Background()) })
							case 2:
								vsched.GoQuiet("W", func() { w.fs.WriteContext(context.Background()) })
							}
							vsched.GoQuiet("sender", func() {
								for i := 0; i < 2; i++ {
									if vsched.Select(false, vsched.RecvCase(w.fs.Closed()), vsched.SendCase(w.fs.Write())(frameOf(segOf["v1"]))) == 0 {
										return
									}
								}
							})
							vsched.GoQuiet("taker", func() {
								for {
									f, ok := vsched.Recv2(w.fs.Read())
									if !ok {
										return
									}
									w.got(f)
								}
							})
							if f&2 > 0 {
								vsched.GoQuiet("closer", func() { w.fs.Close() })
							}
						}
					}, func(r *vsched.Result) string {
						if loops != 1 && (src.reads > 0 || len(w.delivered) > 0 || w.lg != nil && len(w.lg.read) > 0) {
							return fmt.Sprintf("without a read loop, %d transport reads, %d frames delivered", src.reads, len(w.delivered))
						}
						if loops != 2 && (src.wrote > 0 || w.lg != nil && len(w.lg.written) > 0) {
							return fmt.Sprintf("without a write loop, %d transport writes", src.wrote)
						}
						if f&2 == 0 {
							if loops == 1 && len(w.delivered) != 3 || loops == 2 && src.wrote != 2 {
								return fmt.Sprintf("%d frames delivered, %d written", len(w.delivered), src.wrote)
							}
							if isClosed(w.fs.Closed()) {
								return "the stream closed"
							}
						}
						return ""
					})
				})
			}
		}
	}
}
