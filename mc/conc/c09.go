package main

import (
	"bytes"
	"context"
	"fmt"
	"io"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
	"verifmc/vsched"
)

func runScript(c *chk.C, items []item, end error, chunk int, ds m.Dialects, want [][]byte, invalid bool) *world {
	w := &world{tr: &transport{end: end, reads: items, chunk: chunk}, in: make(chan m.Frame)}
	readAll(c, w, ds, invalid)
	if s := sameFrames(w.delivered, want); s != "" {
		chk.Failf("%s", s)
	}
	return w
}

func sizes(items []item) (s []int) {
	for _, i := range items {
		s = append(s, len(i.data))
	}
	return
}

// c09 compares what is delivered under every split with the frames of the unsplit stream.
func c09(c *chk.C) {
	split := func(c *chk.C, items []item, end error, chunk int, ds m.Dialects, want [][]byte, invalid bool) {
		defer func() {
			if r := recover(); r != nil {
				chk.FailWrap(r, fmt.Sprintf("reads of %v bytes, at most %d at a time: ", sizes(items), chunk))
			}
		}()
		runScript(c, items, end, chunk, ds, want, invalid)
	}
	// all compositions of short streams
	d := newTiny()
	var shorts [][]byte
	mk := func(v int, id byte, p []byte) []byte {
		return ref.Frame(ref.Header{Version: v, ID: uint32(id), Seq: 1, Sys: 1}, p, d.metas[uint32(id)].CRC)
	}
	bad := mk(1, 0, nil)
	bad[7] ^= 1
	shorts = append(shorts,
		cat(mk(1, 0, nil), mk(1, 1, nil)),
		cat(bad, mk(1, 1, nil)),
		cat([]byte{0xfe, 0}, mk(1, 1, nil), []byte{0xfd}),
		cat(mk(2, 1, nil), []byte{0xfe, 0, 1}),
		cat([]byte{0xfd, 1, 1}, mk(1, 0xfe, []byte{1})),
		cat(mk(2, 0xfd, []byte{0xfe}), []byte{0}),
	)
	if c.Thorough {
		shorts = append(shorts, cat(mk(1, 0, nil), mk(2, 1, nil)), cat(bad, mk(2, 1, nil)), cat(mk(1, 1, nil), []byte{0, 0xfe}, mk(1, 0, []byte{0xfe, 0xfd})))
	}
	for si, b := range shorts {
		n := len(b)
		want := expect(b, d.lookup, false)
		nb := n - 1 - 10
		if nb < 0 {
			nb = 0
		}
		for hi := 0; hi < 1<<nb; hi++ {
			c.Case(func() string { return fmt.Sprintf("stream %x, compositions %d/%d", b, hi, 1<<nb) }, func() {
				for lo := 0; lo < 1<<(n-1-nb); lo++ {
					mask := hi<<(n-1-nb) | lo
					var items []item
					start := 0
					for i := 1; i <= n; i++ {
						if i == n || mask>>(i-1)&1 == 1 {
							items = append(items, item{data: b[start:i]})
							start = i
						}
					}
					withEOF := append([]item(nil), items...)
					withEOF[len(withEOF)-1].err = io.EOF
					split(c, items, io.EOF, 0, m.Dialects{d}, want, false)
					split(c, withEOF, errRead2, 0, m.Dialects{d}, want, false)
					if mask&3 == 0 {
						split(c, items, nil, 0, m.Dialects{d}, want, false)
					}
				}
				c.State(uint64(si)<<32 | uint64(hi))
			})
		}
	}
	// up to three reads, with empty reads before any of them, for all pairs of segments
	ss := segs
	cuts := func(b []byte, step int, f func(items []item, what string)) {
		for i := 0; i <= len(b); i += step {
			for j := i; j <= len(b); j += step {
				items := []item{{data: b[:i]}, {data: b[i:j]}, {data: b[j:]}}
				f(items, fmt.Sprintf("cuts at %d and %d", i, j))
			}
		}
	}
	small := pick("v1", "v2", "signed", "badcrc1", "nestbad", "half", "fdff", "00")
	pairs := 2
	if c.Thorough {
		pairs = 3
	}
	forSeqs(len(small), 1, pairs, func(idx []int) {
		b := join(small, idx)
		nm := names(small, idx)
		want := expect(b, stdLookup, false)
		c.Case(func() string { return "three reads of " + nm }, func() {
			cuts(b, 1, func(items []item, what string) {
				split(c, items, io.EOF, 0, stdDialects, want, false)
			})
			c.State(chk.HashS(90, nm))
		})
		c.Case(func() string { return "one cut with empty reads and the end with data: " + nm }, func() {
			for i := 0; i <= len(b); i++ {
				for _, e := range []int{1, 2, 3, 40} {
					var items []item
					for k := 0; k < e; k++ {
						items = append(items, item{})
					}
					items = append(items, item{data: b[:i]})
					for k := 0; k < e; k++ {
						items = append(items, item{})
					}
					items = append(items, item{data: b[i:], err: io.EOF})
					split(c, items, errRead2, 0, stdDialects, want, false)
				}
			}
		})
	})
	depth := 3
	if c.Thorough {
		depth = 4
	}
	forSeqs(len(ss), 1, depth, func(idx []int) {
		b := join(ss, idx)
		nm := names(ss, idx)
		want := expect(b, stdLookup, false)
		wantInv := expect(b, stdLookup, true)
		c.Case(func() string { return "fixed read sizes of " + nm }, func() {
			for _, k := range []int{1, 2, 3, 7, 8, 12, 13, 279, 280, 281} {
				if k > len(b) && k > 8 {
					continue
				}
				split(c, []item{{data: b}}, io.EOF, k, stdDialects, want, false)
				split(c, []item{{data: b, err: io.EOF}}, errRead2, k, stdDialects, want, false)
				split(c, []item{{data: b}}, nil, k, stdDialects, want, false)
				if k < 4 {
					split(c, []item{{data: b}}, io.EOF, k, stdDialects, wantInv, true)
				}
			}
			c.State(chk.HashS(91, nm))
		})
	})
	// long streams: more than the stream's and the reader's buffers, at every phase
	long := func(cycle []segment, min int) (b []byte) {
		for i := 0; len(b) < min; i++ {
			b = append(b, cycle[i%len(cycle)].b...)
		}
		return
	}
	total, maxChunk := 12000, 600
	if c.Thorough {
		total, maxChunk = 60000, 4200
	}
	cycles := [][]segment{pick("v1"), pick("max"), pick("v1", "v2", "signed", "max"), pick("v1", "badcrc1", "max", "nestbad", "00", "v2cut"), pick("junk", "v2", "fdff", "fefe", "signed", "nestgood")}
	for ci, cy := range cycles {
		for phase := 0; phase < 3; phase++ {
			b := cat(bytes.Repeat([]byte{0x11}, phase*1361), long(cy, total))
			want := expect(b, stdLookup, false)
			for k0 := 1; k0 <= maxChunk; k0 += 20 {
				c.Case(func() string {
					return fmt.Sprintf("%d bytes of cycle %d phase %d in reads of %d..%d", len(b), ci, phase, k0, k0+19)
				}, func() {
					for k := k0; k < k0+20; k++ {
						if k > 300 && k%37 != 0 && k < 4080 {
							continue
						}
						split(c, []item{{data: b}}, io.EOF, k, stdDialects, want, false)
					}
					c.State(uint64(ci)<<40 | uint64(phase)<<32 | uint64(k0))
				})
			}
			c.Case(func() string { return fmt.Sprintf("%d bytes of cycle %d phase %d at once", len(b), ci, phase) }, func() {
				split(c, []item{{data: b}}, io.EOF, 0, stdDialects, want, false)
				split(c, []item{{data: b}}, nil, 0, stdDialects, want, false)
			})
		}
	}
	for _, k := range []int{1, 2, 3, 7, 19, 20, 21, 64, 279, 280, 557, 558, 559, 1021} {
		longReads(c, false, false, k%2 == 0, k)
	}
	// n earlier frames, then each segment cut in two at each position
	counts := []int{1, 2, 13, 14, 15, 26, 27, 28, 195, 196, 255, 256, 257}
	for _, n := range counts {
		for _, s := range segs {
			c.Case(func() string { return fmt.Sprintf("%d frames at once, then %s in two reads", n, s.name) }, func() {
				pre := bytes.Repeat(segOf["v2"], n)
				b := cat(pre, s.b, segOf["v1"])
				want := expect(b, stdLookup, false)
				for i := 0; i <= len(s.b) && i < 300; i++ {
					split(c, []item{{data: b[:len(pre)+i]}, {data: b[len(pre)+i:]}}, io.EOF, 0, stdDialects, want, false)
				}
				c.State(chk.HashS(uint64(n), s.name))
			})
		}
	}
	// the reader runs ahead of a slow consumer or not: schedules of reader and consumer
	for _, k := range []int{1, 5, 40} {
		b := cat(segOf["v1"], segOf["badcrc1"], segOf["signed"], segOf["v2"])
		want := expect(b, stdLookup, false)
		c.Case(func() string { return fmt.Sprintf("schedules of reader and consumer, reads of %d", k) }, func() {
			var w *world
			pb := 1
			if c.Thorough {
				pb = 2
			}
			explore(c, vsched.Options{}, vsched.Bounds{Preemptions: pb, Free: 2, Sel: -1}, func() func() {
				w = &world{tr: &transport{end: io.EOF, reads: []item{{data: b}}, chunk: k}, in: make(chan m.Frame)}
				return func() {
					w.open(stdDialects, false)
					vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
					w.drain()
				}
			}, func(r *vsched.Result) string { return sameFrames(w.delivered, want) })
		})
	}
}

// appendTo appends to the bytes of a frame: what that writes must not be part of another.
func appendTo(p []byte) {
	q := append(p, 0xee)
	for len(q) < cap(q) && len(q) < len(p)+300 {
		q = append(q, 0xee)
	}
}

// c10: delivered frames stay as they are.
func c10(c *chk.C) {
	run := func(c *chk.C, items []item, end error, chunk int, invalid, scribble, withLog, stopEarly bool) {
		w := &world{tr: &transport{end: end, reads: items, chunk: chunk}, in: make(chan m.Frame)}
		if withLog {
			w.lg = &logger{}
		}
		var b []byte
		for _, i := range items {
			b = append(b, i.data...)
		}
		want := expect(b, stdLookup, invalid)
		verify := func(when string) {
			for i, f := range w.frames {
				exp := w.delivered[i]
				if scribble {
					exp = bytes.Repeat([]byte{byte(0xa0 + i)}, len(exp))
				}
				if !bytes.Equal(f.Bytes(), exp) {
					chk.Failf("%s, frame %d has changed from %s to %s", when, i, hex(exp), hex(f.Bytes()))
				}
			}
		}
		once(c, func() {
			w.open(stdDialects, invalid)
			vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
			for {
				f, ok := vsched.Recv2(w.fs.Read())
				if !ok {
					break
				}
				w.got(f)
				if scribble {
					p := f.Bytes()
					for k := range p {
						p[k] = byte(0xa0 + len(w.frames) - 1)
					}
					appendTo(p)
				}
				if stopEarly && len(w.frames) == 2 {
					w.fs.Close()
					break
				}
			}
		})
		if stopEarly && len(want) > 2 {
			want = want[:2]
		}
		if s := sameFrames(w.delivered, want); s != "" {
			chk.Failf("%s", s)
		}
		verify("at the end")
	}
	for k := 0; k < 4; k++ {
		longReads(c, k&1 == 1, k&2 == 2, true, 0)
		longReads(c, k&1 == 1, k&2 == 2, false, 20)
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	forSeqs(len(segs), 1, depth, func(idx []int) {
		if len(idx) == depth && !c.Thorough && (idx[0] > 13 || idx[depth-1] > 13) {
			return // the last and first segments of the deepest level deliver something
		}
		b := join(segs, idx)
		nm := names(segs, idx)
		c.Case(func() string { return nm }, func() {
			for _, inv := range []bool{false, true} {
				for _, scr := range []bool{false, true} {
					for _, k := range []int{0, 1, 50} {
						if k == 1 && len(b) > 200 {
							continue
						}
						func() {
							defer func() {
								if r := recover(); r != nil {
									chk.FailWrap(r, fmt.Sprintf("invalid frames %v, consumer writes into frames %v, reads of %d: ", inv, scr, k))
								}
							}()
							run(c, []item{{data: b}}, io.EOF, k, inv, scr, k == 0, false)
							if k == 0 {
								run(c, []item{{data: b}}, nil, k, inv, scr, false, true)
							}
						}()
					}
				}
			}
			c.State(chk.HashS(10, nm))
		})
	})
	// a deeper alphabet of the segments that interact
	some := pick("v1", "signed", "badcrc2", "nestbad", "v2cut", "max", "half", "00")
	forSeqs(len(some), depth+1, depth+2, func(idx []int) {
		b := join(some, idx)
		nm := names(some, idx)
		c.Case(func() string { return nm }, func() {
			for k := 0; k < 8; k++ {
				run(c, []item{{data: b}}, io.EOF, k&4/4*31, k&1 == 1, k&2 == 2, true, false)
			}
			c.State(chk.HashS(10, nm))
		})
	})
	for n := 0; n < 256; n++ {
		c.Case(func() string { return fmt.Sprintf("frames with %d payload bytes", n) }, func() {
			st := ref.Frame(ref.Header{Version: 2, Seq: 1, ID: 266}, payloadOf(9, 3), msg("common", "LoggingData").CRC)
			for v := 1; v <= 2; v++ {
				for inc := byte(0); inc < 2; inc++ {
					e := msg("common", "LoggingData")
					if v == 1 {
						e = msg("common", "V2Extension")
					}
					x := ref.Frame(ref.Header{Version: v, Incompat: inc, Seq: 9, ID: e.ID}, payloadOf(n, 3), e.CRC)
					y := append([]byte(nil), x...)
					y[len(y)-1] ^= 1
					for _, inv := range []bool{false, true} {
						for _, scr := range []bool{false, true} {
							for _, k := range []int{0, len(x), len(x) + 1} {
								run(c, []item{{data: cat(x, segOf["v1"], x, y, st, x)}}, io.EOF, k, inv, scr, k == 0, false)
							}
						}
					}
				}
			}
			c.State(uint64(n) + 1<<51)
		})
	}
	// schedules: the consumer checks and writes while the reader goes on
	for si, names := range [][]string{{"v1", "v2", "v1"}, {"signed", "badcrc1", "v2"}, {"nestbad", "v2", "v1"}} {
		for _, inv := range []bool{false, true} {
			c.Case(func() string {
				return fmt.Sprintf("schedules of reader and consumer, %v, invalid frames %v", names, inv)
			}, func() {
				var b []byte
				for _, s := range pick(names...) {
					b = append(b, s.b...)
				}
				want := expect(b, stdLookup, inv)
				var w *world
				pb := 2
				if c.Thorough {
					pb = 3
				}
				explore(c, vsched.Options{}, vsched.Bounds{Preemptions: pb, Free: 3, Sel: -1, MaxExec: 200000}, func() func() {
					w = &world{tr: &transport{end: io.EOF, reads: []item{{data: b}}, chunk: 30}, in: make(chan m.Frame), lg: &logger{}}
					return func() {
						w.open(stdDialects, inv)
						vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
						for {
							f, ok := vsched.Recv2(w.fs.Read())
							if !ok {
								break
							}
							w.got(f)
							vsched.Point("consumer")
							if !bytes.Equal(f.Bytes(), w.delivered[len(w.delivered)-1]) {
								w.bad("frame %d changed after its delivery", len(w.frames)-1)
							}
							p := f.Bytes()
							for k := range p {
								p[k] = 0xaa
							}
						}
					}
				}, func(r *vsched.Result) string {
					for i, f := range w.frames {
						for _, x := range f.Bytes() {
							if x != 0xaa {
								return fmt.Sprintf("frame %d changed after the consumer wrote into it", i)
							}
						}
					}
					if len(w.problems) > 0 {
						return w.problems[0]
					}
					return sameFrames(w.delivered, want)
				})
				c.State(uint64(si)*2 + 1<<50)
			})
		}
	}
}
