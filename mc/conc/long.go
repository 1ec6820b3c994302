package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
	"verifmc/vsched"
)

// many is how many frames a long run has: more than a 16-bit counter counts.
const many = 1<<16 + 600

// numbered is the i-th frame of a long run; no two are equal.
func numbered(i int) []byte {
	e := sysTime
	p := payloadOf(e.Base(), byte(i))
	binary.LittleEndian.PutUint32(p, uint32(i)|1<<31)
	h := ref.Header{Version: 1 + i&1, Seq: byte(i), Sys: byte(i >> 9), Comp: byte(i >> 4), ID: e.ID}
	if i%5 == 3 {
		h.Version, h.Incompat = 2, 1
	}
	return ref.Frame(h, p, e.CRC)
}

var sysTime = msg("common", "SystemTime")

// longRun is n numbered frames, with damaged ones and junk between them if wanted.
func longRun(n int, noise bool) (b []byte, valid [][]byte) {
	for i := 0; i < n; i++ {
		x := numbered(i)
		b = append(b, x...)
		valid = append(valid, x)
		if noise && i%3 == 1 {
			y := append([]byte(nil), x...)
			y[len(y)/2] ^= 0x10
			b = append(b, y...)
		}
		if noise && i%4 == 0 {
			b = append(b, 0, byte(i)&0x7f)
		}
	}
	return
}

// longReads: very many frames through one stream, everything looked at again at the end.
func longReads(c *chk.C, invalid, scribble, noise bool, chunk int) {
	c.Case(func() string {
		return fmt.Sprintf("%d frames, noise %v, invalid frames %v, consumer writes into frames %v, reads of %d", many, noise, invalid, scribble, chunk)
	}, func() {
		b, valid := longRun(many, noise)
		if invalid {
			valid = expect(b, stdLookup, true)
		}
		w := &world{tr: &transport{end: io.EOF, reads: []item{{data: b}}, chunk: chunk}, in: make(chan m.Frame)}
		check := func(i int, when string) {
			want := valid[i]
			if scribble {
				want = bytes.Repeat([]byte{byte(i) ^ 0xa5}, len(want))
			}
			if !bytes.Equal(w.frames[i].Bytes(), want) {
				chk.Failf("frame %d %s: %s, want %s", i, when, hex(w.frames[i].Bytes()), hex(want))
			}
		}
		once(c, func() {
			w.open(stdDialects, invalid)
			vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
			for {
				f, ok := vsched.Recv2(w.fs.Read())
				if !ok {
					return
				}
				n := len(w.frames)
				if n >= len(valid) || !bytes.Equal(f.Bytes(), valid[n]) {
					chk.Failf("frame %d is %s", n, hex(f.Bytes()))
				}
				w.frames = append(w.frames, f)
				if scribble {
					p := f.Bytes()
					for k := range p {
						p[k] = byte(n) ^ 0xa5
					}
					appendTo(p)
				}
				for d := 1; d <= n; d *= 2 {
					check(n-d, fmt.Sprintf("after %d more", d))
				}
			}
		})
		if len(w.frames) != len(valid) {
			chk.Failf("%d frames delivered, want %d", len(w.frames), len(valid))
		}
		for i := range w.frames {
			check(i, "at the end")
		}
		if s := w.closedBy(io.EOF); s != "" {
			chk.Failf("%s", s)
		}
		c.State(chk.HashS(201, fmt.Sprint(invalid, scribble, noise, chunk)))
	})
}

// longWrites: very many frames out, the last ones failing.
func longWrites(c *chk.C, logged bool, fail error) {
	c.Case(func() string { return fmt.Sprintf("%d frames written, logged %v, then %v", many, logged, fail) }, func() {
		_, valid := longRun(many, false)
		w := &world{tr: &transport{}, in: make(chan m.Frame, 3)}
		if logged {
			w.lg = &logger{}
		}
		w.tr.outcomes = make([]wout, len(valid)-1)
		if fail != nil {
			w.tr.outcomes = append(w.tr.outcomes, wout{n: 4, err: fail})
		}
		once(c, func() {
			w.open(stdDialects, false)
			vsched.GoNamed("W", func() { w.fs.WriteContext(context.Background()) })
			for _, b := range valid {
				vsched.Send(w.fs.Write())(frameOf(b))
			}
			if fail == nil {
				vsched.Close(w.in)
			}
			vsched.Recv2(w.fs.Closed())
		})
		if s := sameFrames(w.tr.wrote, valid); s != "" {
			chk.Failf("written: %s", s)
		}
		if logged {
			n := len(valid)
			if fail != nil {
				n--
			}
			if s := sameFrames(w.lg.written, valid[:n]); s != "" {
				chk.Failf("logged as written: %s", s)
			}
		}
		if fail == nil {
			fail = m.ErrWriteChannelClosed
		}
		if s := w.closedBy(fail); s != "" {
			chk.Failf("%s", s)
		}
		c.State(chk.HashS(202, fmt.Sprint(logged, fail)))
	})
}

// longLog: very many frames read with a logger.
func longLog(c *chk.C, invalid bool, lerr error) {
	c.Case(func() string {
		return fmt.Sprintf("%d frames logged, invalid frames %v, logger returns %v", many, invalid, lerr)
	}, func() {
		b, valid := longRun(many, true)
		if invalid {
			valid = expect(b, stdLookup, true)
		}
		w := &world{tr: &transport{end: errRead, reads: []item{{data: b}}, chunk: 1000}, in: make(chan m.Frame), lg: &logger{err: lerr}}
		readAll(c, w, stdDialects, invalid)
		if s := sameFrames(w.delivered, valid); s != "" {
			chk.Failf("delivered: %s", s)
		}
		if s := sameFrames(w.lg.read, valid); s != "" {
			chk.Failf("logged: %s", s)
		}
		if len(w.problems) > 0 {
			chk.Failf("%s", w.problems[0])
		}
		c.State(chk.HashS(203, fmt.Sprint(invalid, lerr)))
	})
}

// failAfter: the transport fails inside a frame, or between frames, after 0..n frames.
func failAfter(c *chk.C, n int) {
	for k0 := 0; k0 <= n; k0 += 10 {
		c.Case(func() string { return fmt.Sprintf("failures after %d to %d frames", k0, k0+9) }, func() {
			all, valid := longRun(k0+10, false)
			pos := 0
			for k, f := range valid {
				if k >= k0 {
					for _, part := range []int{0, 1, 2, 3, len(f) - 1} {
						for _, inv := range []bool{false, true} {
							for ki, kind := range failKinds[:4] {
								w := &world{tr: &transport{end: kind.err}, in: make(chan m.Frame)}
								it := item{data: all[:pos+part]}
								if kind.withData && pos+part > 0 {
									it.err = kind.err
									w.tr.end = errRead2
								}
								if pos+part > 0 {
									w.tr.reads = []item{it}
								}
								if k >= 40 && ki > 0 && part > 1 {
									continue
								}
								readAll(c, w, stdDialects, inv)
								s := sameFrames(w.delivered, expect(all[:pos+part], stdLookup, inv))
								if s == "" {
									s = w.closedBy(kind.err)
								}
								if s != "" {
									chk.Failf("%s after %d frames and %d bytes: %s", kind.name, k, part, s)
								}
							}
						}
					}
					// the next write fails
					w := &world{tr: &transport{outcomes: append(make([]wout, k), wout{n: k % 7, err: errWrite})}, in: make(chan m.Frame, k+2)}
					once(c, func() {
						w.open(stdDialects, false)
						for _, b := range valid[:k+1] {
							vsched.Send(w.fs.Write())(frameOf(b))
						}
						vsched.Send(w.fs.Write())(frameOf(f))
						vsched.Close(w.in)
						w.fs.WriteContext(context.Background())
					})
					s := sameFrames(w.tr.wrote, valid[:k+1])
					if s == "" {
						s = w.closedBy(errWrite)
					}
					if s != "" {
						chk.Failf("write %d fails: %s", k, s)
					}
				}
				pos += len(f)
			}
			c.State(chk.HashS(204, fmt.Sprint(k0)))
		})
	}
}

// otherFrame is a Frame of somebody else's making.
type otherFrame struct {
	m.Frame
	b []byte
}

func (o *otherFrame) Bytes() []byte { return o.b }

type namedFrame struct{ m.FrameV2 }

// otherFrames: what is sent need not be one of the library's own types.
func otherFrames(c *chk.C) {
	for n := 0; n < 8; n++ {
		c.Case(func() string { return fmt.Sprintf("frames of other types, %d", n) }, func() {
			var want [][]byte
			w := &world{tr: &transport{}, in: make(chan m.Frame, n%3)}
			if n >= 4 {
				w.lg = &logger{}
			}
			once(c, func() {
				w.open(stdDialects, false)
				vsched.GoNamed("W", func() { w.fs.WriteContext(context.Background()) })
				for i := 0; i < 8; i++ {
					x := segOf[[]string{"v1", "v2", "signed", "max"}[(i+n)%4]]
					var f m.Frame
					switch v1 := x[0] == 0xfe; {
					case i%4 == 0:
						f = frameOf(x)
					case i%4 == 1:
						f = &otherFrame{frameOf(segOf["v2"]), x}
					case v1:
						v := m.FrameV1(x)
						f = &v
					case i%4 == 2:
						v := m.FrameV2(x)
						f = &v
					default:
						f = namedFrame{m.FrameV2(x)}
					}
					want = append(want, x)
					vsched.Send(w.fs.Write())(f)
				}
				vsched.Close(w.in)
				vsched.Recv2(w.fs.Closed())
			})
			if s := sameFrames(w.tr.wrote, want); s != "" {
				chk.Failf("written: %s", s)
			}
			if w.lg != nil {
				if s := sameFrames(w.lg.written, want); s != "" {
					chk.Failf("logged: %s", s)
				}
			}
			c.State(chk.HashS(205, fmt.Sprint(n)))
		})
	}
}

// longJunk: very many bytes in a row that are part of no valid frame, then frames.
func longJunk(c *chk.C, invalid bool) {
	bad := append([]byte(nil), segOf["v2"]...)
	bad[len(bad)-1] ^= 1
	n := 1<<20 + 12345
	if invalid {
		n = 1<<16 + 12345
	}
	for _, k := range []struct {
		name string
		unit []byte
	}{
		{"zeros", []byte{0}},
		{"text", []byte("$GPGGA,0.1*5B\r\n")},
		{"version 2 start bytes", []byte{0xfd}},
		{"version 1 start bytes", []byte{0xfe}},
		{"both start bytes", []byte{0xfe, 0xfd, 3}},
		{"damaged frames", bad},
		{"damaged frames and zeros", cat(bad, make([]byte, 300))},
	} {
		c.Case(func() string {
			return fmt.Sprintf("%d bytes of %s, then frames, invalid frames %v", n, k.name, invalid)
		}, func() {
			b := bytes.Repeat(k.unit, n/len(k.unit))
			// what is valid behind them must not be part of the last candidate
			b = cat(b, make([]byte, 600), segOf["v1"], segOf["v2"], b[:700], segOf["v1"], segOf["signed"])
			checkScan(c, b, stdDialects, stdLookup, invalid, io.EOF)
			c.State(chk.HashS(206, k.name))
		})
	}
}

// junkRuns: a frame behind every number of junk bytes in a row up to n, in steps smaller than what
// a reader holds: should it give up after some number, what it then drops holds a frame.
func junkRuns(c *chk.C, n int, unit []byte, invalid bool) {
	const step, per = 128, 32
	for k0 := 1; k0 <= n/step; k0 += per {
		c.Case(func() string {
			return fmt.Sprintf("frames after %d to %d bytes of %x..", k0*step, (k0+per-1)*step, unit[:1])
		}, func() {
			var b []byte
			for k := k0; k < k0+per && k <= n/step; k++ {
				b = append(b, bytes.Repeat(unit, k*step/len(unit))...)
				b = cat(b, segOf["v1"], segOf["v2"])
			}
			checkScan(c, b, stdDialects, stdLookup, invalid, nil)
			c.State(chk.HashS(207, fmt.Sprint(k0, unit[0])))
		})
	}
}
