package main

import (
	"fmt"
	"io"
	"sort"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

var errEOF, errUEOF = io.EOF, io.ErrUnexpectedEOF

func checkScan(c *chk.C, b []byte, ds m.Dialects, l ref.Lookup, invalid bool, end error) {
	w := &world{tr: &transport{end: end}, in: make(chan m.Frame)}
	if len(b) > 0 {
		w.tr.reads = []item{{data: b}}
	}
	r := readAll(c, w, ds, invalid)
	c.Count("frames delivered", len(w.delivered))
	if s := sameFrames(w.delivered, expect(b, l, invalid)); s != "" {
		chk.Failf("%s", s)
	}
	if r.RootReturn != (end != nil) {
		chk.Failf("frame channel closed: %v, want %v", r.RootReturn, end != nil)
	}
}

// alphabetStrings checks every string over the alphabet up to n bytes, in blocks of one case each.
func alphabetStrings(c *chk.C, n int, f func(c *chk.C, d tinyDialect, b []byte)) {
	d := newTiny()
	k := len(alphabet)
	for l := 1; l <= n; l++ {
		block := l
		if block > 5 {
			block = 5
		}
		outer := 1
		for i := block; i < l; i++ {
			outer *= k
		}
		inner := 1
		for i := 0; i < block; i++ {
			inner *= k
		}
		for o := 0; o < outer; o++ {
			c.Case(func() string {
				return fmt.Sprintf("strings over %x of length %d, block %d", alphabet, l, o)
			}, func() {
				b := make([]byte, l)
				for i := 0; i < inner; i++ {
					v := o*inner + i
					for j := range b {
						b[j] = alphabet[v%k]
						v /= k
					}
					input := append([]byte(nil), b...)
					func() {
						defer func() {
							if r := recover(); r != nil {
								chk.FailWrap(r, fmt.Sprintf("input %x: ", input))
							}
						}()
						f(c, d, input)
					}()
				}
				c.State(chk.Hash(uint64(o), b))
			})
		}
	}
}

// everyFrame: every value of every header byte, every message, repeated frames, many senders.
func everyFrame(c *chk.C, invalid bool) {
	st := msg("common", "SystemTime")
	var cur string
	c.Case(func() string { return "every header byte: " + cur }, func() {
		variants(st, func(what string, x []byte) {
			cur = what
			y := append([]byte(nil), x...)
			y[len(y)-3] ^= 1
			checkScan(c, cat(x, x, segOf["v1"], y, x, y), stdDialects, stdLookup, invalid, nil)
			c.State(chk.HashS(81, what))
		})
	})
	for _, d := range dialectNames() {
		ds := m.Dialects{allDialects[d]}
		look := ref.LookupOf(d)
		c.Case(func() string { return "every message of " + d + ": " + cur }, func() {
			var all []byte
			for _, e := range sortedMsgs(d) {
				for v := 1; v <= 2; v++ {
					if v == 1 && e.ID > 255 {
						continue
					}
					for _, n := range []int{0, 1, e.Min - 1, e.Min, e.Base(), e.Max, e.Max + 1} {
						if n < 0 || n > 255 {
							continue
						}
						cur = fmt.Sprintf("%s, version %d, %d bytes", e.Name, v, n)
						x := ref.Frame(ref.Header{Version: v, Seq: byte(n), Sys: 3, Comp: byte(v), ID: e.ID}, payloadOf(n, byte(e.ID)), e.CRC)
						y := ref.Frame(ref.Header{Version: v, Seq: byte(n), Sys: 3, Comp: byte(v), ID: e.ID}, payloadOf(n, byte(e.ID)), e.CRC^1)
						checkScan(c, cat(x, y, x, x, y), ds, look, invalid, nil)
						all = cat(all, x, y)
						c.State(chk.HashS(82, d+cur))
					}
				}
			}
			cur = "all together"
			checkScan(c, cat(all, all), ds, look, invalid, io.EOF)
		})
	}
	// ids of one, two and three bytes
	c.Case(func() string { return "every byte of the message id: " + cur }, func() {
		for sh := uint(0); sh < 24; sh += 8 {
			for k := 0; k < 256; k++ {
				id := uint32(k)<<sh | 0x010101&^(0xff<<sh)
				d := tinyDialect{map[uint32]ref.Meta{id: {CRC: byte(k), Min: 0, Max: 255}}}
				cur = fmt.Sprint(id)
				x := ref.Frame(ref.Header{Version: 2, ID: id}, payloadOf(5, 1), byte(k))
				z := ref.Frame(ref.Header{Version: 2, ID: id ^ 1<<sh}, payloadOf(5, 1), byte(k))
				checkScan(c, cat(x, z, x, x), m.Dialects{d}, d.lookup, invalid, nil)
				c.State(chk.HashS(83, cur))
			}
		}
	})
	// invalid frames of very many senders, then valid ones
	c.Case(func() string { return "invalid frames from every system and component" }, func() {
		var b []byte
		step := 5
		if c.Thorough {
			step = 1
		}
		for s := 0; s < 65536; s += step {
			x := ref.Frame(ref.Header{Version: 1 + s&1, Sys: byte(s >> 8), Comp: byte(s), ID: uint32(s % 3)}, []byte{1, 2}, 1)
			b = append(b, x...)
		}
		b = cat(b, segOf["v1"], segOf["v2"], b[:5000], segOf["v1"])
		checkScan(c, b, stdDialects, stdLookup, invalid, io.EOF)
		c.State(84)
	})
	// every length and flags byte of an unfinished or false header before valid frames
	for n := 0; n < 256; n += 8 {
		c.Case(func() string { return fmt.Sprintf("headers with lengths %d..%d before frames", n, n+7) }, func() {
			for k := n; k < n+8; k++ {
				for fl := byte(0); fl < 4; fl++ {
					b := cat([]byte{0xfd, byte(k), fl}, segOf["v2"], segOf["v1"], segOf["signed"], segOf["max"], segOf["v1"])
					checkScan(c, b, stdDialects, stdLookup, invalid, nil)
				}
			}
			c.State(uint64(n) + 1<<22)
		})
	}
}

func dialectNames() (ds []string) {
	for d := range allDialects {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	return
}

func sortedMsgs(d string) (es []*ref.Msg) {
	for _, e := range ref.ByDialect[d] {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].ID < es[j].ID })
	return
}

func c08(c *chk.C) {
	everyFrame(c, false)
	longJunk(c, false)
	duplexes(c, false, false)
	longReads(c, false, false, true, 0)
	longReads(c, false, false, true, 4096)
	runs := 1<<17 + 2000
	if c.Thorough {
		runs = 1<<20 + 2000
	}
	junkRuns(c, runs, []byte{0}, false)
	junkRuns(c, 1<<15+2000, []byte{0xfd, 9, 0, 0, 1}, false)
	depth, n := 3, 11
	if c.Thorough {
		depth, n = 4, 13
	}
	forSeqs(len(segs), 0, depth, func(idx []int) {
		b := join(segs, idx)
		nm := names(segs, idx)
		c.Case(func() string { return nm }, func() {
			c.State(chk.HashS(8, nm))
			checkScan(c, b, stdDialects, stdLookup, false, io.EOF)
			checkScan(c, b, stdDialects, stdLookup, false, nil)
		})
	})
	// a deeper alphabet of the segments that interact
	ss := pick("v1", "signed", "badcrc2", "nestbad", "nestlong", "half", "fd", "00")
	forSeqs(len(ss), depth+1, depth+2, func(idx []int) {
		b := join(ss, idx)
		nm := names(ss, idx)
		c.Case(func() string { return nm }, func() {
			c.State(chk.HashS(8, nm))
			checkScan(c, b, stdDialects, stdLookup, false, io.EOF)
		})
	})
	// a valid frame behind every kind of start: each two byte prefix before it
	for p := 0; p < 65536; p += 16 {
		p := p
		c.Case(func() string { return fmt.Sprintf("prefix %04x..%04x, then frames", p, p+15) }, func() {
			for q := p; q < p+16; q++ {
				b := cat([]byte{byte(q >> 8), byte(q)}, segOf["v1"], segOf["signed"], segOf["v2"])
				checkScan(c, b, stdDialects, stdLookup, false, nil)
				// enough behind it to complete any candidate
				b = cat(b, segOf["junk"])
				checkScan(c, b, stdDialects, stdLookup, false, io.EOF)
			}
			c.State(uint64(p))
		})
	}
	// every flags byte of a v2 header: the flag decides where the frame ends
	for fl := 0; fl < 256; fl++ {
		c.Case(func() string { return fmt.Sprintf("incompatibility flags %02x", fl) }, func() {
			hb := msg("common", "Heartbeat")
			x := ref.Frame(ref.Header{Version: 2, Incompat: byte(fl), ID: hb.ID}, payloadOf(9, 1), hb.CRC)
			for _, cf := range []byte{0, 1, 0xff} {
				y := ref.Frame(ref.Header{Version: 2, Incompat: byte(fl), Compat: cf, ID: hb.ID}, payloadOf(9, 1), hb.CRC)
				checkScan(c, cat(x, segOf["v1"], y, segOf["v2"]), stdDialects, stdLookup, false, nil)
				y[11] ^= 1
				checkScan(c, cat(x, segOf["v1"], y, segOf["v2"]), stdDialects, stdLookup, false, nil)
			}
			c.State(uint64(fl) + 1<<20)
		})
	}
	// every payload length, both versions, signed or not, valid or not
	for n := 0; n < 256; n++ {
		c.Case(func() string { return fmt.Sprintf("payload length %d", n) }, func() {
			d := tinyDialect{map[uint32]ref.Meta{7: {CRC: 33, Min: 0, Max: 255}}}
			ds := m.Dialects{d}
			for v := 1; v <= 2; v++ {
				for inc := byte(0); inc < 2; inc++ {
					x := ref.Frame(ref.Header{Version: v, Incompat: inc, Seq: 9, ID: 7}, payloadOf(n, 3), 33)
					y := append([]byte(nil), x...)
					y[6] ^= 0x40
					for _, b := range [][]byte{cat(x, x), cat(y, x), cat(x, y, x), cat(y, y), cat([]byte{0xfe}, x, x), cat([]byte{0xfd, 0}, x, x)} {
						checkScan(c, b, ds, d.lookup, false, nil)
						checkScan(c, b, ds, d.lookup, false, io.EOF)
					}
				}
			}
			c.State(uint64(n) + 1<<21)
		})
	}
	alphabetStrings(c, n, func(c *chk.C, d tinyDialect, b []byte) {
		checkScan(c, b, m.Dialects{d}, d.lookup, false, io.EOF)
	})
}

func c11(c *chk.C) {
	everyFrame(c, true)
	longJunk(c, true)
	duplexes(c, true, false)
	longReads(c, true, false, true, 0)
	depth, n := 3, 10
	if c.Thorough {
		depth, n = 4, 12
	}
	both := func(c *chk.C, b []byte, ds m.Dialects, l ref.Lookup, end error) {
		checkScan(c, b, ds, l, true, end)
		checkScan(c, b, ds, l, false, end)
	}
	forSeqs(len(segs), 0, depth, func(idx []int) {
		b := join(segs, idx)
		nm := names(segs, idx)
		c.Case(func() string { return nm }, func() {
			c.State(chk.HashS(11, nm))
			both(c, b, stdDialects, stdLookup, io.EOF)
			if len(idx) < depth {
				both(c, b, stdDialects, stdLookup, nil)
			}
		})
	})
	for n := 0; n < 256; n++ {
		c.Case(func() string { return fmt.Sprintf("payload length %d", n) }, func() {
			d := tinyDialect{map[uint32]ref.Meta{7: {CRC: 33, Min: 3, Max: 250}}}
			for v := 1; v <= 2; v++ {
				for inc := byte(0); inc < 2; inc++ {
					x := ref.Frame(ref.Header{Version: v, Incompat: inc, Seq: 9, ID: 7}, payloadOf(n, 3), 33)
					y := append([]byte(nil), x...)
					y[6] ^= 0x40
					for _, b := range [][]byte{cat(x, x), cat(y, x), cat(x, y, x), cat(y, y), cat([]byte{0xfe}, x, x)} {
						both(c, b, m.Dialects{d}, d.lookup, nil)
						both(c, b, m.Dialects{d}, d.lookup, io.EOF)
					}
				}
			}
			c.State(uint64(n) + 1<<21)
		})
	}
	alphabetStrings(c, n, func(c *chk.C, d tinyDialect, b []byte) {
		both(c, b, m.Dialects{d}, d.lookup, io.EOF)
	})
}
