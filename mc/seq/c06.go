package main

import (
	"bytes"
	"fmt"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

var verdictErr = map[ref.Verdict]error{ref.Valid: nil, ref.Unknown: m.ErrUnknownMessage, ref.TooShort: m.ErrMessageTooShort, ref.TooLong: m.ErrMessageTooLong, ref.BadCRC: m.ErrInvalidChecksum}

func validate(c *chk.C, d m.Dialects, l ref.Lookup, b []byte, what func() string) ref.Verdict {
	err := d.Validate(frameOf(b))
	want := ref.Validate(b, l)
	if err != verdictErr[want] {
		chk.Failf("%s: frame % x: Validate returns %v, want %v", what(), b, err, want)
	}
	if err := d.Validate(recycled(b)); err != verdictErr[want] {
		chk.Failf("%s: frame % x in memory used before: Validate returns %v, want %v", what(), b, err, want)
	}
	c.Trans(1)
	return want
}

func c06(c *chk.C) {
	// declared limits
	lims := []int{0, 1, 2, 5, 9, 127, 128, 200, 254, 255}
	for _, mn := range lims {
		for _, mx := range lims {
			if mn > mx {
				continue
			}
			for _, crc := range []byte{0, 1, 0x80, 0xff, 0x32} {
				mn, mx, crc := mn, mx, crc
				c.Case(func() string {
					return fmt.Sprintf("a message of %d to %d bytes with CRC extra %d, every payload length", mn, mx, crc)
				}, func() {
					d := m.Dialects{&genDialect{id: 77, crc: crc, min: uint(mn), max: uint(mx)}}
					l := func(id uint32) (ref.Meta, bool) { return ref.Meta{CRC: crc, Min: mn, Max: mx}, id == 77 }
					for n := 0; n <= 255; n++ {
						for _, pi := range []int{0, 1} {
							p := patterns(n)[pi]
							for ver := 1; ver <= 2; ver++ {
								for _, flags := range []byte{0, 1, 0xfe} {
									if ver == 1 && flags != 0 {
										continue
									}
									for _, id := range []uint32{77, 76, 77 + 256} {
										if ver == 1 && id > 255 {
											continue
										}
										b := ref.Frame(ref.Header{Version: ver, ID: id, Sys: 1, Incompat: flags}, p, crc)
										w := func() string { return fmt.Sprintf("%d bytes version %d", n, ver) }
										validate(c, d, l, b, w)
										pos := n + 6
										if ver == 2 {
											pos = n + 10
										}
										for _, x := range []byte{1, 0x80} {
											b[pos] ^= x
											validate(c, d, l, b, w)
											b[pos] ^= x
											b[pos+1] ^= x
											validate(c, d, l, b, w)
											b[pos+1] ^= x
										}
										b[pos], b[pos+1] = b[pos+1], b[pos]
										validate(c, d, l, b, w)
										// a checksum made without the CRC extra
										x := ref.FastCRC(0xffff, b[1:pos])
										b[pos], b[pos+1] = byte(x), byte(x>>8)
										validate(c, d, l, b, w)
									}
								}
							}
						}
					}
					c.Trace()
					c.State(uint64(mn)<<20 | uint64(mx)<<8 | uint64(crc))
				})
			}
		}
	}
	es := loaded(c)
	// all checksums
	for i, e := range es {
		e := e
		if !c.Thorough && i%16 != 0 {
			continue
		}
		for _, ver := range e.versions() {
			ver := ver
			c.Case(func() string { return fmt.Sprintf("%s version %d: all 65536 checksums", e, ver) }, func() {
				d, l := m.Dialects{e.d}, ref.LookupOf(e.Dialect)
				b := ref.Frame(ref.Header{Version: ver, ID: e.ID, Seq: 9}, patterns(e.Base())[0], e.CRC)
				good := 0
				for x := 0; x < 65536; x++ {
					b[len(b)-2], b[len(b)-1] = byte(x), byte(x>>8)
					if validate(c, d, l, b, func() string { return fmt.Sprintf("checksum %04x", x) }) == ref.Valid {
						good++
					}
				}
				if good != 1 {
					chk.Failf("%d checksums accepted", good)
				}
				c.Trace()
				c.State(chk.Hash(1, b))
			})
		}
	}
	// limits and damage of real messages
	for _, e := range es {
		e := e
		d, l := m.Dialects{e.d}, ref.LookupOf(e.Dialect)
		c.Case(func() string { return fmt.Sprintf("%s: every payload length", e) }, func() {
			for n := 0; n <= 255; n++ {
				for _, ver := range e.versions() {
					for _, bad := range []byte{0, 1} {
						b := ref.Frame(ref.Header{Version: ver, ID: e.ID}, patterns(n)[0], e.CRC^bad)
						validate(c, d, l, b, func() string { return fmt.Sprintf("%d bytes version %d", n, ver) })
					}
				}
			}
			c.Trace()
		})
		lim := 48
		if c.Thorough {
			lim = 110
		}
		for _, ver := range e.versions() {
			for flags := byte(0); flags <= 1; flags++ {
				if flags == 1 && ver == 1 {
					continue
				}
				ver, flags := ver, flags
				p := patterns(e.Base())[0]
				if ver == 2 {
					p = ref.Truncate(p)
				}
				if e.Variable {
					p = p[:20]
				}
				orig := ref.Frame(ref.Header{Version: ver, ID: e.ID, Seq: 7, Sys: 3, Comp: 200, Incompat: flags}, p, e.CRC)
				crcEnd := len(orig)
				if flags == 1 {
					crcEnd -= 13
				}
				idLo, idHi := 5, 6
				if ver == 2 {
					idLo, idHi = 7, 10
				}
				cur := ""
				damage := func(bits func(f func(bit int)), burst bool) {
					b := append(append([]byte(nil), orig...), make([]byte, 300)...)
					inID := false
					lenChanged, inData, inSum := false, false, false
					bits(func(bit int) {
						b[bit/8] ^= 1 << uint(bit%8)
						if bit/8 == 1 {
							lenChanged = true
						}
						if bit/8 >= crcEnd-2 {
							inSum = true
						} else {
							inData = true
						}
						if bit/8 >= idLo && bit/8 < idHi {
							inID = true
						}
					})
					n := ref.CandLen(b)
					b = b[:n]
					v := validate(c, d, l, b, func() string { return cur })
					if v == ref.Valid && !inID && !lenChanged && !(burst && inData && inSum) {
						chk.Failf("the model accepts a damaged frame: % x", b)
					}
					if v == ref.Valid {
						c.Count("damaged_frames_that_are_other_valid_frames", 1)
					}
				}
				c.Case(func() string { return fmt.Sprintf("%s version %d flags %d damaged: %s", e, ver, flags, cur) }, func() {
					nb := crcEnd * 8
					for i := 8; i < nb; i++ {
						cur = fmt.Sprintf("bit %d flipped", i)
						damage(func(f func(int)) { f(i) }, false)
					}
					for i := 8; i < nb; i++ {
						for w := 2; w <= 16 && i+w <= nb; w++ {
							for _, mask := range []int{0, -1, 0x5555, 0x2492} {
								cur = fmt.Sprintf("burst of %d bits at %d, inner mask %x", w, i, mask)
								damage(func(f func(int)) {
									for k := 0; k < w; k++ {
										if k == 0 || k == w-1 || mask>>uint(k)&1 == 1 {
											f(i + k)
										}
									}
								}, true)
							}
						}
					}
					if crcEnd <= lim {
						for i := 8; i < nb; i++ {
							for j := i + 1; j < nb; j++ {
								cur = fmt.Sprintf("bits %d and %d flipped", i, j)
								damage(func(f func(int)) { f(i); f(j) }, false)
							}
						}
					}
					c.Trace()
					c.State(chk.Hash(2, orig))
				})
			}
		}
	}
	// every value of every header byte, in good and damaged frames by turns
	for i, e := range es {
		e := e
		if !c.Thorough && i%8 != 0 {
			continue
		}
		d, l := m.Dialects{e.d}, ref.LookupOf(e.Dialect)
		cur := ""
		c.Case(func() string { return fmt.Sprintf("%s: every header byte: %s", e, cur) }, func() {
			for _, ver := range e.versions() {
				for field := 0; field < 6; field++ {
					for x := 0; x < 256; x++ {
						h := ref.Header{Version: ver, ID: e.ID, Seq: 7, Sys: 3, Comp: 200}
						p := patterns(e.Base())[0]
						if e.Variable {
							p = p[:20]
						}
						switch field {
						case 0:
							h.Seq = byte(x)
						case 1:
							h.Sys = byte(x)
						case 2:
							h.Comp = byte(x)
						case 3:
							h.Incompat = byte(x)
						case 4:
							h.Compat = byte(x)
						case 5:
							p[len(p)-1] = byte(x)
						}
						if ver == 1 && (field == 3 || field == 4) {
							continue
						}
						cur = fmt.Sprintf("version %d, %s %d", ver, []string{"sequence", "system", "component", "incompatibility flags", "compatibility flags", "last payload byte"}[field], x)
						what := func() string { return cur }
						good := ref.Frame(h, p, e.CRC)
						pos := len(p) + 6
						if ver == 2 {
							pos += 4
						}
						for _, bad := range []int{pos, pos + 1, pos - 1, 2, 3, pos - len(p)} {
							for _, bit := range []byte{1, 0x80} {
								validate(c, d, l, good, what)
								b := append([]byte(nil), good...)
								b[bad] ^= bit
								if ver == 2 && bad == 2 && bit == 1 {
									b = append(b, make([]byte, 13)...)
								}
								validate(c, d, l, b, what)
								validate(c, d, l, b, what)
							}
						}
					}
				}
			}
			c.Trace()
			c.State(uint64(e.ID) | 1<<60)
		})
	}
	// all bursts of one frame: every pattern of up to 16 bits at every position
	c.Case(func() string { return "heartbeat: every burst pattern" }, func() {
		d, l := m.Dialects{dialects["common"]}, ref.LookupOf("common")
		orig := ref.Frame(ref.Header{Version: 1, ID: 0, Seq: 7, Sys: 3, Comp: 200}, patterns(9)[0], 50)
		b := append([]byte(nil), orig...)
		for i := 16; i < len(orig)*8; i++ {
			for x := 1; x < 1<<16; x += 2 {
				copy(b, orig)
				over, data, sum := false, false, false
				for k := 0; k < 16; k++ {
					if x>>uint(k)&1 == 1 {
						if i+k >= len(orig)*8 {
							over = true
							break
						}
						b[(i+k)/8] ^= 1 << uint((i+k)%8)
						if (i+k)/8 >= len(b)-2 {
							sum = true
						} else {
							data = true
						}
					}
				}
				if over {
					continue
				}
				if v := validate(c, d, l, b, func() string { return fmt.Sprintf("burst %04x at bit %d", x, i) }); v == ref.Valid && b[5] == 0 && !(data && sum) {
					chk.Failf("the model accepts a damaged frame")
				}
			}
			c.Alive()
		}
		c.Trace()
	})
	// frames inside a larger buffer
	c.Case(func() string { return "frames followed by other bytes" }, func() {
		for _, e := range es {
			for _, ver := range e.versions() {
				for bad := byte(0); bad < 2; bad++ {
					b := ref.Frame(ref.Header{Version: ver, ID: e.ID}, patterns(e.Base())[0], e.CRC+bad)
					big := append(append([]byte(nil), b...), bytes.Repeat([]byte{0xfe, 0}, 50)...)
					got, want := (m.Dialects{e.d}).Validate(frameOf(big)), verdictErr[ref.Validate(b, ref.LookupOf(e.Dialect))]
					if got != want {
						chk.Failf("%s followed by other bytes: %v, want %v", e, got, want)
					}
					c.Trans(1)
				}
			}
		}
		c.Trace()
	})
}
