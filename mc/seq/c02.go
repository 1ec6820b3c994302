package main

import (
	"bytes"
	"fmt"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

// checkFrame compares a packed frame with the reference and decodes it again.
func checkFrame(c *chk.C, e *entry, d m.Dialects, h ref.Header, p []byte, fr m.Frame, err error) {
	if err != nil {
		chk.Failf("%s: GetFrame(version %d) fails: %v", e, h.Version, err)
	}
	w := e.wire(p, h.Version)
	want := ref.Frame(h, w, e.CRC)
	if fr == nil {
		chk.Failf("%s: no frame", e)
	}
	if got := fr.Bytes(); !bytes.Equal(got, want) {
		chk.Failf("%s: frame is % x, want % x", e, got, want)
	}
	if fr.GetVersion() != h.Version || fr.GetSenderSystemID() != h.Sys || fr.GetSenderComponentID() != h.Comp || fr.GetMessageSequence() != uint(h.Seq) || fr.GetMessageID() != h.ID || fr.GetMessageLength() != uint(len(w)) {
		chk.Failf("%s: accessors report version %d, system %d, component %d, sequence %d, id %d, length %d; want %+v, length %d", e,
			fr.GetVersion(), fr.GetSenderSystemID(), fr.GetSenderComponentID(), fr.GetMessageSequence(), fr.GetMessageID(), fr.GetMessageLength(), h, len(w))
	}
	if err := d.Validate(fr); err != nil {
		chk.Failf("%s: the packed frame does not validate: %v", e, err)
	}
	msg, err := d.GetMessage(fr)
	if err != nil {
		chk.Failf("%s: the packed frame does not decode: %v", e, err)
	}
	exp := p
	if h.Version == 1 {
		exp = e.zeroExt(p)
	}
	e.checkFields(msg, exp, "decoding the packed frame")
	e.checkExt(msg, h.Version, "decoding the packed frame")
	c.Trans(3)
	c.State(chk.Hash(uint64(len(e.Dialect)), want))
	c.Trace()
}

func c02(c *chk.C) {
	bound := []byte{0, 1, 127, 128, 253, 254, 255, 42}
	for _, e := range loaded(c) {
		e := e
		d := m.Dialects{e.d}
		for _, ver := range e.versions() {
			ver := ver
			pats := patterns(e.Max)
			var cur string
			c.Case(func() string { return fmt.Sprintf("%s version %d %s", e, ver, cur) }, func() {
				try := func(p []byte, x bool, sys, comp, seq byte) {
					p = e.Canon(p)
					msg, v := e.make(p, x)
					fr, err := d.GetFrame(ver, sys, comp, seq, msg)
					h := ref.Header{Version: ver, Sys: sys, Comp: comp, Seq: seq, ID: e.ID}
					checkFrame(c, e, d, h, p, fr, err)
					// one message that takes on all the values in turn
					fr, err = d.GetFrame(ver, sys, comp, seq, e.again(msg))
					checkFrame(c, e, d, h, p, fr, err)
					if !bytes.Equal(e.Payload(v), p) || ext(msg) != x {
						chk.Failf("%s: packing changed the message", e)
					}
				}
				for i, p := range pats {
					cur = fmt.Sprintf("pattern %d", i)
					try(p, false, 1, 2, 3)
					try(p, true, 255, 254, 253)
				}
				for i := 0; i < e.Max; i++ {
					cur = fmt.Sprintf("only byte %d set", i)
					p := make([]byte, e.Max)
					p[i] = 0xa5
					try(p, false, 7, 8, 9)
					q := append([]byte(nil), pats[2]...)
					q[i] = 0
					cur = fmt.Sprintf("only byte %d clear", i)
					try(q, false, 7, 8, 9)
				}
				for i := 0; i < 256; i++ {
					cur = fmt.Sprintf("header value %d", i)
					try(pats[0], false, byte(i), 2, 3)
					try(pats[0], false, 1, byte(i), 3)
					try(pats[0], false, 1, 2, byte(i))
				}
				p := pats[7]
				for _, a := range bound {
					for _, b := range bound {
						for _, s := range bound {
							cur = fmt.Sprintf("header %d %d %d", a, b, s)
							try(p, false, a, b, s)
						}
					}
				}
			})
		}
	}
	c02pairs(c)
	// generic messages through a dialect of the harness
	var ids []uint32
	for i := uint(0); i < 24; i++ {
		ids = append(ids, 1<<i, 1<<i-1, 1<<24-1-1<<i)
	}
	ids = append(ids, 0, 255, 256, 0x123456, 0xfdfefd)
	for n := 0; n <= 255; n++ {
		n := n
		c.Case(func() string { return fmt.Sprintf("generic message of %d bytes", n) }, func() {
			for pi, p := range patterns(n) {
				for _, id := range ids {
					for ver := 1; ver <= 2; ver++ {
						if ver == 1 && id > 255 {
							continue
						}
						g := &genMsg{id: id, data: p}
						d := m.Dialects{&genDialect{id: id, crc: byte(id*31 + 7), max: 255}}
						keep := append([]byte(nil), p...)
						fr, err := d.GetFrame(ver, byte(n), byte(id), byte(pi), g)
						if err != nil {
							chk.Failf("id %d: %v", id, err)
						}
						want := ref.Frame(ref.Header{Version: ver, Sys: byte(n), Comp: byte(id), Seq: byte(pi), ID: id}, p, byte(id*31+7))
						if !bytes.Equal(fr.Bytes(), want) {
							chk.Failf("id %d version %d: frame % x, want % x", id, ver, fr.Bytes(), want)
						}
						if err := d.Validate(fr); err != nil {
							chk.Failf("id %d version %d: packed frame does not validate: %v", id, ver, err)
						}
						if !bytes.Equal(p, keep) {
							chk.Failf("packing changed the message bytes")
						}
						c.Trans(2)
						c.Trace()
						c.State(chk.Hash(1, want))
					}
				}
			}
		})
	}
}

// c02pairs packs with every pair of header bytes, and with every checksum.
func c02pairs(c *chk.C) {
	for _, e := range loaded(c) {
		if e.Dialect != "common" || e.ID != 0 && e.ID != 1 && e.ID != 30 && e.ID != 253 && e.ID != 300 {
			continue
		}
		e := e
		d := m.Dialects{e.d}
		p := e.Canon(patterns(e.Max)[5])
		for _, ver := range e.versions() {
			for x := 0; x < 256; x++ {
				ver, x := ver, x
				c.Case(func() string { return fmt.Sprintf("%s version %d, a header byte of %d and every other", e, ver, x) }, func() {
					msg, _ := e.make(p, true)
					try := func(sys, comp, seq byte) {
						fr, err := d.GetFrame(ver, sys, comp, seq, msg)
						checkFrame(c, e, d, ref.Header{Version: ver, Sys: sys, Comp: comp, Seq: seq, ID: e.ID}, p, fr, err)
					}
					for y := 0; y < 256; y++ {
						try(byte(x), byte(y), 77)
						try(byte(x), 77, byte(y))
						try(77, byte(x), byte(y))
						if e.ID != 0 {
							continue
						}
						zs := []int{0, 1, 254, 255, x, y, x ^ y, x + y}
						if c.Thorough {
							zs = zs[:0]
							for z := 0; z < 256; z++ {
								zs = append(zs, z)
							}
						}
						for _, z := range zs {
							fr, err := d.GetFrame(ver, byte(x), byte(y), byte(z), msg)
							if err != nil || !bytes.Equal(fr.Bytes(), ref.Frame(ref.Header{Version: ver, Sys: byte(x), Comp: byte(y), Seq: byte(z), ID: e.ID}, e.wire(p, ver), e.CRC)) {
								chk.Failf("system %d, component %d, sequence %d: frame % x, %v", x, y, z, fr, err)
							}
							if err := d.Validate(fr); err != nil {
								chk.Failf("system %d, component %d, sequence %d: the packed frame does not validate: %v", x, y, z, err)
							}
							c.Trans(2)
						}
					}
				})
			}
		}
	}
	// the last two bytes that enter the checksum take every value, so the checksum does
	for x := 0; x < 256; x++ {
		x := x
		c.Case(func() string { return fmt.Sprintf("every checksum, payloads ending in %d and every byte", x) }, func() {
			for y := 0; y < 256; y++ {
				p := []byte{9, 0, byte(y), byte(x)}
				if x == 0 {
					p = append(p, 1)
				}
				for ver := 1; ver <= 2; ver++ {
					d := m.Dialects{&genDialect{id: 7, crc: 99, max: 255}}
					fr, err := d.GetFrame(ver, 1, 2, 3, &genMsg{id: 7, data: p})
					if err != nil || !bytes.Equal(fr.Bytes(), ref.Frame(ref.Header{Version: ver, Sys: 1, Comp: 2, Seq: 3, ID: 7}, p, 99)) {
						chk.Failf("payload % x: frame % x, %v", p, fr, err)
					}
					if err := d.Validate(fr); err != nil {
						chk.Failf("payload % x: the packed frame does not validate: %v", p, err)
					}
					if msg, err := d.GetMessage(fr); err != nil || !bytes.Equal(msg.(*genMsg).data, p) {
						chk.Failf("payload % x: the packed frame decodes to %v, %v", p, msg, err)
					}
					c.Trans(3)
				}
			}
			c.State(chk.HashS(23, fmt.Sprint(x)))
		})
	}
}

// genMsg is a message with an arbitrary payload.
type genMsg struct {
	id   uint32
	data []byte
	err  error
}

func (g *genMsg) GetVersion() int        { return 2 }
func (g *genMsg) GetDialect() string     { return "generic" }
func (g *genMsg) GetMessageName() string { return "generic" }
func (g *genMsg) GetID() uint32          { return g.id }
func (g *genMsg) Read(f m.Frame) error {
	g.id = f.GetMessageID()
	g.data = append([]byte(nil), f.GetMessageBytes()...)
	return nil
}
func (g *genMsg) Write(v int) ([]byte, error) {
	if g.err != nil {
		return nil, g.err
	}
	return append(make([]byte, 0, len(g.data)+8), g.data...), nil
}

// genDialect defines one id.
type genDialect struct {
	id       uint32
	crc      byte
	min, max uint
}

func (g *genDialect) GetMeta(id uint32) (m.MessageMeta, error) {
	if id != g.id {
		return m.MessageMeta{}, m.ErrUnknownMessage
	}
	return m.MessageMeta{CRCExtra: g.crc, MinimumLength: g.min, MaximumLength: g.max}, nil
}

func (g *genDialect) GetMessage(f m.Frame) (m.Message, error) {
	if f.GetMessageID() != g.id {
		return nil, m.ErrUnknownMessage
	}
	x := &genMsg{}
	return x, x.Read(f)
}
