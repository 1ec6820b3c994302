package main

import (
	"bytes"
	"fmt"

	m "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"
	"verifmc/chk"
	"verifmc/ref"
)

func c28(c *chk.C) {
	ds := m.Dialects{common.Dialect{}}
	def := ref.ByDialect["common"][248]
	look := ref.LookupOf("common")
	lens := []int{}
	for n := 0; n <= 300; n++ {
		lens = append(lens, n)
	}
	heads := [][5]byte{{0, 0, 0, 0, 0}, {1, 2, 3, 4, 5}, {0, 0, 0, 0, 9}, {0xff, 0xfe, 0xfd, 0, 0}}
	contents := func(n int) [][]byte {
		p := patterns(n)
		return [][]byte{p[0], p[1], p[7], p[8], p[2]}
	}
	newMsg := func(h [5]byte) *common.V2Extension {
		return &common.V2Extension{MessageType: uint16(h[0]) | uint16(h[1])<<8, TargetNetwork: h[2], TargetSystem: h[3], TargetComponent: h[4]}
	}
	headOf := func(x *common.V2Extension) [5]byte {
		return [5]byte{byte(x.MessageType), byte(x.MessageType >> 8), x.TargetNetwork, x.TargetSystem, x.TargetComponent}
	}
	set := func(x *common.V2Extension, p []byte) []byte {
		keep := append([]byte(nil), p...)
		h := headOf(x)
		err := x.SetPayloadSlice(p)
		var want error
		eff := p
		if len(p) > 249 {
			want = m.ErrValueTooLong
			eff = p[:249]
		}
		if err != want {
			chk.Failf("setting %d bytes returns %v, want %v", len(p), err, want)
		}
		if !bytes.Equal(p, keep) || headOf(x) != h {
			chk.Failf("setting the payload changed something else")
		}
		if got := x.GetPayload(); !bytes.Equal(got, eff) || int(x.PayloadLength) != len(eff) {
			chk.Failf("set to %d bytes: payload is % x, length %d", len(p), got, x.PayloadLength)
		}
		c.Trans(2)
		return append([]byte(nil), eff...)
	}
	send := func(x *common.V2Extension, h [5]byte, eff []byte) {
		for ver := 1; ver <= 2; ver++ {
			wire := append(append([]byte(nil), h[:]...), eff...)
			if ver == 2 {
				wire = ref.Truncate(wire)
			}
			fr, err := ds.GetFrame(ver, 1, 2, 3, x)
			if err != nil {
				chk.Failf("packing %d bytes in version %d: %v", len(eff), ver, err)
			}
			want := ref.Frame(ref.Header{Version: ver, ID: 248, Sys: 1, Comp: 2, Seq: 3}, wire, def.CRC)
			if !bytes.Equal(fr.Bytes(), want) {
				chk.Failf("%d bytes in version %d packed as % x, want % x", len(eff), ver, fr.Bytes(), want)
			}
			if v := validate(c, ds, look, want, func() string { return "packed" }); v != ref.Valid {
				chk.Failf("the model rejects the frame: %v", v)
			}
			received(c, ds, want)
		}
		c.Trans(2)
		c.Trace()
	}
	for _, n := range lens {
		n := n
		cur := ""
		c.Case(func() string { return fmt.Sprintf("payload of %d bytes, %s", n, cur) }, func() {
			for hi, h := range heads {
				for ci, p := range contents(n) {
					cur = fmt.Sprintf("content %d, header %d", ci, hi)
					x := newMsg(h)
					send(x, h, set(x, p))
					c.State(chk.Hash(uint64(hi), p))
				}
			}
			// from a message used before
			for _, k := range []int{0, 1, 2, 5, 100, 247, 248, 249, 250, 300} {
				for _, h := range heads[:2] {
					cur = fmt.Sprintf("after a payload of %d bytes", k)
					x := newMsg(h)
					set(x, patterns(k)[2])
					send(x, h, set(x, patterns(n)[0]))
					x = newMsg(h)
					set(x, patterns(n)[4])
					send(x, h, set(x, patterns(k)[1]))
					// after decoding
					y := &common.V2Extension{}
					if err := y.Read(m.FrameV1(ref.Frame(ref.Header{Version: 1, ID: 248}, append(h[:], patterns(min(n, 250))[0]...), def.CRC))); err != nil {
						chk.Failf("decode: %v", err)
					}
					send(y, h, set(y, patterns(k)[7]))
				}
			}
		})
	}
	for n := 0; n <= 255; n++ {
		n := n
		c.Case(func() string { return fmt.Sprintf("received frames with %d payload bytes", n) }, func() {
			for ver := 1; ver <= 2; ver++ {
				for _, p := range patterns(n) {
					b := ref.Frame(ref.Header{Version: ver, ID: 248, Sys: 1}, p, def.CRC)
					validate(c, ds, look, b, func() string { return "received" })
					received(c, ds, b)
					c.State(chk.Hash(uint64(ver)+50, p))
				}
			}
			c.Trace()
		})
	}
}

// received decodes a frame into a new and into a used message.
func received(c *chk.C, ds m.Dialects, b []byte) {
	fr := frameOf(b)
	n := int(b[1])
	h := len(b) - n - 2
	wire := b[h : h+n]
	full := make([]byte, 254)
	copy(full, wire)
	want := []byte{}
	if n > 5 {
		want = wire[5:]
	}
	if len(want) > 249 {
		want = want[:249]
	}
	msg, err := ds.GetMessage(fr)
	if err != nil {
		chk.Failf("decoding %d bytes: %v", n, err)
	}
	x, ok := msg.(*common.V2Extension)
	if !ok {
		chk.Failf("decoded to %T", msg)
	}
	y := &common.V2Extension{MessageType: 99, PayloadLength: 249, HasExtensionFieldValues: true}
	for i := range y.Payload {
		y.Payload[i] = 0x77
	}
	if err := y.Read(fr); err != nil {
		chk.Failf("decoding %d bytes into a used message: %v", n, err)
	}
	for _, x := range []*common.V2Extension{x, y} {
		if got := x.GetPayload(); !bytes.Equal(got, want) || int(x.PayloadLength) != len(want) {
			chk.Failf("%d bytes received: payload is % x (length %d), want % x", n, got, x.PayloadLength, want)
		}
		hd := [5]byte{byte(x.MessageType), byte(x.MessageType >> 8), x.TargetNetwork, x.TargetSystem, x.TargetComponent}
		if !bytes.Equal(hd[:], full[:5]) || !bytes.Equal(x.Payload[:], full[5:]) || x.HasExtensionFieldValues {
			chk.Failf("%d bytes received: fields % x, payload % x, extensions %v; want % x", n, hd, x.Payload, x.HasExtensionFieldValues, full)
		}
		if s := x.String(); s == "" {
			chk.Failf("no text")
		}
	}
	c.Trans(3)
}
