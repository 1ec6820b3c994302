package main

import (
	"bytes"
	"fmt"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

// verFrame is a frame that claims another version.
type verFrame struct {
	m.Frame
	v int
}

func (f verFrame) GetVersion() int { return f.v }

func c05(c *chk.C) {
	odd := []int{-1 << 31, -1, 0, 3, 4, 5, 254, 255, 256, 257, 258, 1<<16 + 1, 1<<16 + 2, 1<<32 + 1, 1<<32 + 2, -2, 17, 18}
	for _, e := range loaded(c) {
		e := e
		c.Case(func() string { return fmt.Sprintf("%s: versions", e) }, func() {
			p := e.Canon(patterns(e.Max)[0])
			d := m.Dialects{e.d}
			refuse := func(what string, want, err error, out []byte) {
				if err != want {
					chk.Failf("%s: error %v, want %v", what, err, want)
				}
				if len(out) != 0 {
					chk.Failf("%s: refused, but output % x", what, out)
				}
				c.Trans(1)
			}
			full := ref.Frame(ref.Header{Version: 2, ID: e.ID}, p, e.CRC)
			dirty := e.Canon(patterns(e.Max)[4])
			for _, v := range odd {
				msg, mv := e.make(p, true)
				out, err := msg.Write(v)
				refuse(fmt.Sprintf("Write(%d)", v), m.ErrUnsupportedVersion, err, out)
				fr, err := d.GetFrame(v, 1, 2, 3, msg)
				if fr != nil {
					chk.Failf("GetFrame(version %d): refused, but a frame is returned: % x", v, fr.Bytes())
				}
				refuse(fmt.Sprintf("GetFrame(version %d)", v), m.ErrUnsupportedVersion, err, nil)
				if !bytes.Equal(e.Payload(mv), p) {
					chk.Failf("refused encoding changed the message")
				}
				msg, mv = e.make(dirty, false)
				err = msg.Read(verFrame{m.FrameV2(full), v})
				refuse(fmt.Sprintf("Read(frame of version %d)", v), m.ErrUnsupportedVersion, err, nil)
				if !bytes.Equal(e.Payload(mv), dirty) || ext(msg) {
					chk.Failf("refused decoding (version %d) changed the message", v)
				}
			}
			if e.ID > 255 {
				msg, mv := e.make(p, true)
				out, err := msg.Write(1)
				refuse("Write(1)", m.ErrEncodeV2MessageV1Frame, err, out)
				fr, err := d.GetFrame(1, 1, 2, 3, msg)
				refuse("GetFrame(version 1)", m.ErrEncodeV2MessageV1Frame, err, nil)
				if fr != nil {
					chk.Failf("GetFrame(version 1): refused, but a frame is returned")
				}
				msg, mv = e.make(dirty, false)
				err = msg.Read(m.FrameV1(ref.Frame(ref.Header{Version: 1, ID: e.ID & 0xff}, p, e.CRC)))
				refuse("Read(version 1 frame)", m.ErrDecodeV2MessageV1Frame, err, nil)
				err = msg.Read(verFrame{m.FrameV2(full), 1})
				refuse("Read(version 1 frame)", m.ErrDecodeV2MessageV1Frame, err, nil)
				if !bytes.Equal(e.Payload(mv), dirty) || ext(msg) {
					chk.Failf("refused decoding changed the message")
				}
			}
			if h, ok := interface{}(mustMsg(e)).(interface{ HasExtensionFields() bool }); !ok || h.HasExtensionFields() != e.HasExt {
				chk.Failf("HasExtensionFields is not %v", e.HasExt)
			}
			c.Trace()
			c.State(chk.Hash(uint64(e.ID), []byte(e.Dialect)))
		})
		c.Case(func() string { return fmt.Sprintf("%s: every payload length", e) }, func() {
			for n := 0; n <= 255; n++ {
				for _, pi := range []int{1, 2, 0} {
					for _, ver := range e.versions() {
						p := patterns(n)[pi]
						msg, err := e.d.GetMessage(frameOf(ref.Frame(ref.Header{Version: ver, ID: e.ID}, p, e.CRC)))
						if err != nil {
							chk.Failf("payload of %d bytes in version %d: %v", n, ver, err)
						}
						e.checkExt(msg, ver, fmt.Sprintf("payload of %d bytes, pattern %d, version %d", n, pi, ver))
						if ext(msg) && msg.GetVersion() != 2 {
							chk.Failf("a message with extension fields reports version %d", msg.GetVersion())
						}
						if !ext(msg) && e.ID < 256 && msg.GetVersion() != 1 {
							chk.Failf("a message without extension fields reports version %d", msg.GetVersion())
						}
						c.Trans(1)
					}
				}
			}
			c.Trace()
		})
		c.Case(func() string { return fmt.Sprintf("%s: base and extension bytes in both versions", e) }, func() {
			for i := 0; i < e.Max; i++ {
				p := make([]byte, e.Max)
				p[i] = 0x42
				for _, x := range []bool{false, true} {
					for _, ver := range e.versions() {
						msg, _ := e.make(p, x)
						out, err := msg.Write(ver)
						if err != nil {
							chk.Failf("Write(%d): %v", ver, err)
						}
						if want := e.wire(p, ver); !bytes.Equal(out, want) {
							chk.Failf("byte %d set, version %d: encoded as % x, want % x", i, ver, out, want)
						}
						fr := frameOf(ref.Frame(ref.Header{Version: ver, ID: e.ID}, out, e.CRC))
						back, err := e.d.GetMessage(fr)
						if err != nil {
							chk.Failf("decode: %v", err)
						}
						exp := p
						if ver == 1 {
							exp = e.zeroExt(p)
						}
						e.checkFields(back, exp, fmt.Sprintf("round trip in version %d", ver))
						e.checkExt(back, ver, "round trip")
						c.Trans(2)
					}
				}
			}
			c.Trace()
		})
	}
}

func mustMsg(e *entry) m.Message { msg, _ := e.fresh(); return msg }
