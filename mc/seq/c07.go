package main

import (
	"bytes"
	"fmt"
	"strings"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

// accessors compares everything a frame reports with the layout.
func accessors(c *chk.C, fr m.Frame, b []byte) {
	want := func(name string, got, exp any) {
		if got != exp {
			chk.Failf("frame % x: %s is %v, want %v", b, name, got, exp)
		}
	}
	wantB := func(name string, got, exp []byte) {
		if !bytes.Equal(got, exp) || (got == nil) != (exp == nil) {
			chk.Failf("frame % x: %s is % x, want % x", b, name, got, exp)
		}
	}
	n := int(b[1])
	h := 6
	if b[0] == 0xfd {
		h = 10
		f, ok := fr.(m.FrameV2)
		if !ok {
			chk.Failf("frame % x is a %T", b, fr)
		}
		want("version", fr.GetVersion(), 2)
		want("incompatibility flags", f.GetIncompatibilityFlags(), b[2])
		want("compatibility flags", f.GetCompatibilityFlags(), b[3])
		want("sequence", fr.GetMessageSequence(), uint(b[4]))
		want("system", fr.GetSenderSystemID(), b[5])
		want("component", fr.GetSenderComponentID(), b[6])
		want("id", fr.GetMessageID(), uint32(b[7])|uint32(b[8])<<8|uint32(b[9])<<16)
		var sig []byte
		if b[2]&1 == 1 {
			sig = b[n+12 : n+25]
		}
		wantB("signature", f.GetSignature(), sig)
	} else {
		if _, ok := fr.(m.FrameV1); !ok {
			chk.Failf("frame % x is a %T", b, fr)
		}
		want("version", fr.GetVersion(), 1)
		want("sequence", fr.GetMessageSequence(), uint(b[2]))
		want("system", fr.GetSenderSystemID(), b[3])
		want("component", fr.GetSenderComponentID(), b[4])
		want("id", fr.GetMessageID(), uint32(b[5]))
	}
	want("length", fr.GetMessageLength(), uint(n))
	wantB("payload", append([]byte{}, fr.GetMessageBytes()...), append([]byte{}, b[h:h+n]...))
	want("checksum", fr.GetChecksum(), uint16(b[h+n])|uint16(b[h+n+1])<<8)
	wantB("checksum input", fr.GetChecksumInput(), b[1:h+n])
	wantB("bytes", fr.Bytes(), b)
	c.Trans(10)
}

func rendered(fr m.Frame) {
	s := fmt.Sprint(fr)
	if s == "" || strings.Contains(s, "%!") || strings.Contains(s, "PANIC") {
		chk.Failf("frame % x renders as %q", fr.Bytes(), s)
	}
	t, ok := fr.(fmt.Stringer)
	if !ok {
		chk.Failf("frame has no String method")
	}
	if t.String() != s {
		chk.Failf("frame % x renders differently: %q, %q", fr.Bytes(), s, t.String())
	}
}

func c07(c *chk.C) {
	mk := func(ver, n int, flags byte) []byte {
		var b []byte
		if ver == 1 {
			b = append(b, 0xfe, byte(n))
		} else {
			b = append(b, 0xfd, byte(n), flags)
		}
		tot := ref.CandLen(append(b, 0, 0, 0))
		for i := len(b); i < tot; i++ {
			b = append(b, byte(i*3+n*5+int(flags)*7+11))
		}
		return b
	}
	for n := 0; n <= 255; n++ {
		n := n
		c.Case(func() string { return fmt.Sprintf("payload of %d bytes, every flag byte", n) }, func() {
			b := mk(1, n, 0)
			accessors(c, m.FrameV1(b), b)
			rendered(m.FrameV1(b))
			for f := 0; f < 256; f++ {
				b := mk(2, n, byte(f))
				accessors(c, m.FrameV2(b), b)
				rendered(m.FrameV2(b))
				c.State(chk.Hash(0, b))
			}
			c.Trace()
		})
	}
	for ver := 1; ver <= 2; ver++ {
		for pos := 2; pos < 34; pos++ {
			ver, pos := ver, pos
			c.Case(func() string { return fmt.Sprintf("version %d, byte %d over all values", ver, pos) }, func() {
				for x := 0; x < 256; x++ {
					for _, fl := range []byte{0, 1} {
						b := mk(ver, 10, fl)
						if pos >= len(b) {
							continue
						}
						b[pos] = byte(x)
						if n := ref.CandLen(b); n > len(b) {
							b = append(b, make([]byte, n-len(b))...)
						} else {
							b = b[:n]
						}
						accessors(c, frameOf(b), b)
						accessors(c, recycled(b), b)
						rendered(frameOf(b))
						c.State(chk.Hash(1, b))
					}
				}
				c.Trace()
			})
		}
	}
	for hi := 0; hi < 256; hi++ {
		hi := hi
		c.Case(func() string { return fmt.Sprintf("ids %02x0000 to %02xffff", hi, hi) }, func() {
			b := mk(2, 3, 0)
			b[9] = byte(hi)
			for lo := 0; lo < 1<<16; lo++ {
				b[7], b[8] = byte(lo), byte(lo>>8)
				if got := m.FrameV2(b).GetMessageID(); got != uint32(hi)<<16|uint32(lo) {
					chk.Failf("id bytes % x are reported as %d", b[7:10], got)
				}
			}
			c.Trans(1 << 16)
			c.Trace()
		})
	}
	// frames from bytes
	for l := 0; l <= 300; l++ {
		l := l
		cur := ""
		c.Case(func() string { return fmt.Sprintf("FrameFromBytes of %d bytes: %s", l, cur) }, func() {
			for k := 0; k < 512; k++ {
				s, spare := k&255, 20*(k>>8)
				if l == 0 && s > 0 {
					continue
				}
				raw := make([]byte, l, l+spare)
				for i := range raw {
					raw[i] = byte(i + 5)
				}
				if l > 0 {
					raw[0] = byte(s)
				}
				keep := append([]byte(nil), raw...)
				lens := []int{0, 1, 2, 6, 8, 12, l - 1, l, l + 1, l + 19, 279, 280, 281, 65535}
				for _, n := range lens {
					if n < 0 {
						continue
					}
					for _, cp := range []bool{false, true} {
						cur = fmt.Sprintf("start byte %02x, length %d, copy %v", s, n, cp)
						if l > 0 && cp && n == 0 {
							continue // an empty copy has no start byte to speak of
						}
						fr, err := m.FrameFromBytes(raw, uint16(n), cp)
						c.Trans(1)
						start := l > 0 && (s == 0xfd || s == 0xfe)
						switch {
						case l == 0:
							if err != m.ErrFrameTooShort || fr != nil {
								chk.Failf("empty input: %v, %v", fr, err)
							}
						case !start:
							if (err != m.ErrUnknownStartByte && !(cp && n > l && err == m.ErrFrameTooShort)) || fr != nil {
								chk.Failf("unknown start byte: %v, %v", fr, err)
							}
						case cp && n > l:
							if err != m.ErrFrameTooShort || fr != nil {
								chk.Failf("too short to copy: %v, %v", fr, err)
							}
						default:
							if err != nil || fr == nil {
								chk.Failf("%v, %v", fr, err)
							}
							exp := raw
							if cp {
								exp = raw[:n]
							}
							got := fr.Bytes()
							if !bytes.Equal(got, exp) {
								chk.Failf("frame bytes % x, want % x", got, exp)
							}
							v := 1
							if s == 0xfd {
								v = 2
							}
							if fr.GetVersion() != v {
								chk.Failf("version %d, want %d", fr.GetVersion(), v)
							}
							if cp {
								g := append([]byte(nil), got...)
								for i := range raw {
									raw[i] ^= 0xff
								}
								if !bytes.Equal(got, g) {
									chk.Failf("the copy changes with the input")
								}
								copy(raw, keep)
								for i := range got[:cap(got)] {
									got[:cap(got)][i] ^= 0xff
								}
							}
						}
						if !bytes.Equal(raw, keep) {
							chk.Failf("the input was changed")
						}
					}
				}
			}
			c.Trace()
		})
	}
}
