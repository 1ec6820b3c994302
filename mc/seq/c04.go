package main

import (
	"bytes"
	"fmt"
	"reflect"

	m "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/util"
	"verifmc/chk"
	"verifmc/ref"
)

func truncCheck(c *chk.C, in []byte) {
	buf := append(append([]byte{0xee}, in...), 0xee, 0xee, 0xee)
	arg := buf[1 : 1+len(in)]
	out := util.TruncateV2(arg)
	if want := ref.Truncate(in); !bytes.Equal(out, want) {
		chk.Failf("TruncateV2(% x) = % x, want % x", in, out, want)
	}
	if !bytes.Equal(arg, in) || buf[0] != 0xee || !bytes.Equal(buf[1+len(in):], []byte{0xee, 0xee, 0xee}) {
		chk.Failf("TruncateV2(% x) changed its input", in)
	}
	c.Trans(1)
}

func c04(c *chk.C) {
	depth := 10
	if c.Thorough {
		depth = 12
	}
	for l := 0; l <= depth; l++ {
		n := 1
		for i := 0; i < l; i++ {
			n *= 3
		}
		for s := 0; s < n; s += 729 {
			l, s := l, s
			var in []byte
			c.Case(func() string { return fmt.Sprintf("truncate % x", in) }, func() {
				for k := s; k < s+729 && k < n; k++ {
					in = make([]byte, l)
					for i, x := 0, k; i < l; i++ {
						in[i] = []byte{0, 1, 0x80}[x%3]
						x /= 3
					}
					truncCheck(c, in)
					c.State(chk.Hash(0, in))
				}
				c.Trace()
			})
		}
	}
	for l := 0; l <= 300; l++ {
		l := l
		c.Case(func() string { return fmt.Sprintf("truncate strings of %d bytes", l) }, func() {
			for k := 0; k < l; k++ {
				for _, x := range []byte{1, 0x80, 0xff} {
					in := make([]byte, l)
					in[k] = x
					truncCheck(c, in)
					for i := 0; i < k; i++ {
						in[i] = 0xff
					}
					truncCheck(c, in)
				}
			}
			c.Trace()
		})
	}
	for _, e := range loaded(c) {
		e := e
		for last := -1; last < e.Max; last++ {
			last := last
			c.Case(func() string { return fmt.Sprintf("%s, last non-zero byte %d", e, last) }, func() {
				for bg := 0; bg < 3; bg++ {
					p := make([]byte, e.Max)
					for i := 0; i < last; i++ {
						p[i] = []byte{0, 0xff, byte(i + 1)}[bg]
					}
					if last >= 0 {
						p[last] = []byte{1, 0x80, 0x7f}[bg]
					}
					p = e.Canon(p)
					for _, x := range []bool{false, true} {
						msg, _ := e.make(p, x)
						if last%2 == 0 {
							msg = e.again(msg)
						}
						out, err := msg.Write(2)
						if err != nil {
							chk.Failf("Write(2): %v", err)
						}
						if want := ref.Truncate(p); !bytes.Equal(out, want) {
							chk.Failf("encoded as % x, want % x", out, want)
						}
						if e.ID <= 255 {
							out, err := msg.Write(1)
							if err != nil {
								chk.Failf("Write(1): %v", err)
							}
							if !bytes.Equal(out, p[:e.Base()]) {
								chk.Failf("version 1 encoded as % x, want % x", out, p[:e.Base()])
							}
						}
						c.Trans(2)
					}
					c.State(chk.Hash(uint64(e.ID), []byte(e.Dialect), p))
					if bg == 1 {
						continue
					}
					// every cut of the payload against its zero extension
					for cut := 0; cut <= e.Max; cut++ {
						z := make([]byte, e.Max)
						copy(z, p[:cut])
						h := ref.Header{Version: 2, ID: e.ID}
						a, err := e.d.GetMessage(m.FrameV2(ref.Frame(h, p[:cut], e.CRC)))
						if err != nil {
							chk.Failf("cut to %d bytes: %v", cut, err)
						}
						b, err := e.d.GetMessage(m.FrameV2(ref.Frame(h, z, e.CRC)))
						if err != nil {
							chk.Failf("extended from %d bytes: %v", cut, err)
						}
						e.checkFields(a, z, fmt.Sprintf("payload cut to %d bytes", cut))
						e.checkFields(b, z, fmt.Sprintf("payload cut to %d bytes and zero-extended", cut))
						e.checkExt(a, 2, "cut payload")
						if !e.Variable && !reflect.DeepEqual(a, b) && !hasNaN(z) {
							chk.Failf("cut to %d bytes: decoded %+v, zero-extended %+v", cut, a, b)
						}
						c.Trans(2)
					}
				}
				c.Trace()
			})
		}
	}
}

// hasNaN: patterns of 0xff make NaNs, which are never deeply equal.
func hasNaN(p []byte) bool { return bytes.Contains(p, []byte{0x7f}) || bytes.Contains(p, []byte{0xff}) }
