package main

import (
	"bytes"
	"fmt"
	"strings"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

// textLines splits a rendered frame into its labelled values.
func textLines(s string) (labels []string, values map[string]string) {
	values = map[string]string{}
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		k, v, ok := strings.Cut(l, ":")
		if !ok {
			chk.Failf("a line without label in %q", s)
		}
		k = strings.TrimSpace(k)
		if _, dup := values[k]; dup {
			chk.Failf("%s is listed twice in %q", k, s)
		}
		labels = append(labels, k)
		values[k] = strings.TrimSpace(v)
	}
	return
}

// rendersFrame compares the text of a frame with its bytes, in memory of its own and in memory
// that held other frames before.
func rendersFrame(c *chk.C, b []byte) {
	renders1(c, b)
	renders1(c, recycledBytes[:copy(recycledBytes[:], b):len(b)])
}

func renders1(c *chk.C, b []byte) {
	keep := append([]byte(nil), b...)
	v1 := b[0] == 0xfe
	want := map[string]string{}
	n := int(b[1])
	want["MessageLength"] = fmt.Sprint(n)
	var fr m.Frame
	if v1 {
		fr = m.FrameV1(b)
		want["Version"] = "1"
		want["SenderSystemID"], want["SenderComponentID"], want["MessageID"] = fmt.Sprint(b[3]), fmt.Sprint(b[4]), fmt.Sprint(b[5])
		want["Checksum"] = fmt.Sprint(int(b[6+n]) | int(b[7+n])<<8)
	} else {
		fr = m.FrameV2(b)
		want["Version"] = "2"
		want["Signed"] = fmt.Sprint(b[2]&1 == 1)
		want["IncompatibilityFlags"], want["CompatibilityFlags"] = fmt.Sprint(b[2]), fmt.Sprint(b[3])
		want["SenderSystemID"], want["SenderComponentID"] = fmt.Sprint(b[5]), fmt.Sprint(b[6])
		want["MessageID"] = fmt.Sprint(int(b[7]) | int(b[8])<<8 | int(b[9])<<16)
		want["Checksum"] = fmt.Sprintf("0x%x", int(b[10+n])|int(b[11+n])<<8)
		if b[2]&1 == 1 {
			want["Signature"] = fmt.Sprintf("%x", b[12+n:25+n])
		}
	}
	s := fmt.Sprint(fr)
	c.Trans(1)
	_, got := textLines(s)
	for k, w := range want {
		if g, ok := got[k]; !ok || g != w {
			chk.Failf("frame % x: text shows %s as %q, want %q:\n%s", b, k, g, w, s)
		}
	}
	if _, ok := got["Signature"]; ok && want["Signature"] == "" {
		chk.Failf("frame % x: text shows a signature:\n%s", b, s)
	}
	if again := fr.(fmt.Stringer).String(); again != s {
		chk.Failf("frame % x: renders differently the second time", b)
	}
	if !bytes.Equal(b, keep) {
		chk.Failf("frame % x: rendering changed it to % x", keep, b)
	}
}

// onePlaceholder is a placeholder that held other messages before.
var onePlaceholder m.UnknownMessage

func rendersPlaceholder(c *chk.C, u *m.UnknownMessage) {
	placeholder1(c, u)
	onePlaceholder.ID, onePlaceholder.Version = u.ID, u.Version
	onePlaceholder.Raw = recycledBytes[1000 : 1000+copy(recycledBytes[1000:], u.Raw)]
	placeholder1(c, &onePlaceholder)
}

func placeholder1(c *chk.C, u *m.UnknownMessage) {
	raw := append([]byte(nil), u.Raw...)
	id, ver := u.ID, u.Version
	s := fmt.Sprint(u)
	c.Trans(1)
	_, got := textLines(s)
	for k, w := range map[string]string{"ID": fmt.Sprint(id), "Version": fmt.Sprint(ver), "Raw": fmt.Sprintf("%x", raw)} {
		if got[k] != w {
			chk.Failf("placeholder %d, version %d, % x: text shows %s as %q, want %q:\n%s", id, ver, raw, k, got[k], w, s)
		}
	}
	if u.ID != id || u.Version != ver || !bytes.Equal(u.Raw, raw) || u.String() != s {
		chk.Failf("placeholder %d: rendering changed it or differs the second time", id)
	}
}

func c32(c *chk.C) {
	mk := func(ver int, inc, compat, seq, sys, comp byte, id uint32, p []byte, sum int) []byte {
		b := ref.Frame(ref.Header{Version: ver, Incompat: inc, Compat: compat, Seq: seq, Sys: sys, Comp: comp, ID: id}, p, 77)
		if sum >= 0 {
			at := 6 + len(p)
			if ver == 2 {
				at += 4
			}
			b[at], b[at+1] = byte(sum), byte(sum>>8)
		}
		return b
	}
	for ver := 1; ver <= 2; ver++ {
		for n := 0; n <= 255; n++ {
			c.Case(func() string { return fmt.Sprintf("version %d, payload of %d bytes", ver, n) }, func() {
				for _, p := range patterns(n) {
					for _, inc := range []byte{0, 1, 2, 0xff} {
						if ver == 1 && inc > 0 {
							continue
						}
						rendersFrame(c, mk(ver, inc, 3, 4, 5, 6, 7, p, -1))
					}
					rendersPlaceholder(c, &m.UnknownMessage{ID: uint32(n), Version: ver, Raw: p})
					c.State(chk.Hash(uint64(ver), p))
				}
				c.Trace()
			})
		}
		for hi := 0; hi < 256; hi++ {
			c.Case(func() string {
				return fmt.Sprintf("version %d, header bytes %d, checksums %d to %d", ver, hi, hi<<8, hi<<8|255)
			}, func() {
				p := patterns(4)[0]
				x := byte(hi)
				for lo := 0; lo < 256; lo++ {
					rendersFrame(c, mk(ver, 0, 1, 2, 3, 4, 5, p, hi<<8|lo))
					rendersFrame(c, mk(ver, 0, 1, 2, x, byte(lo), 5, p, -1))
					c.State(uint64(ver)<<32 | uint64(hi)<<8 | uint64(lo))
				}
				for _, inc := range []byte{0, 1} {
					if ver == 1 {
						inc = 0
					}
					rendersFrame(c, mk(ver, inc, x, 20, 30, 40, 50, p, -1))
					rendersFrame(c, mk(ver, inc, 10, x, 30, 40, 50, p, -1))
					rendersFrame(c, mk(ver, inc, 10, 20, 30, 40, uint32(x), p, -1))
					if ver == 2 {
						rendersFrame(c, mk(ver, x, 10, 20, 30, 40, 50, p, -1))
						for sh := 0; sh < 24; sh += 8 {
							rendersFrame(c, mk(ver, inc, 10, 20, 30, 40, uint32(x)<<sh, p, -1))
							rendersFrame(c, mk(ver, inc, 10, 20, 30, 40, 0xffffff^uint32(x)<<sh, p, -1))
							rendersPlaceholder(c, &m.UnknownMessage{ID: uint32(x) << sh, Version: 2, Raw: p})
						}
					}
				}
				c.Trace()
			})
		}
	}
	// signature bytes
	c.Case(func() string { return "signatures" }, func() {
		for i := 0; i < 13; i++ {
			for x := 0; x < 256; x++ {
				b := mk(2, 1, 0, 1, 2, 3, 4, patterns(5)[0], -1)
				b[len(b)-13+i] = byte(x)
				rendersFrame(c, b)
			}
		}
		c.Trace()
	})
	// one after another: nothing of an earlier text stays
	c.Case(func() string { return "texts one after another" }, func() {
		var fs [][]byte
		for ver := 1; ver <= 2; ver++ {
			for _, n := range []int{0, 3, 255} {
				for inc := byte(0); inc < 2; inc++ {
					if ver == 2 || inc == 0 {
						fs = append(fs, mk(ver, inc, 9, 8, 7, byte(n), 5, patterns(n)[0], -1))
					}
				}
			}
		}
		for _, a := range fs {
			for _, b := range fs {
				for _, d := range fs {
					rendersFrame(c, a)
					rendersFrame(c, b)
					rendersPlaceholder(c, &m.UnknownMessage{ID: 3, Version: 2, Raw: d})
					rendersFrame(c, d)
				}
			}
		}
		c.Trace()
	})
}
