package main

import (
	"bytes"
	"fmt"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

func sumOf(h *m.X25CRC) uint16 {
	b := h.Sum(nil)
	if len(b) != 2 {
		chk.Failf("Sum(nil) has %d bytes", len(b))
	}
	return uint16(b[0]) | uint16(b[1])<<8
}

type crcOp struct {
	kind byte // w, s, r
	data []byte
	pre  int // prefix shape of a sum
}

func (o crcOp) String() string {
	switch o.kind {
	case 'w':
		return fmt.Sprintf("Write(% x)", o.data)
	case 's':
		return fmt.Sprintf("Sum(prefix %d)", o.pre)
	}
	return "Reset"
}

func prefixOf(k int) []byte {
	switch k {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{9, 8, 7}
	case 3:
		b := make([]byte, 16)
		for i := range b {
			b[i] = byte(0xc0 + i)
		}
		return b[:5]
	case 4:
		return make([]byte, 0, 1)
	case 5:
		return []byte{1, 2, 3, 4}[:3:4]
	}
	return bytes.Repeat([]byte{0x5a}, 300)
}

// crcState is an implementation object next to its model.
type crcState struct {
	h *m.X25CRC
	s uint16
}

func (x *crcState) do(c *chk.C, o crcOp) {
	c.Trans(1)
	switch o.kind {
	case 'w':
		in := append([]byte(nil), o.data...)
		n, err := x.h.Write(in)
		if n != len(in) || err != nil {
			chk.Failf("Write of %d bytes returned %d, %v", len(in), n, err)
		}
		if !bytes.Equal(in, o.data) {
			chk.Failf("Write changed its input")
		}
		x.s = ref.FastCRC(x.s, o.data)
	case 's':
		p := prefixOf(o.pre)
		keep := append([]byte(nil), p...)
		out := x.h.Sum(p)
		want := append(append([]byte(nil), keep...), byte(x.s), byte(x.s>>8))
		if !bytes.Equal(out, want) {
			chk.Failf("Sum(% x) = % x, want % x", keep, out, want)
		}
		if !bytes.Equal(p, keep) {
			chk.Failf("Sum changed its prefix")
		}
	case 'r':
		x.h.Reset()
		x.s = 0xffff
	}
	if x.h.Size() != 2 || x.h.BlockSize() != 1 {
		chk.Failf("sizes %d, %d", x.h.Size(), x.h.BlockSize())
	}
	if got := sumOf(x.h); got != x.s {
		chk.Failf("sum is %04x, want %04x", got, x.s)
	}
	c.State(uint64(x.s))
}

func newCRC() *crcState {
	h := &m.X25CRC{}
	h.Reset()
	return &crcState{h, 0xffff}
}

func c01(c *chk.C) {
	for a := 0; a < 256; a++ {
		a := a
		c.Case(func() string { return fmt.Sprintf("all inputs %02x ?? ??", a) }, func() {
			h := &m.X25CRC{}
			var in [3]byte
			in[0] = byte(a)
			for b := 0; b < 256; b++ {
				in[1] = byte(b)
				s2 := ref.FastCRC(0xffff, in[:2])
				c.State(uint64(s2))
				for d := 0; d < 256; d++ {
					in[2] = byte(d)
					h.Reset()
					if n, err := h.Write(in[:]); n != 3 || err != nil {
						chk.Failf("Write returned %d, %v", n, err)
					}
					if got, want := sumOf(h), ref.FastCRC(s2, in[2:]); got != want {
						chk.Failf("checksum of % x is %04x, want %04x", in, got, want)
					}
				}
			}
			c.Trans(65536)
			c.Trace()
		})
	}
	// operation sequences against the model
	var ops []crcOp
	for _, w := range [][]byte{{}, {0}, {0xff}, {0x13, 0x80}, {0xfd, 0, 0xfe}} {
		ops = append(ops, crcOp{kind: 'w', data: w})
	}
	for _, p := range []int{0, 3} {
		ops = append(ops, crcOp{kind: 's', pre: p})
	}
	ops = append(ops, crcOp{kind: 'r'})
	depth := 7
	if c.Thorough {
		depth = 8
	}
	tot := 1
	for i := 0; i < depth; i++ {
		tot *= len(ops)
	}
	const block = 64
	for s := 0; s < tot; s += block {
		s := s
		var cur []crcOp
		c.Case(func() string { return fmt.Sprint(cur) }, func() {
			for k := s; k < s+block && k < tot; k++ {
				cur = cur[:0]
				for i, x := 0, k; i < depth; i++ {
					cur = append(cur, ops[x%len(ops)])
					x /= len(ops)
				}
				x := newCRC()
				for _, o := range cur {
					x.do(c, o)
				}
				c.Trace()
			}
		})
	}
	for p := 0; p < 7; p++ {
		for n := 0; n < 3; n++ {
			o := []crcOp{{kind: 'w', data: []byte{1, 2, 3}[:n]}, {kind: 's', pre: p}, {kind: 's', pre: p}, {kind: 'w', data: []byte{4}}, {kind: 's', pre: p}}
			c.Case(func() string { return fmt.Sprint(o) }, func() {
				x := newCRC()
				for _, o := range o {
					x.do(c, o)
				}
				c.Trace()
			})
		}
	}
	// every composition of every short input
	alpha := []byte{0, 1, 0x55, 0x80, 0xfe, 0xff}
	for l := 0; l <= 5; l++ {
		n := 1
		for i := 0; i < l; i++ {
			n *= len(alpha)
		}
		for k := 0; k < n; k++ {
			in := make([]byte, l)
			for i, x := 0, k; i < l; i++ {
				in[i] = alpha[x%len(alpha)]
				x /= len(alpha)
			}
			c.Case(func() string { return fmt.Sprintf("all splits of % x", in) }, func() {
				for mask := 0; mask < 1<<uint(max(l-1, 0)); mask++ {
					x := newCRC()
					at := 0
					for i := 0; i < l; i++ {
						if i == l-1 || mask>>uint(i)&1 == 1 {
							x.do(c, crcOp{kind: 'w', data: in[at : i+1]})
							at = i + 1
						}
					}
					if sumOf(x.h) != ref.CRC(in) {
						chk.Failf("split %b: checksum %04x, want %04x", mask, sumOf(x.h), ref.CRC(in))
					}
					c.Trace()
				}
			})
		}
	}
	// two hashes used alternately
	c.Case(func() string { return "two hashes interleaved" }, func() {
		for k := 0; k < 1<<12; k++ {
			x, y := newCRC(), newCRC()
			for i := 0; i < 6; i++ {
				z := x
				if k>>uint(2*i)&1 == 1 {
					z = y
				}
				o := crcOp{kind: 'w', data: []byte{byte(i), 0xa5}}
				if k>>uint(2*i+1)&1 == 1 {
					o = crcOp{kind: 's', pre: 2}
				}
				z.do(c, o)
			}
			if sumOf(x.h) != x.s || sumOf(y.h) != y.s {
				chk.Failf("hashes disturb each other")
			}
			c.Trace()
		}
	})
	// copying the value copies the state
	c.Case(func() string { return "copied hash" }, func() {
		x := newCRC()
		x.do(c, crcOp{kind: 'w', data: []byte("abc")})
		h := *x.h
		y := &crcState{&h, x.s}
		x.do(c, crcOp{kind: 'w', data: []byte("d")})
		y.do(c, crcOp{kind: 'w', data: []byte("e")})
		if sumOf(x.h) != x.s || sumOf(y.h) != y.s {
			chk.Failf("a copied hash is not independent")
		}
		c.Trace()
	})
	for n := 0; n <= 600; n++ {
		for pi := 0; pi < 4; pi++ {
			n, in := n, patterns(n)[[]int{0, 1, 2, 5}[pi]]
			c.Case(func() string { return fmt.Sprintf("input of %d bytes, pattern %d, every split in two", n, pi) }, func() {
				want := ref.FastCRC(0xffff, in)
				for i := 0; i <= n; i++ {
					h := &m.X25CRC{}
					h.Reset()
					h.Write(in[:i])
					h.Write(in[i:])
					if got := sumOf(h); got != want {
						chk.Failf("split at %d: %04x, want %04x", i, got, want)
					}
					c.Trans(2)
				}
				c.Trace()
			})
		}
	}
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000} {
		n := n
		c.Case(func() string { return fmt.Sprintf("input of %d bytes", n) }, func() {
			in := patterns(n)[5]
			for _, step := range []int{n, 1, 7, 255, 256, 4096} {
				h := &m.X25CRC{}
				h.Reset()
				for i := 0; i < n; i += step {
					h.Write(in[i:min(i+step, n)])
					c.Trans(1)
				}
				if got, want := sumOf(h), ref.FastCRC(0xffff, in); got != want {
					chk.Failf("in pieces of %d: %04x, want %04x", step, got, want)
				}
			}
			c.Trace()
		})
	}
}
