package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

func c03(c *chk.C) {
	// definitions
	for _, dn := range dialectNames {
		dn := dn
		d := dialects[dn]
		def := ref.ByDialect[dn]
		c.Case(func() string { return dn + ": definition of each listed message" }, func() {
			if n := d.(interface{ GetName() string }).GetName(); n != dn {
				chk.Failf("dialect %s calls itself %s", dn, n)
			}
			for _, id := range sortedIDs(dn) {
				r := def[id]
				meta, err := d.GetMeta(id)
				if err != nil || int(meta.MinimumLength) != r.Min || int(meta.MaximumLength) != r.Max || meta.CRCExtra != r.CRC {
					chk.Failf("%s id %d: meta %+v, %v; want crc %d, min %d, max %d", dn, id, meta, err, r.CRC, r.Min, r.Max)
				}
				for _, ver := range []int{1, 2} {
					if ver == 1 && id > 255 {
						continue
					}
					msg, err := d.GetMessage(frameOf(ref.Frame(ref.Header{Version: ver, ID: id}, make([]byte, r.Base()), r.CRC)))
					if err != nil || msg == nil {
						chk.Failf("%s id %d: no decoder: %v", dn, id, err)
					}
					if msg.GetID() != id || msg.GetMessageName() != r.Name || msg.GetDialect() != dn {
						chk.Failf("%s id %d decodes to %s/%s id %d, want %s", dn, id, msg.GetDialect(), msg.GetMessageName(), msg.GetID(), r.Name)
					}
					if tn := fmt.Sprintf("%T", msg); !strings.HasSuffix(tn, "."+r.Name) {
						chk.Failf("%s id %d decodes to a %s, want a %s", dn, id, tn, r.Name)
					}
					c.Trans(1)
				}
				c.Trace()
			}
		})
		const step = 1 << 18
		for from := uint32(0); from < 1<<24; from += step {
			from := from
			c.Case(func() string { return fmt.Sprintf("%s: ids %d to %d", dn, from, from+step-1) }, func() {
				buf := ref.Frame(ref.Header{Version: 2}, []byte{0}, 0)
				for id := from; id < from+step; id++ {
					if def[id] != nil {
						continue
					}
					if _, err := d.GetMeta(id); err != m.ErrUnknownMessage {
						chk.Failf("%s: id %d is not defined but has meta data (%v)", dn, id, err)
					}
					buf[7], buf[8], buf[9] = byte(id), byte(id>>8), byte(id>>16)
					if msg, err := d.GetMessage(m.FrameV2(buf)); err != m.ErrUnknownMessage {
						chk.Failf("%s: id %d is not defined but decodes to %T, %v", dn, id, msg, err)
					}
				}
				c.Trans(2 * step)
				c.State(uint64(from))
			})
		}
		c.Case(func() string { return dn + ": ids beyond 24 bits" }, func() {
			for id := range def {
				for _, x := range []uint32{id | 1<<24, id | 1<<31, id | 0xff000000} {
					if _, err := d.GetMeta(x); err != m.ErrUnknownMessage {
						chk.Failf("%s: id %d is not defined but has meta data (%v)", dn, x, err)
					}
				}
			}
		})
	}
	// fields
	for _, e := range loaded(c) {
		e := e
		pats := patterns(e.Max)
		bgs := [][]byte{pats[1], pats[2], pats[0]}
		if c.Thorough {
			bgs = append(bgs, pats[5], pats[4])
		}
		for i := 0; i < e.Max; i++ {
			i := i
			var cur []byte
			c.Case(func() string { return fmt.Sprintf("%s byte %d of % x", e, i, cur) }, func() {
				for bi, bg := range bgs {
					p := append([]byte(nil), bg...)
					cur = p
					for x := 0; x < 256; x++ {
						p[i] = byte(x)
						for _, ver := range e.versions() {
							if bi > 0 && ver == 1 && i >= e.Base() {
								continue
							}
							e.bothWays(p, ver, x == 0)
							c.Trans(2)
						}
					}
				}
				c.State(chk.Hash(uint64(e.ID)<<9+uint64(i), []byte(e.Dialect)))
				c.Trace()
			})
		}
	}
	// values of whole fields, and of pairs of fields
	for _, e := range loaded(c) {
		e := e
		var cur []byte
		c.Case(func() string { return fmt.Sprintf("%s: values of fields, % x", e, cur) }, func() {
			n := 0
			try := func(p []byte) {
				cur = p
				for _, ver := range e.versions() {
					e.bothWays(p, ver, false)
				}
				n += 2 * len(e.versions())
			}
			type slot struct {
				off, unit int
				kind      string
			}
			var slots []slot
			for i := range e.Fields {
				f := &e.Fields[i]
				if f.Kind == "char" {
					continue
				}
				slots = append(slots, slot{f.Off, f.Unit, f.Kind})
				if k := f.N(); k > 1 {
					slots = append(slots, slot{f.Off + (k-1)*f.Unit, f.Unit, f.Kind})
				}
			}
			pats := patterns(e.Max)
			bgs := [][]byte{pats[1], pats[0]}
			for _, bg := range bgs {
				for _, sl := range slots {
					for _, x := range fieldValues(sl.kind, sl.unit) {
						p := append([]byte(nil), bg...)
						putLE(p[sl.off:sl.off+sl.unit], x)
						try(p)
					}
				}
			}
			few := func(sl slot) []uint64 {
				bits := uint(8 * sl.unit)
				v := []uint64{0, 1, 1<<bits - 1, 1 << (bits - 1), 1<<(bits-1) - 1}
				if sl.kind == "float32" {
					v = append(v, 0x7fc00000, 0x3f800000)
				}
				return v
			}
			if !c.Thorough {
				bgs = bgs[:1]
			}
			for _, bg := range bgs {
				for i, a := range slots {
					for _, b := range slots[:i] {
						for _, x := range few(a) {
							for _, y := range few(b) {
								p := append([]byte(nil), bg...)
								putLE(p[a.off:a.off+a.unit], x)
								putLE(p[b.off:b.off+b.unit], y)
								try(p)
							}
						}
					}
				}
			}
			c.Trans(n)
			c.State(chk.Hash(uint64(e.ID)<<1+uint64(n), []byte(e.Dialect)))
			c.Trace()
		})
	}
	if !c.Thorough {
		return
	}
	// every value of every two adjacent bytes
	for _, e := range loaded(c) {
		e := e
		for i := 0; i+1 < e.Max; i++ {
			i := i
			c.Case(func() string { return fmt.Sprintf("%s: bytes %d and %d", e, i, i+1) }, func() {
				p := append([]byte(nil), patterns(e.Max)[0]...)
				ver := e.versions()[len(e.versions())-1]
				for x := 0; x < 65536; x++ {
					p[i], p[i+1] = byte(x), byte(x>>8)
					e.bothWays(p, ver, false)
				}
				c.Trans(2 * 65536)
				c.State(chk.Hash(uint64(e.ID)<<10+uint64(i), []byte(e.Dialect)))
			})
		}
	}
}

// bothWays decodes and encodes a payload.
func (e *entry) bothWays(p []byte, ver int, untruncated bool) {
	h := ref.Header{Version: ver, ID: e.ID, Seq: 1, Sys: 2, Comp: 3}
	w := e.wire(p, ver)
	if ver == 2 && untruncated {
		w = p // an untruncated payload is fine too
	}
	exp := p
	if ver == 1 {
		w = p[:e.Base()]
		exp = e.zeroExt(p)
	}
	msg, err := e.d.GetMessage(frameOf(ref.Frame(h, w, e.CRC)))
	if err != nil {
		chk.Failf("version %d: %v", ver, err)
	}
	e.checkFields(msg, exp, fmt.Sprintf("decoding version %d", ver))
	msg, err = e.d.GetMessage(recycled(ref.Frame(h, w, e.CRC)))
	if err != nil {
		chk.Failf("version %d: %v", ver, err)
	}
	e.checkFields(msg, exp, fmt.Sprintf("decoding version %d from memory used before", ver))
	mk, _ := e.make(p, ver == 2)
	for i := 0; i < 2; i++ {
		out, err := mk.Write(ver)
		if err != nil {
			chk.Failf("version %d: Write: %v", ver, err)
		}
		if want := e.wire(p, ver); !bytes.Equal(out, want) {
			chk.Failf("version %d: encoded as % x, want % x", ver, out, want)
		}
		mk = e.again(mk)
	}
}

func putLE(b []byte, x uint64) {
	for i := range b {
		b[i] = byte(x >> (8 * uint(i)))
	}
}

// fieldValues are values at which code might treat a field specially.
func fieldValues(kind string, unit int) (out []uint64) {
	bits := uint(8 * unit)
	mask := ^uint64(0) >> (64 - bits)
	seen := map[uint64]bool{}
	add := func(x uint64) {
		if x &= mask; !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	switch kind {
	case "float32":
		for _, f := range []float64{0, 1, -1, 0.5, 90, -90, 180, -180, 360, 400, 1000, 65535, 1e6, 1e10, 3.4e38, 1e-20, 1e-45, math.Pi, -math.Pi, 2 * math.Pi, math.Inf(1), math.Inf(-1)} {
			add(uint64(math.Float32bits(float32(f))))
		}
		for _, x := range []uint64{0x80000000, 0x7fc00000, 0xffc00000, 0x7fc00001, 0x7fffffff, 0x00800000, 0x007fffff, 0x7f7fffff, 0xff7fffff} {
			add(x)
		}
	case "float64":
		for _, f := range []float64{0, 1, -1, 0.5, 90, -90, 180, -180, 360, 400, 1000, 65535, 1e6, 1e10, 3.4e38, 1e-20, 1e-45, 1e300, 5e-324, math.Pi, math.Inf(1), math.Inf(-1), math.Copysign(0, -1), math.NaN()} {
			add(math.Float64bits(f))
		}
	default:
		for k := uint(0); k < bits; k++ {
			for d := uint64(0); d < 3; d++ {
				add(1<<k + d - 1)
				add(-(1<<k + d - 1))
			}
		}
		for x, k := uint64(1), 0; k < 20; x, k = x*10, k+1 {
			for _, f := range []uint64{1, 2, 3, 5, 9, 18, 36} {
				for d := uint64(0); d < 3; d++ {
					add(f*x + d - 1)
					add(-(f*x + d - 1))
				}
			}
		}
	}
	return out
}
