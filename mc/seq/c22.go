package main

import (
	"bytes"
	"fmt"
	"reflect"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

// buffer is a frame inside a larger buffer whose every byte is watched.
type buffer struct {
	all, keep []byte
	fr        m.Frame
}

func newBuffer(b []byte) *buffer {
	all := append([]byte{0xd1, 0xd2, 0xd3}, b...)
	all = append(all, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8)
	return &buffer{all: all, keep: append([]byte(nil), all...), fr: frameOf(all[3 : 3+len(b)])}
}

// result of an operation: its current bytes and what they must stay.
type outcome struct {
	what string
	now  func() []byte
	want []byte
	flip func()
}

type world struct {
	c      *chk.C
	e, x   *entry
	ds     m.Dialects
	msgs   []m.Message // A, B (same type), X (other type)
	ents   []*entry
	pay    [][]byte // their payloads
	bufs   []*buffer
	bufPay [][]byte
	bufVer []int
	texts  []string
	res    []outcome
}

const nOps22 = 15

var opNames22 = []string{"pack A v2", "pack A lowest version", "pack B", "encode A", "encode B lowest version", "decode A", "decode B", "decode X", "decode A into a used message", "validate A", "render A", "render frame A", "pack X", "validate damaged B", "decode an unknown id"}

func newWorld(c *chk.C, e, x *entry) *world {
	w := &world{c: c, e: e, x: x, ds: m.Dialects{e.d, x.d}}
	pa, pb := patterns(e.Max)[0], patterns(e.Max)[5]
	px := patterns(x.Max)[4]
	w.pay = [][]byte{e.Canon(pa), e.Canon(pb), x.Canon(px)}
	w.ents = []*entry{e, e, x}
	for i := range w.pay {
		msg, _ := w.ents[i].make(w.pay[i], false)
		w.msgs = append(w.msgs, msg)
	}
	low := e.versions()[0]
	add := func(en *entry, p []byte, ver int, crc byte, flags byte) {
		h := ref.Header{Version: ver, ID: en.ID, Sys: 1, Comp: 2, Seq: 3, Incompat: flags}
		w.bufs = append(w.bufs, newBuffer(ref.Frame(h, en.wire(p, ver), crc)))
		if ver == 1 {
			p = en.zeroExt(p)
		}
		w.bufPay = append(w.bufPay, p)
		w.bufVer = append(w.bufVer, ver)
	}
	add(e, w.pay[0], 2, e.CRC, 1)
	add(e, w.pay[1], low, e.CRC, 0)
	add(x, w.pay[2], 2, x.CRC, 0)
	add(e, w.pay[1], low, e.CRC^0x55, 0)
	u := ref.Header{Version: 2, ID: 0xfffffe}
	w.bufs = append(w.bufs, newBuffer(ref.Frame(u, []byte{1, 2, 3, 0, 5}, 0)))
	return w
}

func (w *world) frameRes(what string, fr m.Frame, want []byte) {
	b := fr.Bytes()
	w.res = append(w.res, outcome{what, func() []byte { return fr.Bytes() }, want, func() {
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0xff
		}
	}})
}

func (w *world) msgRes(what string, en *entry, msg m.Message, want []byte) {
	v := reflect.ValueOf(msg)
	if v.Kind() != reflect.Ptr || v.Elem().Type() != en.typ {
		chk.Failf("%s gives a %T", what, msg)
	}
	w.res = append(w.res, outcome{what, func() []byte { return en.Canon(en.Payload(v.Elem())) }, want, func() {
		p := en.Payload(v.Elem())
		for i := range p {
			p[i] ^= 0xff
		}
		en.Fill(v.Elem(), p)
	}})
}

func (w *world) do(o int) {
	what := opNames22[o]
	low := w.e.versions()[0]
	pack := func(i, ver int) {
		en := w.ents[i]
		fr, err := w.ds.GetFrame(ver, 11, 12, 13, w.msgs[i])
		if err != nil || fr == nil {
			chk.Failf("%s: %v", what, err)
		}
		crc := en.CRC
		if mt, ok := ref.LookupOf(w.e.Dialect, w.x.Dialect)(en.ID); ok {
			crc = mt.CRC
		}
		w.frameRes(what, fr, ref.Frame(ref.Header{Version: ver, ID: en.ID, Sys: 11, Comp: 12, Seq: 13}, en.wire(w.pay[i], ver), crc))
	}
	encode := func(i, ver int) {
		out, err := w.msgs[i].Write(ver)
		if err != nil {
			chk.Failf("%s: %v", what, err)
		}
		w.res = append(w.res, outcome{what, func() []byte { return out }, w.ents[i].wire(w.pay[i], ver), func() {
			o := out[:cap(out)]
			for i := range o {
				o[i] ^= 0xff
			}
		}})
	}
	decode := func(i int) {
		msg, err := w.ds.GetMessage(w.bufs[i].fr)
		if err != nil {
			chk.Failf("%s: %v", what, err)
		}
		w.msgRes(what, w.ents[i], msg, w.bufPay[i])
		w.ents[i].checkExt(msg, w.bufVer[i], what)
	}
	switch o {
	case 0:
		pack(0, 2)
	case 1:
		pack(0, low)
	case 2:
		pack(1, 2)
	case 3:
		encode(0, 2)
	case 4:
		encode(1, low)
	case 5:
		decode(0)
	case 6:
		decode(1)
	case 7:
		decode(2)
	case 8:
		msg, _ := w.e.make(patterns(w.e.Max)[2], true)
		if err := msg.Read(w.bufs[0].fr); err != nil {
			chk.Failf("%s: %v", what, err)
		}
		w.msgRes(what, w.e, msg, w.bufPay[0])
		w.e.checkExt(msg, 2, what)
		// and once more from the other frame and back
		if err := msg.Read(w.bufs[1].fr); err != nil {
			chk.Failf("%s: %v", what, err)
		}
		w.e.checkFields(msg, w.bufPay[1], what)
		w.e.checkExt(msg, w.bufVer[1], what)
		if err := msg.Read(w.bufs[0].fr); err != nil {
			chk.Failf("%s: %v", what, err)
		}
	case 9, 13:
		i, want := 0, error(nil)
		if o == 13 {
			i, want = 3, m.ErrInvalidChecksum
		}
		for k := 0; k < 2; k++ {
			if err := w.ds.Validate(w.bufs[i].fr); err != want {
				chk.Failf("%s (time %d): %v, want %v", what, k+1, err, want)
			}
		}
	case 10, 11:
		var s string
		if o == 10 {
			s = fmt.Sprint(w.msgs[0])
		} else {
			s = fmt.Sprint(w.bufs[0].fr)
		}
		if w.texts == nil {
			w.texts = make([]string, nOps22)
		}
		if w.texts[o] == "" {
			w.texts[o] = s
		}
		if s != w.texts[o] {
			chk.Failf("%s differs from the time before: %q, %q", what, s, w.texts[o])
		}
	case 12:
		pack(2, 2)
	case 14:
		msg, err := w.ds.GetMessage(w.bufs[4].fr)
		u, ok := msg.(*m.UnknownMessage)
		if err != m.ErrUnknownMessage || !ok {
			chk.Failf("%s: %T, %v", what, msg, err)
		}
		w.res = append(w.res, outcome{what, func() []byte { return u.Raw }, []byte{1, 2, 3, 0, 5}, func() {
			for i := range u.Raw {
				u.Raw[i] ^= 0xff
			}
		}})
	}
	w.c.Trans(1)
	w.verify("after " + what)
}

func (w *world) verify(when string) {
	for i, b := range w.bufs {
		if !bytes.Equal(b.all, b.keep) {
			chk.Failf("%s: the buffer of frame %d was changed", when, i)
		}
	}
	for i := range w.msgs {
		if !bytes.Equal(w.ents[i].Payload(reflect.ValueOf(w.msgs[i]).Elem()), w.pay[i]) || ext(w.msgs[i]) {
			chk.Failf("%s: message %d was changed", when, i)
		}
	}
	for _, r := range w.res {
		if got := r.now(); !bytes.Equal(got, r.want) {
			chk.Failf("%s: the result of %q is % x, want % x", when, r.what, got, r.want)
		}
	}
}

// finish scribbles over each result in turn; nothing else may change.
func (w *world) finish() {
	rs := w.res
	for i := len(rs) - 1; i >= 0; i-- {
		rs[i].flip()
		w.res = rs[:i]
		w.verify(fmt.Sprintf("after overwriting the result of %q", rs[i].what))
	}
	for _, b := range w.bufs {
		for i := range b.all {
			b.all[i] ^= 0xff
		}
	}
	w.res = nil
}

// results must not change with the frames they came from, either
func (w *world) scribbleInputs() {
	for _, b := range w.bufs {
		for i := range b.all {
			b.all[i] ^= 0xff
			b.keep[i] ^= 0xff
		}
	}
	w.verify("after overwriting the frames")
	for _, b := range w.bufs {
		for i := range b.all {
			b.all[i] ^= 0xff
			b.keep[i] ^= 0xff
		}
	}
}

func c22(c *chk.C) {
	es := loaded(c)
	find := func(d, n string) *entry {
		for _, e := range es {
			if e.Dialect == d && e.Name == n {
				return e
			}
		}
		return es[0]
	}
	big, small := find("common", "LoggingData"), find("common", "Heartbeat")
	for _, e := range es {
		e := e
		var cur string
		c.Case(func() string { return fmt.Sprintf("%s into a used message: %s", e, cur) }, func() {
			reuse(c, e, &cur)
		})
		c.Case(func() string { return fmt.Sprintf("%s in memory used before: %s", e, cur) }, func() {
			sameMemory(c, e, &cur)
		})
	}
	for _, e := range es {
		n := 600
		switch {
		case e == small, e == find("common", "Statustext"):
			n = 66136
		case e == big, e == find("common", "V2Extension"):
			if n = 6000; c.Thorough {
				n = 66136
			}
		case c.Thorough:
			n = 5000
		}
		c.Case(func() string { return fmt.Sprintf("%s coded %d times, all results kept", e, n) }, func() {
			longCoding(c, e, n)
		})
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	tot := 1
	for i := 0; i < depth; i++ {
		tot *= nOps22
	}
	for ei, e := range es {
		e, x := e, big
		if ei%2 == 0 {
			x = small
		}
		if e == x {
			x = find("common", "Attitude")
		}
		// both messages through one list: the other must not be shadowed
		if o := ref.ByDialect[e.Dialect][x.ID]; o != nil && o != x.Msg {
			x = find("common", "SystemTime")
		}
		block := tot / nOps22
		for s := 0; s < tot; s += block {
			s := s
			var cur []string
			c.Case(func() string { return fmt.Sprintf("A, B: %s, X: %s: %q", e, x, cur) }, func() {
				for k := s; k < s+block && k < tot; k++ {
					w := newWorld(c, e, x)
					cur = cur[:0]
					for i, y := 0, k; i < depth; i++ {
						o := y % nOps22
						y /= nOps22
						cur = append(cur, opNames22[o])
						w.do(o)
					}
					w.scribbleInputs()
					w.finish()
					c.Trace()
				}
				c.State(chk.Hash(uint64(e.ID)<<8+uint64(s/block), []byte(e.Dialect)))
			})
		}
	}
}

// longCoding packs, validates, decodes and encodes many messages and keeps all results: none may change
// when later ones are made, or when others are written over.
func longCoding(c *chk.C, e *entry, n int) {
	ds := m.Dialects{e.d}
	vers := e.versions()
	pay := func(i int) []byte {
		p := append([]byte(nil), patterns(e.Max)[i%5]...)
		for k := 0; k < 3 && k < len(p); k++ {
			p[len(p)-1-k] = byte(i >> uint(8*k))
			p[k] ^= byte(i >> uint(8*k))
		}
		return e.Canon(p)
	}
	frames := make([]m.Frame, n)
	msgs := make([]m.Message, n)
	outs := make([][]byte, n)
	hdr := func(i int) ref.Header {
		return ref.Header{Version: vers[i%len(vers)], ID: e.ID, Sys: byte(i >> 8), Comp: byte(i >> 16), Seq: byte(i)}
	}
	check := func(when string, odd bool) {
		for i := range frames {
			if odd && i&1 == 0 {
				continue
			}
			p, h := pay(i), hdr(i)
			wire := e.wire(p, h.Version)
			if want := ref.Frame(h, wire, e.CRC); !bytes.Equal(frames[i].Bytes(), want) {
				chk.Failf("%s: frame %d of %d is % x, want % x", when, i, n, frames[i].Bytes(), want)
			}
			if !bytes.Equal(outs[i], wire) {
				chk.Failf("%s: encoding %d of %d is % x, want % x", when, i, n, outs[i], wire)
			}
			if h.Version == 1 {
				p = e.zeroExt(p)
			}
			if got := e.Canon(e.Payload(reflect.ValueOf(msgs[i]).Elem())); !bytes.Equal(got, p) {
				chk.Failf("%s: message %d of %d decoded holds % x, want % x", when, i, n, got, p)
			}
			c.Trans(3)
		}
	}
	for i := range frames {
		h := hdr(i)
		msg, _ := e.make(pay(i), false)
		fr, err := ds.GetFrame(h.Version, h.Sys, h.Comp, h.Seq, msg)
		if err != nil {
			chk.Failf("packing message %d of %d: %v", i, n, err)
		}
		frames[i] = fr
		if err := ds.Validate(fr); err != nil {
			chk.Failf("validating frame %d of %d: %v", i, n, err)
		}
		if msgs[i], err = ds.GetMessage(fr); err != nil {
			chk.Failf("decoding frame %d of %d: %v", i, n, err)
		}
		if outs[i], err = msgs[i].Write(h.Version); err != nil {
			chk.Failf("encoding message %d of %d: %v", i, n, err)
		}
		if reflect.ValueOf(msgs[i]).Elem().Type() != e.typ {
			chk.Failf("frame %d of %d decodes to a %T", i, n, msgs[i])
		}
	}
	check("at the end", false)
	for i := 0; i < n; i += 2 {
		for _, b := range [][]byte{frames[i].Bytes(), outs[i]} {
			b = b[:cap(b)]
			for k := range b {
				b[k] ^= 0xff
			}
		}
		v := reflect.ValueOf(msgs[i]).Elem()
		p := e.Payload(v)
		for k := range p {
			p[k] ^= 0xff
		}
		e.Fill(v, p)
	}
	check("after writing over every other result", true)
	c.Trace()
}

// collide changes the payload without changing its checksum, at bit i.
func collide(p []byte, i int) []byte {
	q := append([]byte(nil), p...)
	for _, k := range []int{0, 4, 11, 16} {
		q[(i+k)/8] ^= 1 << uint((i+k)%8)
	}
	if ref.FastCRC(0xffff, p) != ref.FastCRC(0xffff, q) {
		panic("the checksums differ")
	}
	return q
}

// sameMemory validates, decodes, encodes and renders different content in the same memory.
func sameMemory(c *chk.C, e *entry, cur *string) {
	var pays [][]byte
	for _, p := range patterns(e.Max) {
		pays = append(pays, e.Canon(p))
	}
	for i := 0; i+17 <= e.Base()*8; i += 13 {
		pays = append(pays, e.Canon(collide(pays[0], i)))
	}
	ds := m.Dialects{e.d}
	mem := make([]byte, 300)
	obj, ov := e.fresh()
	texts := map[string]string{}
	visit := func(i, ver int, bad byte) {
		b := ref.Frame(ref.Header{Version: ver, ID: e.ID, Sys: 1, Comp: 1, Seq: 1}, e.wire(pays[i], ver), e.CRC)
		b[len(b)-1] ^= bad
		fr := frameOf(mem[:copy(mem, b)])
		var want error
		if bad != 0 {
			want = m.ErrInvalidChecksum
		}
		if err := ds.Validate(fr); err != want {
			chk.Failf("Validate: %v, want %v", err, want)
		}
		msg, err := ds.GetMessage(fr)
		if err != nil {
			chk.Failf("decoding: %v", err)
		}
		p := pays[i]
		if ver == 1 {
			p = e.zeroExt(p)
		}
		e.checkFields(msg, p, "decoding")
		e.checkExt(msg, ver, "decoding")
		key := fmt.Sprint(i, ver)
		txt := fmt.Sprint(msg) + fmt.Sprint(fr)
		if bad == 0 {
			if t, ok := texts[key]; ok && t != txt {
				chk.Failf("rendered as %q, before as %q", txt, t)
			}
			texts[key] = txt
		}
		e.Fill(ov, pays[i])
		if e.Variable {
			ov.FieldByName("PayloadLength").SetUint(uint64(e.Max - 5))
		}
		fr2, err := ds.GetFrame(ver, 1, 1, 1, obj)
		if err != nil {
			chk.Failf("packing: %v", err)
		}
		b[len(b)-1] ^= bad
		if !bytes.Equal(fr2.Bytes(), b) {
			chk.Failf("packed as % x, want % x", fr2.Bytes(), b)
		}
		c.Trans(4)
	}
	for i := range pays {
		for j := range pays {
			for k, vs := range [][2]int{{2, 2}, {1, 1}, {1, 2}, {2, 1}} {
				if e.ID > 255 && k > 0 || (i > 0 && j > 0 && i != j+1) {
					continue
				}
				*cur = fmt.Sprintf("payload % x version %d, then % x version %d", pays[i], vs[0], pays[j], vs[1])
				visit(i, vs[0], 0)
				visit(j, vs[1], 0)
				visit(j, vs[1], 1)
				visit(i, vs[0], 0)
			}
		}
	}
	c.Trace()
	c.State(chk.Hash(uint64(e.ID)+1<<41, []byte(e.Dialect)))
}

// reuse decodes payloads of every length and version into messages that hold anything already.
func reuse(c *chk.C, e *entry, cur *string) {
	var olds [][]byte
	for _, p := range patterns(e.Max) {
		olds = append(olds, e.Canon(p))
	}
	for i := 0; i < e.Max; i += 5 { // only one field set
		p := make([]byte, e.Max)
		p[i] = 0x41
		olds = append(olds, e.Canon(p))
	}
	news := patterns(e.Max)[:1]
	if c.Thorough {
		news = patterns(e.Max)
	}
	for _, ver := range e.versions() {
		for _, p := range news {
			lo, hi := 0, e.Max
			if ver == 1 {
				lo, hi = e.Min, e.Base()
			}
			for n := lo; n <= hi; n++ {
				fr := frameOf(ref.Frame(ref.Header{Version: ver, ID: e.ID}, p[:n], e.CRC))
				fresh, fv := e.fresh()
				if err := fresh.Read(fr); err != nil {
					chk.Failf("decoding: %v", err)
				}
				want := e.Payload(fv)
				for oi, old := range olds {
					if n != lo && n != hi && n%8 != oi%8 {
						continue
					}
					*cur = fmt.Sprintf("% x into % x, version %d", p[:n], old, ver)
					msg, v := e.make(old, oi%2 == 1)
					if err := msg.Read(fr); err != nil {
						chk.Failf("decoding: %v", err)
					}
					if got := e.Payload(v); !bytes.Equal(got, want) || ext(msg) != ext(fresh) {
						chk.Failf("a used message decodes to % x (extended %v), a new one to % x (extended %v)", got, ext(msg), want, ext(fresh))
					}
					if !reflect.DeepEqual(msg, fresh) && !hasNaN(want) {
						chk.Failf("a used message decodes to %+v, a new one to %+v", msg, fresh)
					}
					c.Trans(1)
				}
			}
		}
	}
	c.State(chk.Hash(uint64(e.ID)+1<<40, []byte(e.Dialect)))
}
