package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

type textField struct {
	e *entry
	f *ref.Field
}

func (t textField) String() string { return fmt.Sprintf("%s.%s", t.e, t.f.Name) }

// set calls the setter.
func (t textField) set(msg m.Message, s string) error {
	out := reflect.ValueOf(msg).MethodByName("Set" + t.f.Name).Call([]reflect.Value{reflect.ValueOf(s)})
	err, _ := out[0].Interface().(error)
	return err
}

func (t textField) get(msg m.Message) string {
	return reflect.ValueOf(msg).MethodByName("Get" + t.f.Name).Call(nil)[0].String()
}

func (t textField) check() {
	p := reflect.PtrTo(t.e.typ)
	s, ok := p.MethodByName("Set" + t.f.Name)
	if !ok || s.Type.NumIn() != 2 || s.Type.In(1).Kind() != reflect.String || s.Type.NumOut() != 1 {
		chk.Failf("%s: no setter", t)
	}
	g, ok := p.MethodByName("Get" + t.f.Name)
	if !ok || g.Type.NumIn() != 1 || g.Type.NumOut() != 1 || g.Type.Out(0).Kind() != reflect.String {
		chk.Failf("%s: no getter", t)
	}
}

// model: what the field holds and what the getter returns.
func store(s string, n int) []byte {
	b := make([]byte, n)
	copy(b, s)
	return b
}

func cstr(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

func textOf(n int) []string {
	long := func(k int, c byte) string {
		b := make([]byte, k)
		for i := range b {
			b[i] = c + byte(i%23)
		}
		return string(b)
	}
	out := []string{"", "a", long(n, 'A'), long(n-1, 'B'), long(n+1, 'C'), long(2*n+3, 'D'), "\x00", "ab\x00cd", strings.Repeat("é", n), "x" + strings.Repeat("é", n/2+1), "\xff\x80 \n"[:min(4, n)], "xyz"[:min(3, n)] + "\x00", long(n/2, '0'), long(n, 'a')[:n-1] + "\x00"}
	return out
}

func c21(c *chk.C) {
	var ts []textField
	es := loaded(c)
	for _, e := range es {
		for i := range e.Fields {
			if e.Fields[i].Kind == "char" {
				ts = append(ts, textField{e, &e.Fields[i]})
			}
		}
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	for _, t := range ts {
		t := t
		n := t.f.Len
		if n == 0 {
			continue
		}
		vals := textOf(n)
		tot := 1
		for i := 0; i < depth; i++ {
			tot *= len(vals)
		}
		block := len(vals) * len(vals)
		for s := 0; s < tot; s += block {
			s := s
			var cur []string
			c.Case(func() string { return fmt.Sprintf("%s set to %q in turn", t, cur) }, func() {
				t.check()
				for k := s; k < s+block && k < tot; k++ {
					for dirty := 0; dirty < 2; dirty++ {
						p := t.e.Canon(patterns(t.e.Max)[dirty*4])
						msg, v := t.e.make(p, dirty == 1)
						cur = nil
						for i, x := 0, k; i < depth; i++ {
							val := vals[x%len(vals)]
							x /= len(vals)
							cur = append(cur, val)
							t.step(c, msg, v, p, val)
							if ext(msg) != (dirty == 1) {
								chk.Failf("%s: setting it changed the extension flag", t)
							}
							if k%7 == 0 || i == depth-1 {
								t.roundTrip(c, msg, p)
							}
						}
						c.State(chk.Hash(uint64(t.e.ID), []byte(t.String()), p[t.f.Off:t.f.Off+t.f.Size]))
						c.Trace()
					}
				}
			})
		}
		// the field was decoded or filled directly, and shows the same text, or one like it, already
		c.Case(func() string { return fmt.Sprintf("%s: text over the same text with bytes behind its end", t) }, func() {
			for k := 0; k <= n; k++ {
				for l := max(0, k-1); l <= k+1; l++ {
					for form := 0; form < 4; form++ {
						p := t.e.Canon(patterns(t.e.Max)[4])
						f := p[t.f.Off : t.f.Off+n]
						for i := range f {
							switch {
							case i < k || form == 3 && i == n-1:
								f[i] = 'q'
							case i == k || form == 1 || form == 3:
								f[i] = 0
							case form == 0:
								f[i] = byte('A' + i%20)
							default:
								f[i] = 'q'
							}
						}
						msg, v := t.e.make(p, false)
						t.step(c, msg, v, p, strings.Repeat("q", l))
						c.State(chk.HashS(uint64(t.e.ID), fmt.Sprint(t, k, l, form)))
					}
				}
			}
			c.Trace()
		})
		// every length
		c.Case(func() string { return fmt.Sprintf("%s: every string length, every text over two bytes", t) }, func() {
			for l := 0; l <= n+40; l++ {
				for z := -1; z < l; z++ {
					p := t.e.Canon(patterns(t.e.Max)[4])
					msg, v := t.e.make(p, false)
					b := bytes.Repeat([]byte{'q'}, l)
					if z >= 0 {
						b[z] = 0
					}
					t.step(c, msg, v, p, string(b))
				}
			}
			c.Trace()
		})
	}
	// text fields of one message, interleaved
	for i, a := range ts {
		for j, b := range ts {
			if i == j || a.e != b.e || a.f.Len == 0 || b.f.Len == 0 {
				continue
			}
			a, b := a, b
			c.Case(func() string { return fmt.Sprintf("%s and %s interleaved", a, b) }, func() {
				for _, x := range textOf(a.f.Len) {
					for _, y := range textOf(b.f.Len) {
						p := a.e.Canon(patterns(a.e.Max)[0])
						msg, v := a.e.make(p, true)
						a.step(c, msg, v, p, x)
						b.step(c, msg, v, p, y)
						a.step(c, msg, v, p, "z")
						a.roundTrip(c, msg, p)
						b.roundTrip(c, msg, p)
						c.Trace()
					}
				}
			})
		}
	}
	// two messages of the same type do not share text
	c.Case(func() string { return "two messages of one type" }, func() {
		for _, t := range ts {
			if t.f.Len == 0 {
				continue
			}
			p, q := t.e.Canon(patterns(t.e.Max)[0]), t.e.Canon(patterns(t.e.Max)[4])
			a, av := t.e.make(p, false)
			b, bv := t.e.make(q, false)
			t.step(c, a, av, p, "first")
			t.step(c, b, bv, q, "2")
			if !bytes.Equal(t.e.Payload(av), p) {
				chk.Failf("%s: setting it in one message changed another", t)
			}
		}
		c.Trace()
	})
}

// step sets the field in the implementation and in the model payload p and compares.
func (t textField) step(c *chk.C, msg m.Message, v reflect.Value, p []byte, val string) {
	n := t.f.Len
	err := t.set(msg, val)
	copy(p[t.f.Off:], store(val, n))
	var want error
	if len(val) > n {
		want = m.ErrValueTooLong
	}
	if err != want {
		chk.Failf("%s: setting %q (%d bytes, field of %d) returns %v, want %v", t, val, len(val), n, err, want)
	}
	if got := t.e.Payload(v); !bytes.Equal(got, p) {
		i := 0
		for got[i] == p[i] {
			i++
		}
		chk.Failf("%s: after setting %q payload byte %d is %02x, want %02x (field at %d..%d)", t, val, i, got[i], p[i], t.f.Off, t.f.Off+t.f.Size-1)
	}
	if got, want := t.get(msg), cstr(p[t.f.Off:t.f.Off+n]); got != want {
		chk.Failf("%s: set to %q, the getter returns %q, want %q", t, val, got, want)
	}
	c.Trans(2)
}

func (t textField) roundTrip(c *chk.C, msg m.Message, p []byte) {
	for _, ver := range t.e.versions() {
		if ver == 1 && t.f.Ext {
			continue
		}
		out, err := msg.Write(ver)
		if err != nil {
			chk.Failf("%s: Write(%d): %v", t, ver, err)
		}
		back, err := t.e.d.GetMessage(frameOf(ref.Frame(ref.Header{Version: ver, ID: t.e.ID}, out, t.e.CRC)))
		if err != nil {
			chk.Failf("%s: decode: %v", t, err)
		}
		if reflect.TypeOf(back) != reflect.TypeOf(msg) {
			chk.Failf("%s: decodes to %T", t, back)
		}
		if got, want := t.get(back), cstr(p[t.f.Off:t.f.Off+t.f.Len]); got != want {
			chk.Failf("%s: after a version %d round trip the getter returns %q, want %q", t, ver, got, want)
		}
		c.Trans(1)
	}
}
