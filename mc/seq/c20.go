package main

import (
	"bytes"
	"fmt"
	"strings"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

func unknown(c *chk.C, ds m.Dialects, ver int, id uint32, p []byte, deep bool) {
	b := ref.Frame(ref.Header{Version: ver, ID: id, Sys: 9, Comp: 8, Seq: 7}, p, byte(id))
	keep := append([]byte(nil), b...)
	fr := frameOf(b)
	msg, err := ds.GetMessage(fr)
	c.Trans(1)
	u, ok := msg.(*m.UnknownMessage)
	if err != m.ErrUnknownMessage || !ok {
		chk.Failf("id %d version %d: decodes to %T, %v; want a placeholder and the unknown-message error", id, ver, msg, err)
	}
	if u.ID != id || u.GetID() != id || u.Version != ver || u.GetVersion() != ver || !bytes.Equal(u.Raw, p) {
		chk.Failf("id %d version %d payload % x: placeholder is %+v", id, ver, p, u)
	}
	if !deep {
		return
	}
	for _, w := range []int{1, 2, ver} {
		out, err := u.Write(w)
		if err != nil || !bytes.Equal(out, p) {
			chk.Failf("id %d: placeholder writes % x, %v; want % x", id, out, err, p)
		}
	}
	s := fmt.Sprint(u)
	if s == "" || strings.Contains(s, "%!") || s != u.String() {
		chk.Failf("id %d: placeholder renders as %q", id, s)
	}
	for _, l := range []string{fmt.Sprintf("%d", id), fmt.Sprintf("%d", ver), fmt.Sprintf("%x", p)} {
		if !strings.Contains(s, l) {
			chk.Failf("id %d: the text of the placeholder lacks %q: %q", id, l, s)
		}
	}
	if u.GetDialect() == "" || u.GetMessageName() == "" {
		chk.Failf("placeholder without a name")
	}
	// independence, both ways
	for i := range b {
		b[i] ^= 0xff
	}
	if !bytes.Equal(u.Raw, p) {
		chk.Failf("id %d: the placeholder changes with the frame", id)
	}
	copy(b, keep)
	// others of the same id, longer, shorter and empty, in both versions
	for i, q := range [][]byte{nil, []byte{1, 2, 3}, bytes.Repeat([]byte{0xee}, 255), p} {
		v := 1 + (i+ver)%2
		if id > 255 {
			v = 2
		}
		msg, err := ds.GetMessage(frameOf(ref.Frame(ref.Header{Version: v, ID: id}, q, 0)))
		o, ok := msg.(*m.UnknownMessage)
		if err != m.ErrUnknownMessage || !ok || o.ID != id || o.Version != v || !bytes.Equal(o.Raw, q) {
			chk.Failf("id %d again, version %d, payload % x: decodes to %+v, %v", id, v, q, msg, err)
		}
		if u.ID != id || u.Version != ver || !bytes.Equal(u.Raw, p) {
			chk.Failf("id %d: the placeholder of % x changes to %+v when another frame is decoded", id, p, u)
		}
		for k := range o.Raw {
			o.Raw[k] ^= 0x5a
		}
		if out, err := u.Write(ver); err != nil || !bytes.Equal(out, p) {
			chk.Failf("id %d: the placeholder writes % x, %v after another frame was decoded; want % x", id, out, err, p)
		}
	}
	raw := u.Raw[:cap(u.Raw)]
	for i := range raw {
		raw[i] ^= 0xff
	}
	if !bytes.Equal(b, keep) {
		chk.Failf("id %d: the frame changes with the placeholder", id)
	}
	// a used placeholder
	if err := u.Read(frameOf(b)); err != nil || u.ID != id || u.Version != ver || !bytes.Equal(u.Raw, p) {
		chk.Failf("id %d: reading into a used placeholder gives %+v, %v", id, u, err)
	}
	c.Trans(5)
}

func c20(c *chk.C) {
	lists := [][]string{dialectNames, {}}
	for _, n := range dialectNames {
		lists = append(lists, []string{n})
	}
	for li, list := range lists {
		var ds m.Dialects
		for _, n := range list {
			ds = append(ds, dialects[n])
		}
		look := ref.LookupOf(list...)
		step := uint32(1 << 17)
		for from := uint32(0); from < 1<<24; from += step {
			if li > 0 && !c.Thorough && from > 0 && from&(from-1) != 0 {
				continue
			}
			from := from
			c.Case(func() string { return fmt.Sprintf("dialects %v, ids %d to %d", list, from, from+step-1) }, func() {
				stop := from + step
				if li > 0 && !c.Thorough {
					stop = from + 4096
				}
				for id := from; id < stop; id++ {
					if _, ok := look(id); ok {
						continue
					}
					unknown(c, ds, 2, id, []byte{byte(id), 0, 5, byte(id >> 8), 0}, id%1024 < 2)
					if id < 256 {
						unknown(c, ds, 1, id, []byte{byte(id), 0, 5, byte(id >> 8), 0}, true)
					}
				}
				c.State(uint64(li)<<32 | uint64(from))
				c.Trace()
			})
		}
		c.Case(func() string { return fmt.Sprintf("dialects %v, ids any dialect defines and their neighbours", list) }, func() {
			for _, r := range ref.Table {
				for _, id := range []uint32{r.ID, r.ID + 1, r.ID - 1, r.ID + 256, r.ID + 65536, r.ID | 1<<23} {
					id &= 1<<24 - 1
					if _, ok := look(id); ok {
						continue
					}
					unknown(c, ds, 2, id, patterns(r.Base())[0], true)
				}
			}
			c.Trace()
		})
		for n := 0; n <= 255; n++ {
			n := n
			c.Case(func() string { return fmt.Sprintf("dialects %v, payload of %d bytes", list, n) }, func() {
				for _, p := range patterns(n) {
					for _, id := range []uint32{254, 199, 256, 0x123456, 0xffffff, 0x010000} {
						if _, ok := look(id); ok {
							continue
						}
						for ver := 1; ver <= 2; ver++ {
							if ver == 1 && id > 255 {
								continue
							}
							unknown(c, ds, ver, id, p, true)
						}
					}
					c.State(chk.Hash(uint64(li)+7, p))
				}
				c.Trace()
			})
		}
	}
	// several placeholders alive at once
	c.Case(func() string { return "several placeholders at once" }, func() {
		var us []*m.UnknownMessage
		for i := 0; i < 40; i++ {
			p := bytes.Repeat([]byte{byte(i + 1)}, 255-i*6)
			msg, _ := m.Dialects{}.GetMessage(frameOf(ref.Frame(ref.Header{Version: 2, ID: uint32(i)}, p, 0)))
			us = append(us, msg.(*m.UnknownMessage))
		}
		for i, u := range us {
			if u.ID != uint32(i) || !bytes.Equal(u.Raw, bytes.Repeat([]byte{byte(i + 1)}, 255-i*6)) {
				chk.Failf("placeholder %d changed: %+v", i, u)
			}
		}
		c.Trace()
	})
}
