package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

var errOther = errors.New("dialect failure")
var errOther2 = errors.New("another dialect failure")

// fakeDialect behaves as told and counts the calls.
type fakeDialect struct {
	n     int
	b     int // behaviour
	calls *[]string
}

// behaviours: 0 unknown; 1 defines (crc 10); 2 defines (crc 20, other limits); 3 fails; 4 fails otherwise; 5 defines but decoding fails; 6 wrapped unknown (not the sentinel)
// from 7 on: fails with one of libErrs
const nBehaviours = 7

// errors a dialect may fail with, the library's own among them
var libErrs = []error{m.ErrPrivateField, m.ErrMessageTooShort, m.ErrMessageTooLong, m.ErrInvalidChecksum, m.ErrUnsupportedVersion, m.ErrDecodeV2MessageV1Frame, m.ErrEncodeV2MessageV1Frame, m.ErrFrameTooShort, m.ErrUnknownStartByte, m.ErrValueTooLong, m.ErrUserClosed, io.EOF}

var errWrapped = fmt.Errorf("wrapped: %w", m.ErrUnknownMessage)

func (f *fakeDialect) meta() (ref.Meta, error) {
	switch f.b {
	case 0:
		return ref.Meta{}, m.ErrUnknownMessage
	case 1, 5:
		return ref.Meta{CRC: 10, Min: 2, Max: 4}, nil
	case 2:
		return ref.Meta{CRC: 20, Min: 3, Max: 9}, nil
	case 3:
		return ref.Meta{CRC: 10, Min: 0, Max: 255}, errOther
	case 4:
		return ref.Meta{}, errOther2
	}
	if f.b >= nBehaviours {
		return ref.Meta{}, libErrs[f.b-nBehaviours]
	}
	return ref.Meta{CRC: 10, Min: 0, Max: 255}, errWrapped
}

func (f *fakeDialect) GetMeta(id uint32) (m.MessageMeta, error) {
	x, err := f.meta()
	return m.MessageMeta{CRCExtra: x.CRC, MinimumLength: uint(x.Min), MaximumLength: uint(x.Max)}, err
}

var errDecode = errors.New("decoding fails")

func (f *fakeDialect) GetMessage(fr m.Frame) (m.Message, error) {
	switch f.b {
	case 0:
		return nil, m.ErrUnknownMessage
	case 1, 2:
		x := &genMsg{}
		x.Read(fr)
		x.id = uint32(1000 + f.n)
		return x, nil
	case 3:
		return nil, errOther
	case 4:
		return nil, errOther2
	case 5:
		return nil, errDecode
	}
	if f.b >= nBehaviours {
		return nil, libErrs[f.b-nBehaviours]
	}
	return nil, errWrapped
}

func c19(c *chk.C) {
	depth := 6
	if c.Thorough {
		depth = 7
	}
	// short lists with every error, longer ones with the first behaviours
	for l := 0; l <= depth; l++ {
		kinds := nBehaviours
		if l <= depth-2 {
			kinds += len(libErrs)
		}
		n := 1
		for i := 0; i < l; i++ {
			n *= kinds
		}
		for k := 0; k < n; k++ {
			l, k := l, k
			bs := make([]int, l)
			for i, x := 0, k; i < l; i++ {
				bs[i] = x % kinds
				x /= kinds
			}
			c.Case(func() string { return fmt.Sprintf("dialects with behaviours %v", bs) }, func() {
				var ds m.Dialects
				for i, b := range bs {
					ds = append(ds, &fakeDialect{n: i, b: b})
				}
				lists := []m.Dialects{ds}
				if l == 0 {
					lists = append(lists, m.Dialects{})
				}
				for _, ds := range lists {
					fakeList(c, ds, bs)
				}
				c.State(chk.HashS(0, fmt.Sprint(bs)))
				c.Trace()
			})
		}
	}
	// long lists: the first that does not say unknown stands at every place, another behind it
	long := 40
	if c.Thorough {
		long = 300
	}
	for l := depth + 1; l <= long; l++ {
		l := l
		c.Case(func() string { return fmt.Sprintf("%d dialects", l) }, func() {
			for by := 0; by <= l; by++ {
				if l > 40 && by%16 > 1 && by < l-2 {
					continue
				}
				for _, kind := range []int{1, 2, 3, 5} {
					bs := make([]int, l)
					if by < l {
						bs[by] = kind
					}
					if by+1 < l {
						bs[l-1] = 3 - min(kind, 2)
					}
					var ds m.Dialects
					for i, b := range bs {
						ds = append(ds, &fakeDialect{n: i, b: b})
					}
					fakeList(c, ds, bs)
					c.State(chk.HashS(2, fmt.Sprint(l, by, kind)))
				}
			}
			c.Trace()
		})
	}
	// the same dialect twice
	for i := range dialectNames {
		i := i
		c.Case(func() string { return "repeated " + dialectNames[i] }, func() {
			realList(c, []string{dialectNames[i], dialectNames[i]})
			realList(c, []string{dialectNames[i]})
			realList(c, nil)
		})
		for j := range dialectNames {
			if j == i {
				continue
			}
			j := j
			c.Case(func() string { return fmt.Sprint(dialectNames[i], dialectNames[j]) }, func() {
				realList(c, []string{dialectNames[i], dialectNames[j]})
			})
			for k := range dialectNames {
				k := k
				if k == i || k == j {
					continue
				}
				c.Case(func() string { return fmt.Sprint(dialectNames[i], dialectNames[j], dialectNames[k]) }, func() {
					realList(c, []string{dialectNames[i], dialectNames[j], dialectNames[k]})
				})
			}
		}
		c.Case(func() string { return fmt.Sprint("all dialects rotated by ", i) }, func() {
			realList(c, append(append([]string{}, dialectNames[i:]...), dialectNames[:i]...))
		})
	}
}

func fakeList(c *chk.C, ds m.Dialects, bs []int) {
	// the dialect that decides, for meta data and for decoding
	var meta ref.Meta
	metaErr := error(m.ErrUnknownMessage)
	for i := range bs {
		if bs[i] != 0 {
			meta, metaErr = ds[i].(*fakeDialect).meta()
			break
		}
	}
	for n := 0; n <= 11; n++ {
		for _, crc := range []byte{10, 20, 30} {
			for ver := 1; ver <= 2; ver++ {
				b := ref.Frame(ref.Header{Version: ver, ID: 5}, patterns(n)[0], crc)
				want := verdictErr[ref.Validate(b, func(uint32) (ref.Meta, bool) { return meta, true })]
				if metaErr != nil {
					want = metaErr
				}
				if err := ds.Validate(frameOf(b)); err != want {
					chk.Failf("Validate(% x) = %v, want %v", b, err, want)
				}
				c.Trans(1)
			}
		}
	}
	for ver := 1; ver <= 2; ver++ {
		g := &genMsg{id: 5, data: []byte{1, 2, 3}}
		fr, err := ds.GetFrame(ver, 1, 2, 3, g)
		if err != metaErr {
			chk.Failf("GetFrame: %v, want %v", err, metaErr)
		}
		if err != nil && fr != nil {
			chk.Failf("GetFrame fails but returns a frame")
		}
		if err == nil {
			want := ref.Frame(ref.Header{Version: ver, ID: 5, Sys: 1, Comp: 2, Seq: 3}, g.data, meta.CRC)
			if !bytes.Equal(fr.Bytes(), want) {
				chk.Failf("GetFrame: % x, want % x", fr.Bytes(), want)
			}
			g.err = errDecode
			if fr, err := ds.GetFrame(ver, 1, 2, 3, g); err != errDecode || fr != nil {
				chk.Failf("GetFrame of a message that fails to encode: %v, %v", fr, err)
			}
		}
		b := ref.Frame(ref.Header{Version: ver, ID: 5}, []byte{7, 8, 9}, 10)
		msg, err := ds.GetMessage(frameOf(b))
		c.Trans(2)
		by := -1
		for i := range bs {
			if bs[i] != 0 {
				by = i
				break
			}
		}
		if by < 0 {
			u, ok := msg.(*m.UnknownMessage)
			if err != m.ErrUnknownMessage || !ok {
				chk.Failf("GetMessage: %T, %v; want a placeholder and the unknown-message error", msg, err)
			}
			if u.ID != 5 || u.Version != ver || !bytes.Equal(u.Raw, []byte{7, 8, 9}) {
				chk.Failf("placeholder is %+v", u)
			}
			continue
		}
		var want error
		switch bs[by] {
		case 3:
			want = errOther
		case 4:
			want = errOther2
		case 5:
			want = errDecode
		case 6:
			want = errWrapped
		}
		if bs[by] >= nBehaviours {
			want = libErrs[bs[by]-nBehaviours]
		}
		if err != want {
			chk.Failf("GetMessage: error %v, want %v", err, want)
		}
		if want == nil {
			if g, ok := msg.(*genMsg); !ok || g.id != uint32(1000+by) {
				chk.Failf("GetMessage: decoded by %v, want dialect %d", msg, by)
			}
		}
	}
}

func realList(c *chk.C, list []string) {
	var ds m.Dialects
	all := map[uint32]bool{}
	for _, n := range list {
		ds = append(ds, dialects[n])
	}
	for _, n := range dialectNames {
		for id := range ref.ByDialect[n] {
			all[id] = true
		}
	}
	look := ref.LookupOf(list...)
	for id := range all {
		var def *ref.Msg
		for _, n := range list {
			if def = ref.ByDialect[n][id]; def != nil {
				break
			}
		}
		ver := 2
		if id <= 255 && id%2 == 0 {
			ver = 1
		}
		if def == nil {
			b := ref.Frame(ref.Header{Version: ver, ID: id}, []byte{1, 2, 3}, 4)
			validate(c, ds, look, b, func() string { return fmt.Sprint(list) })
			msg, err := ds.GetMessage(frameOf(b))
			if u, ok := msg.(*m.UnknownMessage); err != m.ErrUnknownMessage || !ok || u.ID != id {
				chk.Failf("%v: undefined id %d decodes to %T, %v", list, id, msg, err)
			}
			if fr, err := ds.GetFrame(ver, 1, 2, 3, &genMsg{id: id, data: []byte{1}}); err != m.ErrUnknownMessage || fr != nil {
				chk.Failf("%v: undefined id %d packs to %v, %v", list, id, fr, err)
			}
			continue
		}
		p := patterns(def.Base())[0]
		b := ref.Frame(ref.Header{Version: ver, ID: id, Sys: 1, Comp: 2, Seq: 3}, p, def.CRC)
		validate(c, ds, look, b, func() string { return fmt.Sprint(list) })
		// checksums other dialects would make
		for _, n := range dialectNames {
			if o := ref.ByDialect[n][id]; o != nil && (o.CRC != def.CRC || o.Min != def.Min || o.Max != def.Max) {
				validate(c, ds, look, ref.Frame(ref.Header{Version: ver, ID: id}, patterns(o.Base())[0], o.CRC), func() string { return fmt.Sprint(list) })
				c.Count("ids_defined_differently_by_two_dialects", 1)
			}
		}
		msg, err := ds.GetMessage(frameOf(b))
		if err != nil || msg.GetDialect() != def.Dialect || msg.GetMessageName() != def.Name || msg.GetID() != id {
			chk.Failf("%v: id %d decodes to %T, %v; want %s.%s", list, id, msg, err, def.Dialect, def.Name)
		}
		fr, err := ds.GetFrame(ver, 1, 2, 3, &genMsg{id: id, data: p})
		if err != nil || !bytes.Equal(fr.Bytes(), b) {
			chk.Failf("%v: id %d packs to %v, %v; want % x", list, id, fr, err, b)
		}
		// the messages every dialect has under this id, whether it is in the list or not
		for _, n := range dialectNames {
			o := ref.ByDialect[n][id]
			if o == nil {
				continue
			}
			q := patterns(o.Base())[0]
			msg, err := dialects[n].GetMessage(frameOf(ref.Frame(ref.Header{Version: ver, ID: id}, q, o.CRC)))
			if err != nil {
				chk.Failf("%s alone: id %d: %v", n, id, err)
			}
			out, err := msg.Write(ver)
			if err != nil {
				chk.Failf("%s alone: id %d: %v", n, id, err)
			}
			want := ref.Frame(ref.Header{Version: ver, ID: id, Sys: 1, Comp: 2, Seq: 3}, out, def.CRC)
			fr, err := ds.GetFrame(ver, 1, 2, 3, msg)
			if err != nil || !bytes.Equal(fr.Bytes(), want) {
				chk.Failf("%v: message %d of %s packs to %v, %v; want % x", list, id, n, fr, err, want)
			}
			c.Trans(1)
		}
		c.Trans(2)
	}
	c.State(chk.HashS(1, fmt.Sprint(list)))
	c.Trace()
}
