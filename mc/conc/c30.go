package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/vsched"
)

// hop is one stream of a router.
type hop struct {
	w   *world
	to  []int // the frames it delivers are sent on to these
	acc [][]byte
	out int // frames of it that were not sent on because the other stream had closed
}

type hopScn struct {
	reads []item
	end   error
	outs  []wout
	to    []int
	log   bool
	inv   bool
	close bool // by the user, at any moment
	caps  int
}

// route makes the streams and sends on what each delivers to the others.
func route(ss []hopScn) (hs []*hop, body func()) {
	for _, s := range ss {
		w := &world{tr: &transport{reads: append([]item(nil), s.reads...), end: s.end, outcomes: s.outs}, in: make(chan m.Frame, s.caps)}
		if s.log {
			w.lg = &logger{}
		}
		hs = append(hs, &hop{w: w, to: s.to})
	}
	return hs, func() {
		for i, h := range hs {
			h.w.open(stdDialects, ss[i].inv)
		}
		for i, h := range hs {
			n := string(rune('a' + i))
			vsched.GoQuiet(n+".R", func() { h.w.fs.ReadContext(context.Background()) })
			vsched.GoQuiet(n+".W", func() { h.w.fs.WriteContext(context.Background()) })
			vsched.GoQuiet(n+".router", func() {
				for {
					f, ok := vsched.Recv2(h.w.fs.Read())
					if !ok {
						return
					}
					h.w.got(f)
					for _, k := range h.to {
						o := hs[k]
						if vsched.Select(false, vsched.RecvCase(o.w.fs.Closed()), vsched.SendCase(o.w.fs.Write())(f)) == 1 {
							o.acc = append(o.acc, h.w.delivered[len(h.w.delivered)-1])
						} else {
							h.out++
						}
					}
				}
			})
			if ss[i].close {
				vsched.GoQuiet(n+".closer", func() {
					h.w.happen(m.ErrUserClosed)
					h.w.fs.Close()
				})
			}
		}
	}
}

func judgeRoute(ss []hopScn, hs []*hop, r *vsched.Result) string {
	for i, h := range hs {
		s := ss[i]
		n := string(rune('a' + i))
		if len(h.w.problems) > 0 {
			return n + ": " + h.w.problems[0]
		}
		var in []byte
		for _, it := range s.reads {
			in = append(in, it.data...)
		}
		closed := isClosed(h.w.fs.Closed())
		ends := s.close || s.end != nil
		for _, o := range s.outs {
			ends = ends || o.err != nil || o.block
		}
		if closed && !ends {
			return fmt.Sprintf("%s was closed, by %v; waiting: %s", n, h.w.fs.GetCloseErr(), blocked(r))
		}
		if !closed && (s.close || s.end != nil) {
			return fmt.Sprintf("%s was not closed; waiting: %s", n, blocked(r))
		}
		if err := h.w.fs.GetCloseErr(); closed && !h.w.has(err) || !closed && err != nil {
			return fmt.Sprintf("%s: closed: %v, by %v", n, closed, err)
		}
		want := expect(in, stdLookup, s.inv)
		if closed && len(h.w.delivered) < len(want) && (s.close || errors.Is(h.w.fs.GetCloseErr(), errWrite)) {
			want = want[:len(h.w.delivered)]
		}
		if x := sameFrames(h.w.delivered, want); x != "" {
			return fmt.Sprintf("%s: %s; waiting: %s", n, x, blocked(r))
		}
		for k, f := range h.w.frames {
			if !bytes.Equal(f.Bytes(), h.w.delivered[k]) {
				return fmt.Sprintf("%s: frame %d changed to %s", n, k, hex(f.Bytes()))
			}
		}
		// what it was given to write
		acc := h.acc
		if closed && len(h.w.tr.wrote) < len(acc) {
			acc = acc[:len(h.w.tr.wrote)]
		}
		if x := sameFrames(h.w.tr.wrote, acc); x != "" {
			return fmt.Sprintf("sent on %s: %s; waiting: %s", n, x, blocked(r))
		}
	}
	// nothing is lost on the way to streams that stay open
	for i, h := range hs {
		if isClosed(h.w.fs.Closed()) {
			continue
		}
		n := 0
		for _, o := range hs {
			for _, k := range o.to {
				if k == i {
					n += len(o.w.delivered)
				}
			}
		}
		if len(h.acc) != n {
			return fmt.Sprintf("%c accepted %d of %d frames; waiting: %s", 'a'+i, len(h.acc), n, blocked(r))
		}
	}
	return ""
}

func c30(c *chk.C) {
	// one after the other: every sequence of segments passed on to two streams
	depth := 3
	if c.Thorough {
		depth = 4
	}
	forSeqs(len(segs), 1, depth-1, func(idx []int) {
		idx = append([]int(nil), idx...)
		c.Case(func() string { return "segments " + names(segs, idx) + " and any other, passed on to two streams" }, func() {
			for last := -1; last < len(segs); last++ {
				all := idx
				if last >= 0 {
					all = append(idx[:len(idx):len(idx)], last)
				} else if len(idx) > 1 {
					continue
				}
				for _, inv := range []bool{false, true} {
					ss := []hopScn{{reads: []item{{data: join(segs, all)}}, to: []int{1, 2}, inv: inv}, {}, {log: true, caps: 3}}
					hs, body := route(ss)
					r := once(c, body)
					if x := judgeRoute(ss, hs, r); x != "" {
						chk.Failf("%s, invalid %v: %s", names(segs, all), inv, x)
					}
				}
				c.State(chk.HashS(30, fmt.Sprint(all)))
			}
		})
	})
	// both ways, and round a ring
	c.Case(func() string { return "a long exchange" }, func() {
		n := 1000
		if c.Thorough {
			n = 30000
		}
		ss := pick("v1", "v2", "signed", "badcrc1", "max", "unknown", "v2cut", "nestbad")
		var x, y []item
		for i := 0; i < n; i++ {
			x = append(x, item{data: ss[i%8].b})
			y = append(y, item{data: cat(ss[i*3%7].b, ss[i/8%8].b)})
		}
		for _, cfg := range [][]hopScn{
			{{reads: x, to: []int{1}}, {reads: y, to: []int{0}}},
			{{reads: x, to: []int{1, 2}, inv: true, caps: 5}, {reads: y, to: []int{0}, log: true}, {caps: 100}},
		} {
			hs, body := route(cfg)
			r := once(c, body)
			if x := judgeRoute(cfg, hs, r); x != "" {
				chk.Failf("%s", x)
			}
		}
	})
	// all interleavings
	b := bounds(c, 1, 1, 0)
	for _, inv := range []bool{false, true} {
		for _, caps := range []int{0, 2} {
			src := []hopScn{
				{reads: rd("v1", "badcrc1", "v2"), to: []int{1}, inv: inv},
				{reads: rd("signed", "v1"), to: []int{1}, end: io.EOF, inv: inv},
				{reads: []item{{data: cat(segOf["v2"], segOf["unknown"], segOf["v1"])}}, to: []int{1}, inv: inv, close: true},
			}
			dst := []hopScn{
				{caps: caps},
				{caps: caps, log: true},
				{caps: caps, reads: rd("v2cut"), to: []int{0}},
				{caps: caps, outs: []wout{{}, {n: 3, err: errWrite}}},
				{caps: caps, close: true},
				{caps: caps, end: errRead},
				{caps: caps, outs: []wout{{block: true}}, close: true},
			}
			for si, s := range src {
				for di, d := range dst {
					c.Case(func() string {
						return fmt.Sprintf("source %d to destination %d, invalid %v, channel %d", si, di, inv, caps)
					}, func() {
						ss := []hopScn{s, d}
						var hs []*hop
						explore(c, vsched.Options{}, b, func() func() {
							var body func()
							hs, body = route(ss)
							return body
						}, func(r *vsched.Result) string { return judgeRoute(ss, hs, r) })
					})
					if inv {
						continue
					}
					c.Case(func() string {
						return fmt.Sprintf("source %d to destination %d and to one that stays, channel %d", si, di, caps)
					}, func() {
						s := s
						s.to = []int{1, 2}
						ss := []hopScn{s, d, {}}
						var hs []*hop
						explore(c, vsched.Options{}, b, func() func() {
							var body func()
							hs, body = route(ss)
							return body
						}, func(r *vsched.Result) string { return judgeRoute(ss, hs, r) })
					})
				}
			}
		}
	}
}
