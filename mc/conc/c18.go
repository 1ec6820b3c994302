package main

import (
	"context"
	"fmt"
	"io"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/vsched"
)

// c18: no data races, in all the scenarios of the life of a stream and with several streams.
func c18(c *chk.C) {
	severalStreams(c)
	var ss []scn
	ss = append(ss, readSide(c.Thorough)...)
	ss = append(ss, writeSide(c.Thorough)...)
	ss = append(ss, mixed(c.Thorough)...)
	ss = with(ss, func(s *scn) { s.watch = true; s.log = true })
	lifecycle(c, ss, bounds(c, 1, 1, 1), true, func(*life, *vsched.Result) string { return "" })
}

// severalStreams: streams made and used side by side, and every accessor called from threads of
// its own.
func severalStreams(c *chk.C) {
	type kind struct {
		name  string
		reads []item
		end   error
		outs  []wout
		send  []string
		close bool
		log   bool
		inv   bool
		some  bool // closed before everything has arrived
	}
	kinds := []kind{
		{name: "receives", reads: rd("v1", "badcrc1", "v2"), end: io.EOF},
		{name: "receives with log", reads: rd("signed", "unknown"), end: errRead, log: true, inv: true},
		{name: "sends", send: []string{"v1", "v2"}, close: true},
		{name: "sends with log and fails", send: []string{"signed", "v2"}, outs: []wout{{}, {n: 4, err: errWrite}}, log: true},
		{name: "is closed", close: true},
		{name: "receives and is closed", reads: rd("v1", "badcrc1", "v2"), close: true, some: true},
		{name: "receives, sends and is closed, with log", reads: rd("v2", "signed"), send: []string{"v1"}, close: true, some: true, log: true},
	}
	stream := func(k kind, ds m.Dialects) (w *world, body func()) {
		w = &world{tr: &transport{reads: append([]item(nil), k.reads...), end: k.end, outcomes: k.outs}, in: make(chan m.Frame, 1)}
		if k.log {
			w.lg = &logger{}
		}
		return w, func() {
			w.open(ds, k.inv)
			vsched.GoQuiet("R", func() { w.fs.ReadContext(context.Background()) })
			vsched.GoQuiet("W", func() { w.fs.WriteContext(context.Background()) })
			for _, n := range k.send {
				if vsched.Select(false, vsched.RecvCase(w.fs.Closed()), vsched.SendCase(w.fs.Write())(frameOf(segOf[n]))) == 0 {
					break
				}
			}
			if k.close {
				w.fs.Close()
			}
			w.drain()
		}
	}
	for _, a := range kinds {
		for _, b := range kinds {
			for _, shared := range []bool{true, false} {
				c.Case(func() string {
					return fmt.Sprintf("two streams made and used side by side: one %s, one %s, dialect list shared: %v", a.name, b.name, shared)
				}, func() {
					var x, y *world
					explore(c, vsched.Options{RaceDetect: true}, bounds(c, 1, 1, 0), func() func() {
						var f, g func()
						d2 := stdDialects
						if !shared {
							d2 = append(m.Dialects(nil), stdDialects...)
						}
						x, f = stream(a, stdDialects)
						y, g = stream(b, d2)
						return func() {
							vsched.GoQuiet("first", f)
							vsched.GoQuiet("second", g)
						}
					}, func(r *vsched.Result) string {
						for i, w := range []*world{x, y} {
							k := []kind{a, b}[i]
							var in []byte
							for _, it := range k.reads {
								in = append(in, it.data...)
							}
							want := expect(in, stdLookup, k.inv)
							if k.some && len(w.delivered) < len(want) {
								want = want[:len(w.delivered)]
							}
							if s := sameFrames(w.delivered, want); s != "" {
								return fmt.Sprintf("stream %d: %s; waiting: %s", i, s, blocked(r))
							}
							for j, p := range w.tr.wrote {
								if string(p) != string(segOf[k.send[j]]) {
									return fmt.Sprintf("stream %d: write %d is %s", i, j, hex(p))
								}
							}
						}
						return ""
					})
				})
			}
		}
	}
	// accessors
	for _, how := range []string{"user", "end of file", "open"} {
		for _, loops := range []bool{true, false} {
			c.Case(func() string { return fmt.Sprintf("every accessor from two threads, loops %v, %s", loops, how) }, func() {
				var w *world
				explore(c, vsched.Options{RaceDetect: true}, bounds(c, 1, 1, 0), func() func() {
					w = &world{tr: &transport{reads: rd("v1")}, in: make(chan m.Frame, 1), lg: &logger{}}
					if how == "end of file" {
						w.tr.end = io.EOF
					}
					return func() {
						w.open(stdDialects, false)
						if loops {
							vsched.GoQuiet("R", func() { w.fs.ReadContext(context.Background()) })
							vsched.GoQuiet("W", func() { w.fs.WriteContext(context.Background()) })
						}
						for i := 0; i < 2; i++ {
							vsched.GoQuiet("user", func() {
								w.fs.GetCloseErr()
								vsched.Select(true, vsched.RecvCase(w.fs.Read()))
								vsched.Select(true, vsched.RecvCase(w.fs.Closed()), vsched.SendCase(w.fs.Write())(frameOf(segOf["v1"])))
								vsched.Select(true, vsched.RecvCase(w.fs.Closed()))
								w.fs.GetCloseErr()
							})
						}
						switch how {
						case "user":
							vsched.GoQuiet("closer", func() { w.fs.Close() })
						}
					}
				}, func(r *vsched.Result) string { return "" })
			})
		}
	}
}
