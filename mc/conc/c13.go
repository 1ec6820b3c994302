package main

import (
	"io"

	"verifmc/chk"
	"verifmc/vsched"
)

func rd(names ...string) []item {
	var b []byte
	for _, n := range names {
		b = append(b, segOf[n]...)
	}
	return []item{{data: b}}
}

func withErr(i []item, err error) []item {
	o := append([]item(nil), i...)
	o[len(o)-1].err = err
	return o
}

type readCase struct {
	reads []item
	end   error
}

var readCases = []readCase{
	{nil, nil},
	{rd("v1"), nil},
	{rd("v1", "v2"), nil},
	{rd("v1"), io.EOF},
	{nil, errRead},
	{withErr(rd("v1"), io.EOF), errRead2},
	{rd("badcrc1", "half"), nil},
}

// causes adds the ways a stream can be closed to a scenario.
func causes(base scn, f func(scn)) {
	for _, k := range []func(*scn){
		func(s *scn) { s.closers = 1 },
		func(s *scn) { s.closers = 2; s.twice = true },
		func(s *scn) { s.cancel = "both" },
		func(s *scn) { s.cancel = "two" },
		func(s *scn) { s.cancel = "R" },
		func(s *scn) { s.cancel = "W" },
		func(s *scn) { s.cancel = "parent" },
		func(s *scn) { s.cancel = "deadline" },
		func(s *scn) { s.cancel = "before" },
		func(s *scn) { s.cancel = "custom" },
		func(s *scn) { s.closeIn = 2 },
		func(s *scn) { s.closers = 1; s.cancel = "both" },
		func(s *scn) { s.closers = 1; s.closeIn = 2 },
		func(s *scn) { s.cancel = "both"; s.closeIn = 2 },
		func(s *scn) { s.closers = 1; s.clsErr = errCloseFails },
	} {
		s := base
		k(&s)
		if s.cancel == "R" && s.loops == "W" || s.cancel == "W" && s.loops == "R" || s.closeIn == 2 && (len(s.send) > 0 || s.loops == "R") {
			continue
		}
		f(s)
	}
}

// readSide: scenarios without frames to send.
func readSide(thorough bool) (out []scn) {
	for _, rc := range readCases {
		for _, cons := range []int{-2, -1, 1} {
			causes(scn{loops: "RW", reads: rc.reads, end: rc.end, consumer: cons}, func(s scn) { out = append(out, s) })
		}
	}
	for _, rc := range readCases {
		causes(scn{loops: "R", reads: rc.reads, end: rc.end, consumer: -1}, func(s scn) { out = append(out, s) })
	}
	return
}

var sendCases = [][][]string{{{"v1", "v2"}}, {{"v1"}, {"v2"}}}

// writeSide: frames to send and writes that work, fail or block.
func writeSide(thorough bool) (out []scn) {
	for _, sc := range sendCases {
		for _, cp := range []int{0, 2} {
			for _, o := range [][]wout{nil, {{n: 0, err: errWrite}}, {{}, {n: 5, err: errWrite}}, {{block: true}}} {
				for _, loops := range []string{"W", "RW"} {
					base := scn{loops: loops, send: sc, inCap: cp, outcomes: o, consumer: -2}
					causes(base, func(s scn) { out = append(out, s) })
				}
			}
		}
	}
	return
}

// idleClose: the stream is closed without loops, or with causes on both sides.
func mixed(thorough bool) (out []scn) {
	for n := 1; n <= 3; n++ {
		out = append(out, scn{loops: "", closers: n, twice: true, consumer: -1})
	}
	for _, rc := range []readCase{{rd("v1"), io.EOF}, {nil, errRead}, {rd("v1", "v2"), nil}} {
		for _, o := range [][]wout{nil, {{n: 3, err: errWrite}}} {
			for _, cons := range []int{-2, -1} {
				base := scn{loops: "RW", reads: rc.reads, end: rc.end, consumer: cons, send: [][]string{{"v1"}}, outcomes: o}
				causes(base, func(s scn) { out = append(out, s) })
				s := base
				s.closeIn = 1
				out = append(out, s)
				s.closers = 1
				out = append(out, s)
			}
		}
	}
	return
}

// goneSide: what the calls of a closed transport return.
func goneSide() (out []scn) {
	for _, k := range failKinds {
		if k.withData || k.err == errRead {
			continue
		}
		for _, loops := range []string{"R", "W", "RW"} {
			for _, busy := range []bool{false, true} {
				base := scn{loops: loops, consumer: -2, goneErr: k.err}
				if busy && loops != "W" {
					base.reads = rd("v1", "half")
					base.consumer = -1
				}
				if busy && loops != "R" {
					base.send = [][]string{{"v1", "v2"}}
					base.outcomes = []wout{{block: true}}
				}
				for _, f := range []func(*scn){
					func(s *scn) { s.closers = 1 },
					func(s *scn) { s.cancel = "both" },
					func(s *scn) { s.closeIn = 2 },
				} {
					s := base
					f(&s)
					if s.closeIn == 2 && (busy || loops == "R") {
						continue
					}
					out = append(out, s)
				}
			}
		}
	}
	return
}

// insideSide: the stream is closed from a call it makes itself.
func insideSide() (out []scn) {
	for _, in := range []string{"LogRead", "LogWritten", "Read", "Write"} {
		for _, loops := range []string{"R", "W", "RW"} {
			if (in == "LogRead" || in == "Read") && loops == "W" || (in == "LogWritten" || in == "Write") && loops == "R" {
				continue
			}
			for _, cons := range []int{-2, -1} {
				base := scn{loops: loops, consumer: cons, inside: in, log: true}
				if loops != "W" {
					base.reads = append(rd("v1"), rd("v2")...)
				}
				if loops != "R" {
					base.send = [][]string{{"v1", "v2"}}
				}
				if in == "Read" && cons == -2 {
					continue // the second read never comes
				}
				out = append(out, base)
				s := base
				s.closers = 1
				out = append(out, s)
				s = base
				s.cancel = "both"
				out = append(out, s)
				s = base
				s.end = io.EOF
				out = append(out, s)
				s = base
				s.outcomes = []wout{{n: 3, err: errWrite}}
				out = append(out, s)
			}
		}
	}
	return
}

// againSide: loops that are started again once they have returned; what is left over then (bytes
// read ahead, frames in the channel) must not keep them going.
func againSide() (out []scn) {
	for _, loops := range []string{"R", "W", "RW"} {
		for n := 1; n <= 2; n++ {
			for _, cons := range []int{-2, -1, 1} {
				base := scn{loops: loops, consumer: cons, again: n}
				if loops == "RW" && n == 2 {
					continue
				}
				if loops != "W" {
					base.reads = rd("v1", "badcrc1", "v2", "v1")
				} else if cons != -2 {
					continue
				}
				if loops != "R" {
					base.send = [][]string{{"v1", "v2"}}
					base.inCap = 2
				}
				for _, f := range []func(*scn){
					func(s *scn) { s.closers = 1 },
					func(s *scn) { s.cancel = "both" },
					func(s *scn) { s.cancel = "two" },
					func(s *scn) { s.closeIn = 1 },
					func(s *scn) { s.end = io.EOF },
					func(s *scn) { s.outcomes = []wout{{n: 2, err: errWrite}} },
				} {
					s := base
					f(&s)
					if s.closeIn == 1 && loops == "R" || s.end != nil && (loops == "W" || cons != -1) || s.outcomes != nil && loops == "R" {
						continue
					}
					out = append(out, s)
				}
			}
		}
	}
	return
}

// deepSide: the causes strike anywhere in a longer exchange.
func deepSide() (out []scn) {
	r := rd("v1", "v2", "badcrc2", "v2cut", "v1", "signed", "unknown", "v1", "v2", "v1")
	many := []string{"v1", "v2", "signed", "v2cut", "v1", "v1", "v2", "v1"}
	for _, log := range []bool{false, true} {
		base := scn{loops: "R", reads: r, consumer: -1, log: log}
		causes(base, func(s scn) { out = append(out, s) })
		base = scn{loops: "W", send: [][]string{many}, inCap: 3, consumer: -2, log: log}
		causes(base, func(s scn) { out = append(out, s) })
		s := base
		s.outcomes = []wout{{}, {}, {}, {}, {}, {}, {n: 4, err: errWrite}}
		out = append(out, s)
		base = scn{loops: "RW", reads: r, end: io.EOF, send: [][]string{many}, consumer: -1, log: log}
		out = append(out, base)
		base.end = nil
		base.closers = 1
		out = append(out, base)
	}
	return
}

func with(ss []scn, f func(*scn)) []scn {
	out := append([]scn(nil), ss...)
	for i := range out {
		f(&out[i])
	}
	return out
}

func bounds(c *chk.C, p, fr, sel int) vsched.Bounds {
	if c.Thorough {
		return vsched.Bounds{Preemptions: p + 1, Free: fr + 1, Sel: sel + 1, MaxExec: 2000000}
	}
	return vsched.Bounds{Preemptions: p, Free: fr, Sel: sel, MaxExec: 300000}
}

func c15(c *chk.C) {
	var ss []scn
	ss = append(ss, readSide(c.Thorough)...)
	ss = append(ss, writeSide(c.Thorough)...)
	ss = append(ss, mixed(c.Thorough)...)
	ss = append(ss, goneSide()...)
	ss = append(ss, insideSide()...)
	lifecycle(c, ss, bounds(c, 1, 2, 1), false, (*life).okClose)
	lifecycle(c, append(againSide(), deepSide()...), bounds(c, 1, 1, 1), false, (*life).okClose)
}

func c16(c *chk.C) {
	var ss []scn
	ss = append(ss, readSide(c.Thorough)...)
	ss = append(ss, writeSide(c.Thorough)...)
	ss = append(ss, mixed(c.Thorough)...)
	ss = append(ss, goneSide()...)
	ss = append(ss, insideSide()...)
	ss = append(ss, againSide()...)
	ss = append(ss, deepSide()...)
	ss = with(ss, func(s *scn) { s.watch = true })
	lifecycle(c, ss, bounds(c, 1, 1, 1), false, (*life).okErr)
}

func c17(c *chk.C) {
	var ss []scn
	ss = append(ss, readSide(c.Thorough)...)
	ss = append(ss, writeSide(c.Thorough)...)
	ss = append(ss, mixed(c.Thorough)...)
	ss = append(ss, goneSide()...)
	ss = append(ss, insideSide()...)
	lifecycle(c, ss, bounds(c, 1, 2, 1), false, (*life).okEnd)
	lifecycle(c, append(againSide(), deepSide()...), bounds(c, 1, 1, 1), false, (*life).okEnd)
}

// c13: what is sent is written whole, once and in order.
func c13(c *chk.C) {
	var ss []scn
	outs := [][]wout{nil, {{n: 0, err: errWrite}}, {{}, {n: 7, err: errWrite}}, {{}, {}, {n: 300, err: errWrite}}}
	sends := [][][]string{
		{{"v1", "signed", "max"}},
		{{"v1", "v2"}, {"signed", "v2cut"}},
		{{"v1", "v1", "v1"}}, // equal frames are still three frames
		{{"badcrc1", "unknown", "v2"}},
	}
	for _, sc := range sends {
		for _, cp := range []int{0, 1, 3} {
			for oi, o := range outs {
				for _, loops := range []string{"W", "RW"} {
					base := scn{loops: loops, send: sc, inCap: cp, outcomes: o, consumer: -2}
					if loops == "RW" {
						base.reads = rd("v1")
						base.consumer = -1
					}
					ss = append(ss, base)
					if len(sc) == 1 {
						s := base
						s.closeIn = 1
						ss = append(ss, s)
						if oi == 0 {
							s.log = true
							ss = append(ss, s)
						}
						s.closers = 1
						ss = append(ss, s)
					}
					s := base
					s.closers = 1
					ss = append(ss, s)
					s = base
					s.cancel = "both"
					ss = append(ss, s)
					if oi == 0 && loops == "RW" {
						s = base
						s.end = io.EOF
						ss = append(ss, s)
						s.log = true
						ss = append(ss, s)
					}
				}
			}
		}
	}
	if !c.Thorough {
		// the larger channel only without failures
		k := ss[:0]
		for _, s := range ss {
			if s.inCap == 3 && s.outcomes != nil {
				continue
			}
			k = append(k, s)
		}
		ss = k
	}
	sequentialWrites(c)
	lifecycle(c, ss, bounds(c, 1, 1, 1), false, (*life).okWrites)
}

// c14: the log matches the traffic.
func c14(c *chk.C) {
	sequentialLog(c)
	var ss []scn
	for _, le := range []error{nil, errLog} {
		for _, rc := range []readCase{{rd("v1", "v2"), nil}, {rd("v1", "badcrc2", "signed"), io.EOF}, {withErr(rd("v1", "v2"), errRead), errRead2}} {
			for _, inv := range []bool{false, true} {
				for _, cons := range []int{-1, 1, -2} {
					base := scn{loops: "R", reads: rc.reads, end: rc.end, consumer: cons, log: true, logErr: le, invalid: inv}
					ss = append(ss, base)
					s := base
					s.closers = 1
					ss = append(ss, s)
					s = base
					s.cancel = "R"
					ss = append(ss, s)
				}
			}
		}
		for _, sc := range [][][]string{{{"v1", "signed", "max"}}, {{"v1", "v2"}, {"signed"}}} {
			for _, o := range [][]wout{nil, {{n: 0, err: errWrite}}, {{}, {n: 7, err: errWrite}}, {{}, {block: true}}} {
				base := scn{loops: "W", send: sc, outcomes: o, consumer: -2, log: true, logErr: le}
				if len(o) < 2 || !o[1].block {
					ss = append(ss, base)
				}
				s := base
				s.closers = 1
				ss = append(ss, s)
				s = base
				s.cancel = "W"
				s.inCap = 1
				ss = append(ss, s)
				s = base
				s.loops = "RW"
				s.reads = rd("v2", "v1")
				s.consumer = -1
				s.closers = 1
				ss = append(ss, s)
			}
		}
	}
	lifecycle(c, ss, bounds(c, 1, 2, 1), false, func(l *life, r *vsched.Result) string {
		if s := l.okLog(r); s != "" {
			return s
		}
		if s := l.okTraffic(r); s != "" {
			return s
		}
		// everything arrives and leaves when nothing closes the stream, whatever the logger returns
		if len(l.caused) == 0 && l.isClosed() {
			return "the stream closed itself for no reason"
		}
		return l.okWrites(r)
	})
}
