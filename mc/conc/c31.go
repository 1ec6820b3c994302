package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"os"
	"strconv"
	"strings"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
	"verifmc/vsched"
)

// kindOf is what tells invalid frames apart in the reports: version, message id, system, component.
type kindOf struct{ ver, id, sys, comp int }

func kind(b []byte) kindOf {
	if b[0] == 0xfe {
		return kindOf{1, int(b[5]), int(b[3]), int(b[4])}
	}
	return kindOf{2, int(b[7]) | int(b[8])<<8 | int(b[9])<<16, int(b[5]), int(b[6])}
}

func (k kindOf) in(line string) bool {
	left := []int{k.ver, k.id, k.sys, k.comp}
	for _, f := range strings.FieldsFunc(line, func(r rune) bool { return r < '0' || r > '9' }) {
		n, err := strconv.Atoi(f)
		for i, x := range left {
			if err == nil && n == x {
				left = append(left[:i:i], left[i+1:]...)
				break
			}
		}
	}
	return len(left) == 0
}

// printed collects what the code under test prints, wherever it prints it.
type printed struct{ f *os.File }

func newPrinted() *printed {
	f, err := os.CreateTemp("", "c31-")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	return &printed{f}
}

func (p *printed) while(f func()) (lines []string) {
	p.f.Truncate(0)
	p.f.Seek(0, 0)
	o, e := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = p.f, p.f
	log.SetOutput(p.f)
	defer func() { os.Stdout, os.Stderr = o, e; log.SetOutput(e) }()
	f()
	p.f.Seek(0, 0)
	b, err := io.ReadAll(p.f)
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	return
}

// reports compares the reports with the kinds of invalid frames, in the order they came.
func reports(lines []string, in []byte) string {
	var kinds []kindOf
	seen := map[kindOf]bool{}
	for _, f := range ref.Scan(in, stdLookup) {
		if k := kind(f.Bytes); !f.Valid && !seen[k] {
			seen[k] = true
			kinds = append(kinds, k)
		}
	}
	for i, l := range lines {
		if i >= len(kinds) {
			return fmt.Sprintf("%d reports of %d kinds of invalid frames; the last: %q", len(lines), len(kinds), l)
		}
		if !kinds[i].in(l) {
			return fmt.Sprintf("report %d is %q, want one of version %d, message %d, system %d, component %d", i, l, kinds[i].ver, kinds[i].id, kinds[i].sys, kinds[i].comp)
		}
	}
	if len(lines) < len(kinds) {
		return fmt.Sprintf("%d reports of %d kinds of invalid frames; not reported: %v", len(lines), len(kinds), kinds[len(lines)])
	}
	return ""
}

func c31(c *chk.C) {
	p := newPrinted()
	one := func(in []byte, inv bool, what func() string) {
		w := &world{tr: &transport{reads: []item{{data: in}}, end: io.EOF}, in: make(chan m.Frame)}
		lines := p.while(func() { readAll(c, w, stdDialects, inv) })
		if s := reports(lines, in); s != "" {
			chk.Failf("%s, invalid frames requested: %v: %s", what(), inv, s)
		}
	}
	mk := func(ver int, id uint32, sys, comp, seq byte, n int, how string) []byte {
		var x *ref.Msg
		for _, e := range ref.ByDialect["common"] {
			if e.ID == id {
				x = e
			}
		}
		if x == nil {
			return ref.Frame(ref.Header{Version: ver, ID: id, Sys: sys, Comp: comp, Seq: seq}, payloadOf(n, 9), 0)
		}
		b := ref.Frame(ref.Header{Version: ver, ID: id, Sys: sys, Comp: comp, Seq: seq}, payloadOf(x.Base(), byte(n)|1), x.CRC)
		if how == "damaged" {
			b[len(b)-1] ^= 0x40
		}
		return b
	}
	// kinds differing in one component each, repeats of each in other clothes
	var fs []segment
	add := func(n string, b []byte) { fs = append(fs, segment{n, b}) }
	add("v1 message 0 of 1/2", mk(1, 0, 1, 2, 5, 3, "damaged"))
	add("the same, sequence and payload other", mk(1, 0, 1, 2, 77, 9, "damaged"))
	add("v2 message 0 of 1/2", mk(2, 0, 1, 2, 5, 3, "damaged"))
	add("v1 message 2 of 1/2", mk(1, 2, 1, 2, 5, 3, "damaged"))
	add("v1 message 0 of 2/1", mk(1, 0, 2, 1, 5, 3, "damaged"))
	add("v1 message 0 of 1/3", mk(1, 0, 1, 3, 5, 3, "damaged"))
	add("v2 message 256+0 of 1/2", mk(2, 0xabc100, 1, 2, 5, 3, "unknown"))
	add("v2 message 65536+0 of 1/2", mk(2, 0xab0000, 1, 2, 5, 4, "unknown"))
	add("valid v1 message 0 of 1/2", mk(1, 0, 1, 2, 5, 3, ""))
	add("valid v2 message 0 of 1/2", mk(2, 0, 1, 2, 5, 3, ""))
	depth := 5
	if c.Thorough {
		depth = 6
	}
	forSeqs(len(fs), 1, depth-1, func(idx []int) {
		idx = append([]int(nil), idx...)
		c.Case(func() string { return "frames " + names(fs, idx) + " and any other" }, func() {
			for last := -1; last < len(fs); last++ {
				all := idx
				if last >= 0 {
					all = append(idx[:len(idx):len(idx)], last)
				} else if len(idx) > 1 {
					continue
				}
				for _, inv := range []bool{false, true} {
					one(join(fs, all), inv, func() string { return names(fs, all) })
				}
				c.State(chk.HashS(31, fmt.Sprint(all)))
			}
		})
	})
	forSeqs(len(segs), 1, 2, func(idx []int) {
		idx = append([]int(nil), idx...)
		c.Case(func() string { return "segments " + names(segs, idx) + " twice" }, func() {
			for _, inv := range []bool{false, true} {
				one(cat(join(segs, idx), join(segs, idx)), inv, func() string { return names(segs, idx) + " twice" })
			}
			c.State(chk.HashS(311, fmt.Sprint(idx)))
		})
	})
	// every sender, twice
	for s := 0; s < 256; s += 4 {
		c.Case(func() string { return fmt.Sprintf("every component of systems %d to %d, twice", s, s+3) }, func() {
			var in []byte
			for k := 0; k < 2; k++ {
				for i := 0; i < 4; i++ {
					for x := 0; x < 256; x++ {
						in = append(in, mk(1+x&1, 0, byte(s+i), byte(x), byte(x+k), 3, "damaged")...)
					}
				}
			}
			one(in, false, func() string { return "all of them" })
			c.State(chk.HashS(312, fmt.Sprint(s)))
		})
	}
	c.Case(func() string { return "every system and component, twice, in one stream" }, func() {
		var in []byte
		b := mk(1, 0, 1, 1, 1, 3, "damaged")
		n := 1
		if c.Thorough {
			n = 4
		}
		for k := 0; k < 2; k++ {
			for i := 0; i < 65536*n; i++ {
				b[3], b[4], b[5] = byte(i>>8), byte(i), byte(200+i>>16)
				in = append(in, b...)
			}
		}
		one(in, false, func() string { return "all of them" })
	})
	c.Case(func() string { return "every id byte, twice" }, func() {
		var in []byte
		for k := 0; k < 2; k++ {
			for sh := 0; sh < 24; sh += 8 {
				for x := 0; x < 256; x++ {
					in = append(in, mk(2, 0x808080^uint32(x)<<sh, 1, 1, byte(x), 5, "unknown")...)
				}
			}
		}
		one(in, false, func() string { return "all of them" })
	})
	c.Case(func() string { return "one kind for long" }, func() {
		n := 5000
		if c.Thorough {
			n = 70000
		}
		var in []byte
		for i := 0; i < n; i++ {
			in = append(in, mk(1+i&1, 0, 1, 1, byte(i), i, "damaged")...)
			if i%3 == 0 {
				in = append(in, segOf["v1"]...)
			}
		}
		one(in, false, func() string { return "all of them" })
	})
	// two streams, each reports its own; the other's history does not count
	c.Case(func() string { return "two streams one after the other and side by side" }, func() {
		for _, a := range fs {
			for _, b := range fs {
				in := cat(a.b, b.b, a.b)
				one(in, false, func() string { return a.name + ", " + b.name })
				one(in, true, func() string { return a.name + ", " + b.name })
				lines := p.while(func() {
					once(c, func() {
						for i := 0; i < 2; i++ {
							w := &world{tr: &transport{reads: []item{{data: in}}, end: io.EOF}, in: make(chan m.Frame)}
							w.open(stdDialects, false)
							vsched.GoNamed("R", func() { w.fs.ReadContext(context.Background()) })
							vsched.GoNamed("consumer", w.drain)
						}
					})
				})
				n := map[string]int{}
				for _, l := range lines {
					n[l]++
				}
				want := len(p.while(func() {
					readAll(c, &world{tr: &transport{reads: []item{{data: in}}, end: io.EOF}, in: make(chan m.Frame)}, stdDialects, false)
				}))
				for l, k := range n {
					if k != 2 {
						chk.Failf("%s, %s: two streams report %q %d times", a.name, b.name, l, k)
					}
				}
				if len(n) != want {
					chk.Failf("%s, %s: two streams report %d kinds, one reports %d", a.name, b.name, len(n), want)
				}
			}
		}
	})
}
