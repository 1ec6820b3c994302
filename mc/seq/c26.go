package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	m "github.com/botlink/go-mavlink2"
	"verifmc/chk"
	"verifmc/ref"
)

// line splits "Field:   value [unit]" given the expected value.
func checkLine(e *entry, line, name, val string, units map[string]string) {
	pre := name + ":"
	if !strings.HasPrefix(line, pre) {
		chk.Failf("%s: line %q should be field %s", e, line, name)
	}
	rest := line[len(pre):]
	t := strings.TrimLeft(rest, " \t")
	if t == rest {
		chk.Failf("%s: no space before the value in %q", e, line)
	}
	if !strings.HasPrefix(t, val) {
		chk.Failf("%s: line %q should give the value %s", e, line, val)
	}
	unit := t[len(val):]
	if unit != "" && unit[0] != ' ' {
		chk.Failf("%s: line %q should give the value %s", e, line, val)
	}
	unit = strings.TrimRight(unit, " ")
	if u, ok := units[name]; ok && u != unit {
		chk.Failf("%s: line %q: what follows the value was %q before", e, line, u)
	}
	units[name] = unit
}

func (e *entry) checkText(c *chk.C, msg m.Message, p []byte, x bool, units map[string]string) {
	s, ok := msg.(fmt.Stringer)
	if !ok {
		chk.Failf("%s has no String method", e)
	}
	text := s.String()
	v := reflect.ValueOf(msg).Elem()
	c.Trans(1)
	if i := strings.Index(text, "%!"); i >= 0 {
		chk.Failf("%s: formatting error in %q", e, text[i:min(i+60, len(text))])
	}
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	if want := e.Dialect + "/" + e.Name; !strings.HasPrefix(lines[0], "Name:") || strings.TrimSpace(lines[0][5:]) != want {
		chk.Failf("%s: first line is %q, want the name %s", e, lines[0], want)
	}
	lines = lines[1:]
	n := 0
	for i := range e.Fields {
		f := &e.Fields[i]
		if f.Ext && !x {
			break
		}
		if n >= len(lines) {
			chk.Failf("%s: the text has no line for field %s: %q", e, f.Name, text)
		}
		checkLine(e, lines[n], f.Name, fmt.Sprintf("%v", v.FieldByName(f.Name).Interface()), units)
		n++
	}
	if e.Variable && n < len(lines) {
		checkLine(e, lines[n], "PayloadLength", fmt.Sprint(v.FieldByName("PayloadLength").Uint()), units)
		n++
	}
	if n != len(lines) {
		chk.Failf("%s: unexpected line %q", e, lines[n])
	}
}

func c26(c *chk.C) {
	vals := []byte{1, 9, 0x25, 0x80, 0x7f, 0xff}
	for _, e := range loaded(c) {
		e := e
		units := map[string]string{}
		cur := ""
		c.Case(func() string { return fmt.Sprintf("%s: %s", e, cur) }, func() {
			// one message that takes on all the values in turn, assigned and decoded
			var assigned, read m.Message
			try := func(p []byte, x bool) {
				x = x && e.HasExt
				ver := 1
				if e.ID > 255 || x {
					ver = 2
				}
				msg, _ := e.make(p, x)
				e.checkText(c, msg, p, x, units)
				if assigned == nil {
					assigned, _ = e.make(p, x)
				} else {
					reflect.ValueOf(assigned).Elem().Set(reflect.ValueOf(msg).Elem())
				}
				e.checkText(c, assigned, p, x, units)
				c.State(chk.Hash(uint64(e.ID), p, []byte(e.Dialect)))
				// decoded, when a frame can carry exactly this
				if x == (ver == 2 && e.HasExt) {
					w := p[:e.Base()]
					exp := e.zeroExt(p)
					if ver == 2 {
						w, exp = p, p
					}
					d, err := e.d.GetMessage(frameOf(ref.Frame(ref.Header{Version: ver, ID: e.ID}, w, e.CRC)))
					if err != nil {
						chk.Failf("decode: %v", err)
					}
					e.checkFields(d, exp, "decoding")
					e.checkText(c, d, exp, x, units)
					if read == nil {
						read = d
					} else if err := read.Read(frameOf(ref.Frame(ref.Header{Version: ver, ID: e.ID}, w, e.CRC))); err != nil {
						chk.Failf("decoding into a used message: %v", err)
					}
					e.checkText(c, read, exp, x, units)
				}
				c.Trace()
			}
			for _, x := range []bool{false, true} {
				if x && !e.HasExt {
					continue
				}
				for i, p := range patterns(e.Max) {
					cur = fmt.Sprintf("pattern %d, extensions %v", i, x)
					try(p, x)
				}
				for i := 0; i < e.Max; i++ {
					if !c.Thorough && i > 40 && i < e.Max-4 && i%9 != 0 {
						continue
					}
					for _, b := range vals {
						cur = fmt.Sprintf("byte %d is %02x, extensions %v", i, b, x)
						p := make([]byte, e.Max)
						p[i] = b
						try(p, x)
					}
				}
				for _, fl := range []float32{float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), -0.0, 1e-45, 3.4e38, 0.1, -123456.789} {
					cur = fmt.Sprintf("floats %v, extensions %v", fl, x)
					p := make([]byte, e.Max)
					for i := range e.Fields {
						f := &e.Fields[i]
						for j := 0; j < f.N(); j++ {
							o := f.Off + j*f.Unit
							switch f.Kind {
							case "float32":
								u := math.Float32bits(fl)
								p[o], p[o+1], p[o+2], p[o+3] = byte(u), byte(u>>8), byte(u>>16), byte(u>>24)
							case "float64":
								u := math.Float64bits(float64(fl))
								for k := uint(0); k < 8; k++ {
									p[o+int(k)] = byte(u >> (8 * k))
								}
							}
						}
					}
					try(p, x)
				}
			}
		})
	}
}
