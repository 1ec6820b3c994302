package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"

	m "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/asluav"
	"github.com/botlink/go-mavlink2/autoquad"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/icarous"
	"github.com/botlink/go-mavlink2/matrixpilot"
	"github.com/botlink/go-mavlink2/paparazzi"
	"github.com/botlink/go-mavlink2/slugs"
	uavionix "github.com/botlink/go-mavlink2/uAvionix"
	"github.com/botlink/go-mavlink2/ualberta"

	"verifmc/chk"
	"verifmc/ref"
	"verifmc/vsched"
)

var allDialects = map[string]m.Dialect{
	"common": common.Dialect{}, "ardupilotmega": ardupilotmega.Dialect{}, "asluav": asluav.Dialect{},
	"autoquad": autoquad.Dialect{}, "icarous": icarous.Dialect{}, "matrixpilot": matrixpilot.Dialect{},
	"paparazzi": paparazzi.Dialect{}, "slugs": slugs.Dialect{}, "ualberta": ualberta.Dialect{}, "uavionix": uavionix.Dialect{},
}

// typeOf is the Go type of a message, known once one has been decoded. Nothing is decoded outside
// the explored executions, so that state built on first use is built under the scheduler.
var goTypes = map[*ref.Msg]reflect.Type{}

// coding is one thread's work and what it must give.
type coding struct {
	name string
	run  func() string // "" if the result is what it should be
}

func fill(e *ref.Msg, seed byte) []byte {
	p := make([]byte, e.Max)
	for i := range p {
		p[i] = seed + byte(i)*5
	}
	return e.Canon(p)
}

func wireOf(e *ref.Msg, p []byte, ver int) []byte {
	if ver == 1 {
		return p[:e.Base()]
	}
	return ref.Truncate(p)
}

func wanted(e *ref.Msg, p []byte, ver int) []byte {
	p = append([]byte(nil), p...)
	if ver == 1 {
		for i := e.Base(); i < len(p); i++ {
			p[i] = 0
		}
	}
	return p
}

func rawFrame(e *ref.Msg, p []byte, ver int, seq byte) []byte {
	return ref.Frame(ref.Header{Version: ver, Seq: seq, Sys: 3, Comp: 4, ID: e.ID}, wireOf(e, p, ver), e.CRC)
}

// decodes makes the work of validating and decoding one frame.
func decodes(ds m.Dialects, e *ref.Msg, p []byte, ver int, f m.Frame, raw []byte) coding {
	return coding{"decode " + e.Name, func() string {
		if err := ds.Validate(f); err != nil {
			return fmt.Sprintf("a valid %s frame does not validate: %v", e.Name, err)
		}
		msg, err := ds.GetMessage(f)
		if err != nil {
			return fmt.Sprintf("decoding %s: %v", e.Name, err)
		}
		v := reflect.ValueOf(msg)
		if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Kind() != reflect.Struct || msg.GetID() != e.ID || msg.GetMessageName() != e.Name {
			return fmt.Sprintf("decoding %s gave a %T", e.Name, msg)
		}
		if t := goTypes[e]; t != nil && t != v.Elem().Type() {
			return fmt.Sprintf("decoding %s gave a %T", e.Name, msg)
		}
		if got, want := e.Canon(e.Payload(v.Elem())), wanted(e, p, ver); !bytes.Equal(got, want) {
			return fmt.Sprintf("decoding %s gave fields % x, alone it gives % x", e.Name, got, want)
		}
		if x := v.Elem().FieldByName("HasExtensionFieldValues"); x.IsValid() && x.Bool() != (ver == 2 && e.HasExt) {
			return fmt.Sprintf("decoding %s gave extension flag %v", e.Name, x.Bool())
		}
		if !bytes.Equal(f.Bytes(), raw) {
			return fmt.Sprintf("decoding %s changed the frame", e.Name)
		}
		goTypes[e] = v.Elem().Type()
		return ""
	}}
}

// packs makes the work of packing one message.
func packs(ds m.Dialects, e *ref.Msg, p []byte, ver int, seq byte) coding {
	v := reflect.New(goTypes[e])
	e.Fill(v.Elem(), p)
	if e.Variable {
		v.Elem().FieldByName("PayloadLength").SetUint(uint64(e.Max - 5))
	}
	msg := v.Interface().(m.Message)
	return coding{"pack " + e.Name, func() string {
		f, err := ds.GetFrame(ver, 3, 4, seq, msg)
		if err != nil {
			return fmt.Sprintf("packing %s: %v", e.Name, err)
		}
		if want := rawFrame(e, p, ver, seq); !bytes.Equal(f.Bytes(), want) {
			return fmt.Sprintf("packing %s gave % x, alone it gives % x", e.Name, f.Bytes(), want)
		}
		if got := e.Canon(e.Payload(v.Elem())); !bytes.Equal(got, p) {
			return fmt.Sprintf("packing %s changed the message", e.Name)
		}
		return ""
	}}
}

// together explores the works on threads of their own. What a work found is judged again when all
// have ended: a result must not change afterwards.
func together(c *chk.C, b vsched.Bounds, lim int, mk func() []coding) {
	var bad []string
	o := vsched.Options{StmtPoints: true, SiteLimit: lim, RaceDetect: true}
	var n int
	var done []bool
	explore(c, o, b, func() func() {
		ws := mk()
		bad = make([]string, len(ws))
		done = make([]bool, len(ws))
		n = len(ws)
		return func() {
			for i, w := range ws {
				vsched.GoQuiet(w.name, func() { bad[i] = w.run(); done[i] = true })
			}
		}
	}, func(r *vsched.Result) string {
		for i := 0; i < n; i++ {
			if bad[i] != "" {
				return bad[i]
			}
			if !done[i] {
				return "a coding operation does not end: " + blocked(r)
			}
		}
		return ""
	})
}

func c23(c *chk.C) {
	var ds []string
	for d := range allDialects {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	type job struct{ e, x *ref.Msg }
	var jobs []job
	for _, d := range ds {
		var es []*ref.Msg
		for _, e := range ref.ByDialect[d] {
			es = append(es, e)
		}
		sort.Slice(es, func(i, j int) bool { return es[i].ID < es[j].ID })
		for i, e := range es {
			jobs = append(jobs, job{e, es[(i+1)%len(es)]})
		}
	}
	b := vsched.Bounds{Preemptions: 1, Free: 1, Sel: 1, MaxExec: 200000}
	lim := 2
	for ji, j := range jobs {
		e, x := j.e, j.x
		d := allDialects[e.Dialect]
		other := allDialects[ds[(ji+1)%len(ds)]]
		if ref.ByDialect[ds[(ji+1)%len(ds)]][e.ID] != nil || ref.ByDialect[ds[(ji+1)%len(ds)]][x.ID] != nil {
			other = d
		}
		list := m.Dialects{other, d} // shared by all threads
		vers := []int{2}
		if e.ID <= 255 && x.ID <= 255 {
			vers = []int{2, 1}
		}
		for _, ver := range vers {
			step := ""
			c.Case(func() string {
				return fmt.Sprintf("%s %s and %s, version %d: %s", e.Dialect, e.Name, x.Name, ver, step)
			}, func() {
				p1, p2, q := fill(e, 3), fill(e, 77), fill(x, 9)
				dec := func(y *ref.Msg, p []byte) coding {
					raw := rawFrame(y, p, ver, 1)
					return decodes(list, y, p, ver, frameOf(rawFrame(y, p, ver, 1)), raw)
				}
				run := func(name string, b vsched.Bounds, lim int, mk func() []coding) {
					step = name
					together(c, b, lim, mk)
				}
				both := func(b vsched.Bounds, lim int) {
					run("two frames decoded", b, lim, func() []coding { return []coding{dec(e, p1), dec(e, p2)} })
					run("one frame decoded twice", b, lim, func() []coding {
						raw := rawFrame(e, p1, ver, 1)
						f := frameOf(append([]byte(nil), raw...))
						return []coding{decodes(list, e, p1, ver, f, raw), decodes(list, e, p1, ver, f, raw)}
					})
					run("frames of two messages decoded", b, lim, func() []coding { return []coding{dec(e, p1), dec(x, q)} })
					if goTypes[e] == nil || goTypes[x] == nil {
						return
					}
					run("two messages packed", b, lim, func() []coding { return []coding{packs(list, e, p1, ver, 1), packs(list, e, p2, ver, 2)} })
					run("messages of two kinds packed", b, lim, func() []coding { return []coding{packs(list, e, p1, ver, 1), packs(list, x, q, ver, 2)} })
					run("one packed, one decoded", b, lim, func() []coding { return []coding{packs(list, e, p1, ver, 1), dec(e, p2)} })
					run("one packed, another kind decoded", b, lim, func() []coding { return []coding{packs(list, x, q, ver, 1), dec(e, p2)} })
				}
				both(b, lim)
				if c.Thorough {
					both(vsched.Bounds{Preemptions: 2, Free: 1, Sel: 1, MaxExec: 6000}, 1)
				}
			})
		}
	}
	// three threads, unknown messages, invalid frames, checksums, frames made from bytes
	hb, st := msg("common", "Heartbeat"), msg("common", "SystemTime")
	for _, ver := range []int{1, 2} {
		c.Case(func() string { return fmt.Sprintf("three threads and unknown messages, version %d", ver) }, func() {
			list := m.Dialects{common.Dialect{}, ardupilotmega.Dialect{}}
			p, q := fill(hb, 3), fill(st, 9)
			raw := rawFrame(hb, p, ver, 1)
			unk := ref.Frame(ref.Header{Version: ver, Seq: 1, Sys: 2, Comp: 3, ID: 199}, []byte{1, 2, 3}, 7)
			unknown := func(f m.Frame) coding {
				return coding{"unknown", func() string {
					if err := list.Validate(f); err != m.ErrUnknownMessage {
						return fmt.Sprintf("validating an unknown message: %v", err)
					}
					x, err := list.GetMessage(f)
					u, ok := x.(*m.UnknownMessage)
					if err != m.ErrUnknownMessage || !ok || u.GetID() != 199 {
						return fmt.Sprintf("decoding an unknown message: %v, %v", x, err)
					}
					o, err := u.Write(ver)
					if err != nil || !bytes.Equal(o, []byte{1, 2, 3}) {
						return fmt.Sprintf("the unknown message has payload % x (%v)", o, err)
					}
					return ""
				}}
			}
			invalid := coding{"invalid", func() string {
				b := append([]byte(nil), raw...)
				b[len(b)-1] ^= 1
				if err := list.Validate(frameOf(b)); err != m.ErrInvalidChecksum {
					return fmt.Sprintf("validating a damaged frame: %v", err)
				}
				return ""
			}}
			fromBytes := func() coding {
				return coding{"frame from bytes", func() string {
					f, err := m.FrameFromBytes(raw, uint16(len(raw)), true)
					if err != nil || !bytes.Equal(f.Bytes(), raw) {
						return fmt.Sprintf("FrameFromBytes: %v, %v", f, err)
					}
					return ""
				}}
			}
			sum := func(b []byte) coding {
				return coding{"checksum", func() string {
					var h m.X25CRC
					h.Reset()
					h.Write(b)
					w := ref.CRC(b)
					if s := h.Sum(nil); s[0] != byte(w) || s[1] != byte(w>>8) {
						return fmt.Sprintf("the checksum of % x is % x, want %04x", b, s, w)
					}
					return ""
				}}
			}
			dec := func(y *ref.Msg, p []byte) coding {
				return decodes(list, y, p, ver, frameOf(rawFrame(y, p, ver, 1)), rawFrame(y, p, ver, 1))
			}
			three := b
			together(c, three, lim, func() []coding { return []coding{dec(hb, p), dec(st, q), unknown(frameOf(unk))} })
			together(c, three, lim, func() []coding { return []coding{packs(list, hb, p, ver, 1), packs(list, st, q, ver, 2), dec(hb, p)} })
			f := frameOf(append([]byte(nil), unk...))
			together(c, three, lim, func() []coding { return []coding{unknown(f), unknown(f), invalid} })
			together(c, three, lim, func() []coding { return []coding{fromBytes(), fromBytes(), dec(hb, p)} })
			together(c, three, lim, func() []coding { return []coding{sum(raw), sum(unk), packs(list, hb, p, ver, 1)} })
		})
	}
}
