// Command seq checks the sequential properties by enumerating operation sequences and inputs within
// bounds, running each on the implementation and comparing it with the reference model (ref).
package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"

	m "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/asluav"
	"github.com/botlink/go-mavlink2/autoquad"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/icarous"
	"github.com/botlink/go-mavlink2/matrixpilot"
	"github.com/botlink/go-mavlink2/paparazzi"
	"github.com/botlink/go-mavlink2/slugs"
	uavionix "github.com/botlink/go-mavlink2/uAvionix"
	"github.com/botlink/go-mavlink2/ualberta"

	"verifmc/chk"
	"verifmc/ref"
)

var dialectNames = []string{"common", "ardupilotmega", "asluav", "autoquad", "icarous", "matrixpilot", "paparazzi", "slugs", "ualberta", "uavionix"}

var dialects = map[string]m.Dialect{
	"common": common.Dialect{}, "ardupilotmega": ardupilotmega.Dialect{}, "asluav": asluav.Dialect{},
	"autoquad": autoquad.Dialect{}, "icarous": icarous.Dialect{}, "matrixpilot": matrixpilot.Dialect{},
	"paparazzi": paparazzi.Dialect{}, "slugs": slugs.Dialect{}, "ualberta": ualberta.Dialect{}, "uavionix": uavionix.Dialect{},
}

func main() {
	chk.Main([]*chk.Check{
		{ID: "C01", Run: c01, Bounds: "every input of 3 bytes from reset (every checksum state with every next byte); every composition of every input of up to 5 bytes over 6 byte values into writes, with sums and resets in between (operation sequences to depth 7, 8 thorough); two hashes interleaved; inputs of 0..600 bytes with every split in two, and long inputs up to 70000 bytes"},
		{ID: "C02", Run: c02, Bounds: "all 329 messages x both versions x {9 payload patterns, each single byte set} x {each header byte over all 256 values, all triples of 8 boundary values}; every pair of header bytes for 5 messages, HEARTBEAT with 8 further values for every system and component (all 2^24 headers thorough); every checksum; each also through one message object that takes on all the values; a generic message with every payload length 0..255 and ids at every bit"},
		{ID: "C03", Run: c03, Bounds: "all 329 messages: every payload byte over all 256 values on 3 backgrounds (5 thorough), decode and encode, both versions; about 100 to 500 special values of every scalar field and array end, 5 to 7 values of every two fields; every value of every two adjacent bytes (thorough); every id 0..2^24-1 (and the 2^32 boundary) of every dialect against the definition table"},
		{ID: "C04", Run: c04, Bounds: "truncation of every string over {0,1,0x80} up to length 10 (12 thorough) and every (length, last non-zero) pair up to 300; all messages x every last-non-zero position x every cut point"},
		{ID: "C05", Run: c05, Bounds: "all messages x versions {-2^31,-1,0..5,254..258,2^16+1,2^16+2,2^32+1,2^32+2} for encode, decode and pack; all messages x both versions x every payload length 0..255 for the extension flag; every extension byte through both versions"},
		{ID: "C06", Run: c06, Bounds: "declared min/max/CRC extra product x both versions x every payload length 0..255 x {right, wrong} checksum; all 65536 checksums; all single and double bit flips and bursts up to 16 bits of frames of every message up to a length; precedence of all error combinations; every value of every header byte"},
		{ID: "C07", Run: c07, Bounds: "both versions x every payload length x every incompatibility flag byte; every header byte over 256 values; all 2^24 ids; FrameFromBytes: every raw length 0..300 x every start byte x 14 copy lengths x copy or not, input with and without spare capacity"},
		{ID: "C19", Run: c19, Bounds: "lists of up to 6 dialects (7 thorough) over 7 behaviours for meta and decode, short lists over 19 behaviours including every error of the library; lists of up to 40 (300 thorough) in which each place decides; all ordered pairs and triples of the 10 real dialects x every id any of them defines; the message of every dialect packed by every list"},
		{ID: "C20", Run: c20, Bounds: "every id 0..2^24-1 not defined by the list (all, none, each of the ten dialects), payload lengths 0..255 x both versions; aliasing; other frames of the same id decoded in between"},
		{ID: "C21", Run: c21, Bounds: "every text field of every message: all sequences of up to 3 sets (4 thorough) over 12 strings around the field size with embedded zeros, from a dirty message, with encode/decode round trips; every text length over the same or a like text with bytes behind its end; pairs of text fields of one message interleaved; strings with multi-byte characters cut at the field size; values sharing memory"},
		{ID: "C22", Run: c22, Bounds: "all messages: operation sequences of length 3 (4 thorough) over pack/encode/validate/decode/decode into used/render of the message and of two other messages, results compared with the model and all earlier results re-read after each step; a message decoded into one used before: every pair of payload lengths, versions and old contents; every message coded 600 times (5000 thorough), two of them 66136 and two 6000 times (66136), with all results kept and half of them written over"},
		{ID: "C26", Run: c26, Bounds: "all messages x extension flag x every single byte at 6 values, 8 fill patterns, special floats; every line of the text compared; new messages, and one that takes on all the values, assigned and decoded"},
		{ID: "C28", Run: c28, Bounds: "payload lengths 0..300 x 5 contents x header fields x both versions, from fresh and used messages (all pairs of lengths at boundaries); received frames of every length 0..255 with every truncation"},
		{ID: "C32", Run: c32, Bounds: "both versions x every payload length x payload patterns x signed or not; every value of every header byte, every pair of system and component id, every checksum, every value of each signature byte; every triple of frames of different lengths rendered one after another; memory of its own and memory that held other frames"},
	})
}

// errIs compares errors by identity.
func errIs(got, want error) bool { return got == want }

type entry struct {
	*ref.Msg
	d   m.Dialect
	typ reflect.Type // struct type
	one m.Message    // see again
}

// again gives one and the same message the values of msg: what it held before must not matter.
func (e *entry) again(msg m.Message) m.Message {
	if e.one == nil {
		e.one, _ = e.fresh()
	}
	reflect.ValueOf(e.one).Elem().Set(reflect.ValueOf(msg).Elem())
	return e.one
}

var recycledBytes [4096]byte

// recycled makes a frame in memory that held other frames before.
func recycled(b []byte) m.Frame {
	return frameOf(recycledBytes[:copy(recycledBytes[:], b):len(b)])
}

var entries []*entry

// load builds the list of messages, obtaining Go types by decoding.
func load() []*entry {
	if entries != nil {
		return entries
	}
	for _, r := range ref.Table {
		e := &entry{Msg: r, d: dialects[r.Dialect]}
		f := m.FrameV2(ref.Frame(ref.Header{Version: 2, ID: r.ID}, []byte{0}, r.CRC))
		msg, err := e.d.GetMessage(f)
		if err != nil || msg == nil {
			chk.Failf("%s id %d (%s): no decoder: %v", r.Dialect, r.ID, r.Name, err)
		}
		v := reflect.ValueOf(msg)
		if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
			chk.Failf("%s id %d: message is a %T", r.Dialect, r.ID, msg)
		}
		e.typ = v.Elem().Type()
		entries = append(entries, e)
	}
	return entries
}

// loaded wraps load as a case of its own so that failures are reported.
func loaded(c *chk.C) []*entry {
	var out []*entry
	func() {
		c.Case(func() string { return "decode an empty message of every id" }, func() { out = load() })
	}()
	if out == nil {
		out = load()
	}
	return out
}

func (e *entry) fresh() (m.Message, reflect.Value) {
	p := reflect.New(e.typ)
	return p.Interface().(m.Message), p.Elem()
}

// make builds a message from a full-length payload.
func (e *entry) make(p []byte, ext bool) (m.Message, reflect.Value) {
	msg, v := e.fresh()
	e.Fill(v, e.Canon(p))
	v.FieldByName("HasExtensionFieldValues").SetBool(ext)
	if e.Variable {
		v.FieldByName("PayloadLength").SetUint(uint64(e.Max - 5))
	}
	return msg, v
}

// wire is the expected encoding.
func (e *entry) wire(p []byte, ver int) []byte {
	p = e.Canon(p)
	if ver == 1 {
		return p[:e.Base()]
	}
	return ref.Truncate(p)
}

func (e *entry) String() string { return fmt.Sprintf("%s.%s (%d)", e.Dialect, e.Name, e.ID) }

// versions that can carry the message.
func (e *entry) versions() []int {
	if e.ID > 255 {
		return []int{2}
	}
	return []int{1, 2}
}

// zeroExt clears the extension part.
func (e *entry) zeroExt(p []byte) []byte {
	p = append([]byte(nil), p...)
	for i := e.Base(); i < len(p); i++ {
		p[i] = 0
	}
	return p
}

// checkFields compares message fields with a full-length payload.
func (e *entry) checkFields(msg m.Message, want []byte, what string) {
	v := reflect.ValueOf(msg)
	if v.Kind() != reflect.Ptr || v.IsNil() || v.Elem().Type() != e.typ {
		chk.Failf("%s: %s: got a %T, want *%s", e, what, msg, e.typ)
	}
	got := e.Canon(e.Payload(v.Elem()))
	want = e.Canon(want)
	if !bytes.Equal(got, want) {
		for i := range e.Fields {
			f := &e.Fields[i]
			if !bytes.Equal(got[f.Off:f.Off+f.Size], want[f.Off:f.Off+f.Size]) {
				chk.Failf("%s: %s: field %s is % x, want % x", e, what, f.Name, got[f.Off:f.Off+f.Size], want[f.Off:f.Off+f.Size])
			}
		}
	}
}

func ext(msg m.Message) bool {
	return reflect.ValueOf(msg).Elem().FieldByName("HasExtensionFieldValues").Bool()
}

func (e *entry) checkExt(msg m.Message, ver int, what string) {
	want := ver == 2 && e.HasExt
	if got := ext(msg); got != want {
		chk.Failf("%s: %s: HasExtensionFieldValues is %v, want %v", e, what, got, want)
	}
}

// frameOf makes a frame of the version from raw bytes, without the code under test.
func frameOf(b []byte) m.Frame {
	if b[0] == 0xfe {
		return m.FrameV1(b)
	}
	return m.FrameV2(b)
}

// cat gives patterns of a payload.
func patterns(n int) [][]byte {
	fill := func(f func(i int) byte) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = f(i)
		}
		return b
	}
	return [][]byte{
		fill(func(i int) byte { return byte(i + 1) }),
		fill(func(i int) byte { return 0 }),
		fill(func(i int) byte { return 0xff }),
		fill(func(i int) byte { return 0x80 }),
		fill(func(i int) byte { return byte(255 - i) }),
		fill(func(i int) byte { return byte(i*7+3) ^ byte(i>>3) }),
		fill(func(i int) byte { return []byte{0xfd, 0xfe}[i&1] }),
		fill(func(i int) byte {
			if i < n/2 {
				return byte(i + 1)
			}
			return 0
		}),
		fill(func(i int) byte {
			if i >= n/2 {
				return byte(i + 1)
			}
			return 0
		}),
	}
}

func names(ds []string) string { return fmt.Sprint(ds) }

func sortedIDs(d string) []uint32 {
	var out []uint32
	for id := range ref.ByDialect[d] {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}
