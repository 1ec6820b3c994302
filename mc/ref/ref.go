// Package ref is the reference model of the MAVLink codec: message definitions (table.txt), the
// X.25 checksum, frame layout and the scan of a byte stream. It shares no code with go-mavlink2.
package ref

import (
	_ "embed"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
)

//go:embed table.txt
var table string

// Field of a message definition.
type Field struct {
	Name string
	Kind string // uint8 .. float64; char is a text byte
	Len  int    // array length, 0 for a scalar
	Off  int
	Size int // bytes in total
	Unit int // bytes of one element
	Ext  bool
}

// Msg is a message definition.
type Msg struct {
	Dialect  string
	ID       uint32
	Name     string
	CRC      byte
	Min, Max int
	Fields   []Field
	HasExt   bool
	Variable bool // V2Extension
}

// Base is the length of the base fields.
func (m *Msg) Base() int {
	if m.Variable {
		return m.Max
	}
	return m.Min
}

var units = map[string]int{"uint8": 1, "int8": 1, "char": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "float32": 4, "uint64": 8, "int64": 8, "float64": 8}

// Table of all messages of all dialects.
var Table []*Msg

// ByDialect maps dialect and id to the definition.
var ByDialect = map[string]map[uint32]*Msg{}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

func init() {
	for _, l := range strings.Split(strings.TrimSpace(table), "\n") {
		w := strings.Fields(l)
		m := &Msg{Dialect: w[0], ID: uint32(atoi(w[1])), Name: w[2], CRC: byte(atoi(w[3])), Min: atoi(w[4]), Max: atoi(w[5])}
		m.Variable = m.ID == 248
		off := 0
		for _, f := range w[6:] {
			p := strings.Split(f, ":")
			n := atoi(p[2])
			u := units[p[1]]
			sz := u
			if n > 0 {
				sz = u * n
			}
			m.Fields = append(m.Fields, Field{Name: p[0], Kind: p[1], Len: n, Off: off, Size: sz, Unit: u, Ext: off >= m.Min && !m.Variable})
			off += sz
		}
		if off != m.Max {
			panic(l)
		}
		m.HasExt = m.Min != m.Max && !m.Variable
		Table = append(Table, m)
		if ByDialect[m.Dialect] == nil {
			ByDialect[m.Dialect] = map[uint32]*Msg{}
		}
		ByDialect[m.Dialect][m.ID] = m
	}
}

// CRC is CRC-16/MCRF4XX, computed bit by bit.
func CRC(parts ...[]byte) uint16 {
	c := uint16(0xffff)
	for _, p := range parts {
		for _, b := range p {
			c = CRCStep(c, b)
		}
	}
	return c
}

// CRCStep feeds one byte.
func CRCStep(c uint16, b byte) uint16 {
	c ^= uint16(b)
	for i := 0; i < 8; i++ {
		if c&1 != 0 {
			c = c>>1 ^ 0x8408
		} else {
			c >>= 1
		}
	}
	return c
}

var crcTab [256]uint16

func init() {
	for i := range crcTab {
		crcTab[i] = CRCStep(0, byte(i))
	}
}

// FastCRC is CRC with a table made from CRCStep.
func FastCRC(c uint16, p []byte) uint16 {
	for _, b := range p {
		c = c>>8 ^ crcTab[byte(c)^b]
	}
	return c
}

// Header of a frame.
type Header struct {
	Version          int
	Incompat, Compat byte
	Seq, Sys, Comp   byte
	ID               uint32
}

// Frame builds a frame; signed frames get a fixed signature.
func Frame(h Header, payload []byte, crcExtra byte) []byte {
	var b []byte
	if h.Version == 1 {
		b = append(b, 0xfe, byte(len(payload)), h.Seq, h.Sys, h.Comp, byte(h.ID))
	} else {
		b = append(b, 0xfd, byte(len(payload)), h.Incompat, h.Compat, h.Seq, h.Sys, h.Comp, byte(h.ID), byte(h.ID>>8), byte(h.ID>>16))
	}
	b = append(b, payload...)
	c := FastCRC(FastCRC(0xffff, b[1:]), []byte{crcExtra})
	b = append(b, byte(c), byte(c>>8))
	if h.Version == 2 && h.Incompat&1 != 0 {
		for i := byte(0); i < 13; i++ {
			b = append(b, 0xa0+i)
		}
	}
	return b
}

// Truncate cuts trailing zeros as MAVLink 2 does; the first byte always stays.
func Truncate(p []byte) []byte {
	n := len(p)
	for n > 1 && p[n-1] == 0 {
		n--
	}
	return p[:n]
}

// CandLen is the length of the candidate frame at the start of b (at least 3 bytes), 0 if none starts there.
func CandLen(b []byte) int {
	switch b[0] {
	case 0xfd:
		n := int(b[1]) + 12
		if b[2]&1 != 0 {
			n += 13
		}
		return n
	case 0xfe:
		return int(b[1]) + 8
	}
	return 0
}

// Verdict of validation.
type Verdict int

// Verdicts, in the order in which conditions are examined.
const (
	Valid Verdict = iota
	Unknown
	TooShort
	TooLong
	BadCRC
)

func (v Verdict) String() string {
	return [...]string{"valid", "unknown message", "too short", "too long", "bad checksum"}[v]
}

// Meta of a message id.
type Meta struct {
	CRC      byte
	Min, Max int
}

// Lookup finds the meta data of an id.
type Lookup func(id uint32) (Meta, bool)

// Validate a complete frame.
func Validate(b []byte, l Lookup) Verdict {
	n := int(b[1])
	var id uint32
	h := 10
	if b[0] == 0xfe {
		id, h = uint32(b[5]), 6
	} else {
		id = uint32(b[7]) | uint32(b[8])<<8 | uint32(b[9])<<16
	}
	m, ok := l(id)
	if !ok {
		return Unknown
	}
	if b[0] == 0xfe && n < m.Min {
		return TooShort
	}
	if n > m.Max {
		return TooLong
	}
	c := FastCRC(0xffff, b[1:h+n])
	c = FastCRC(c, []byte{m.CRC})
	if byte(c) != b[h+n] || byte(c>>8) != b[h+n+1] {
		return BadCRC
	}
	return Valid
}

// Found is one candidate met by Scan.
type Found struct {
	Off   int
	Bytes []byte
	Valid bool
}

// Scan is the reference scan of a complete input: every candidate met, valid or not.
func Scan(b []byte, l Lookup) (out []Found) {
	i := 0
	for len(b)-i >= 3 {
		n := CandLen(b[i:])
		if n == 0 {
			i++
			continue
		}
		if len(b)-i < n {
			return
		}
		f := Found{Off: i, Bytes: append([]byte(nil), b[i:i+n]...), Valid: Validate(b[i:i+n], l) == Valid}
		out = append(out, f)
		if f.Valid {
			i += n
		} else {
			i++
		}
	}
	return
}

// LookupOf consults the named dialects in order.
func LookupOf(dialects ...string) Lookup {
	return func(id uint32) (Meta, bool) {
		for _, d := range dialects {
			if m := ByDialect[d][id]; m != nil {
				return Meta{m.CRC, m.Min, m.Max}, true
			}
		}
		return Meta{}, false
	}
}

func goKind(k string) reflect.Kind {
	switch k {
	case "uint8", "char":
		return reflect.Uint8
	case "int8":
		return reflect.Int8
	case "uint16":
		return reflect.Uint16
	case "int16":
		return reflect.Int16
	case "uint32":
		return reflect.Uint32
	case "int32":
		return reflect.Int32
	case "uint64":
		return reflect.Uint64
	case "int64":
		return reflect.Int64
	case "float32":
		return reflect.Float32
	case "float64":
		return reflect.Float64
	}
	panic(k)
}

// Elem returns element i of the field in message struct v.
func (f *Field) Elem(v reflect.Value, i int) reflect.Value {
	x := v.FieldByName(f.Name)
	if !x.IsValid() {
		panic(fmt.Sprintf("no field %s in %s", f.Name, v.Type()))
	}
	if f.Len > 0 {
		if x.Kind() != reflect.Array || x.Len() != f.Len {
			panic(fmt.Sprintf("field %s of %s is a %s, not an array of %d", f.Name, v.Type(), x.Type(), f.Len))
		}
		x = x.Index(i)
	}
	if x.Kind() != goKind(f.Kind) {
		panic(fmt.Sprintf("field %s of %s is a %s, not a %s", f.Name, v.Type(), x.Kind(), f.Kind))
	}
	return x
}

// N is the number of elements.
func (f *Field) N() int {
	if f.Len > 0 {
		return f.Len
	}
	return 1
}

// Payload reads the fields of the message struct into a full-length payload.
func (m *Msg) Payload(v reflect.Value) []byte {
	out := make([]byte, m.Max)
	for i := range m.Fields {
		f := &m.Fields[i]
		if f.Unit == 1 && f.Len > 0 {
			if x := v.FieldByName(f.Name); x.IsValid() && x.Kind() == reflect.Array && x.Len() == f.Len && x.Type().Elem().Kind() == reflect.Uint8 && goKind(f.Kind) == reflect.Uint8 {
				copy(out[f.Off:], x.Slice(0, f.Len).Bytes())
				continue
			}
		}
		for j := 0; j < f.N(); j++ {
			x := f.Elem(v, j)
			var u uint64
			switch p := x.Addr().Interface().(type) {
			case *float32:
				u = uint64(math.Float32bits(*p))
			case *float64:
				u = math.Float64bits(*p)
			default:
				if x.CanInt() {
					u = uint64(x.Int())
				} else {
					u = x.Uint()
				}
			}
			put(out[f.Off+j*f.Unit:], u, f.Unit)
		}
	}
	return out
}

// Fill sets the fields of the message struct from a full-length payload.
func (m *Msg) Fill(v reflect.Value, payload []byte) {
	for i := range m.Fields {
		f := &m.Fields[i]
		for j := 0; j < f.N(); j++ {
			x := f.Elem(v, j)
			u := get(payload[f.Off+j*f.Unit:], f.Unit)
			switch p := x.Addr().Interface().(type) {
			case *float32:
				*p = math.Float32frombits(uint32(u))
			case *float64:
				*p = math.Float64frombits(u)
			default:
				if x.CanInt() {
					s := 64 - 8*uint(f.Unit)
					x.SetInt(int64(u<<s) >> s)
				} else {
					x.SetUint(u)
				}
			}
		}
	}
}

func put(b []byte, u uint64, n int) {
	for i := 0; i < n; i++ {
		b[i] = byte(u >> (8 * uint(i)))
	}
}

func get(b []byte, n int) (u uint64) {
	for i := 0; i < n; i++ {
		u |= uint64(b[i]) << (8 * uint(i))
	}
	return
}

// Canon makes every NaN in a full-length payload quiet: conversions in Go's encoding/binary do
// that to signalling NaNs, and no Go program can tell them apart portably.
func (m *Msg) Canon(p []byte) []byte {
	p = append([]byte(nil), p...)
	for i := range m.Fields {
		f := &m.Fields[i]
		for j := 0; j < f.N(); j++ {
			o := f.Off + j*f.Unit
			switch f.Kind {
			case "float32":
				u := binary.LittleEndian.Uint32(p[o:])
				if u&0x7f800000 == 0x7f800000 && u&0x7fffff != 0 {
					binary.LittleEndian.PutUint32(p[o:], u|0x400000)
				}
			case "float64":
				u := binary.LittleEndian.Uint64(p[o:])
				if u&0x7ff0000000000000 == 0x7ff0000000000000 && u&0xfffffffffffff != 0 {
					binary.LittleEndian.PutUint64(p[o:], u|0x8000000000000)
				}
			}
		}
	}
	return p
}
