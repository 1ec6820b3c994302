// Package vtime replaces time under the scheduler: time passes only when nothing else can happen.
package vtime

import (
	"time"

	"verifmc/vsched"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC1123     = time.RFC1123
	RFC822      = time.RFC822
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	January     = time.January
	December    = time.December
	Sunday      = time.Sunday
	Saturday    = time.Saturday
)

var (
	UTC             = time.UTC
	Local           = time.Local
	Date            = time.Date
	Unix            = time.Unix
	UnixMilli       = time.UnixMilli
	UnixMicro       = time.UnixMicro
	Parse           = time.Parse
	ParseInLocation = time.ParseInLocation
	ParseDuration   = time.ParseDuration
	LoadLocation    = time.LoadLocation
	FixedZone       = time.FixedZone
)

var start = time.Now()

// Now is the virtual time.
func Now() Time {
	if !vsched.Active() {
		return time.Now().Add(time.Duration(vsched.Ask()))
	}
	return start.Add(time.Duration(vsched.Ask()))
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if !vsched.Active() {
		time.Sleep(d)
		return
	}
	if vsched.Killing() {
		return
	}
	fired := false
	vsched.AddTimer(int64(d), func() { fired = true })
	vsched.Block("sleep", func() bool { return fired }, nil)
}

// Timer is time.Timer.
type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	stop func() bool
}

func (t *Timer) arm(d Duration) {
	t.stop = vsched.AddTimer(int64(d), func() {
		if t.f != nil {
			vsched.GoLater(t.f)
			return
		}
		vsched.TrySend(t.c, Now())
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool { return t.stop() }
func (t *Timer) Reset(d Duration) bool {
	was := t.stop()
	t.arm(d)
	return was
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

// Ticker is time.Ticker; it ticks only a few times per execution.
type Ticker struct {
	C    <-chan Time
	c    chan Time
	d    Duration
	left int
	stop func() bool
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d, left: 4}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.stop = vsched.AddTimer(int64(t.d), func() {
		vsched.TrySend(t.c, Now())
		if t.left--; t.left > 0 {
			t.arm()
		}
	})
}

func (t *Ticker) Stop()            { t.stop() }
func (t *Ticker) Reset(d Duration) { t.stop(); t.d = d; t.arm() }
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
