// Package time is the simulated counterpart of the standard package: the same
// types, with every clock reading and timer taken from the simulator.
package time

import (
	"time"

	"github.com/KitchenMishap/pudding-shed/verifsim/simrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

func base() time.Time { return time.Unix(1_700_000_000, 0).UTC() }

func Now() Time {
	if simrt.S == nil {
		return base()
	}
	return base().Add(time.Duration(simrt.S.Now()))
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { simrt.Sleep(int64(d)) }

func Unix(s, n int64) Time   { return time.Unix(s, n) }
func UnixMilli(m int64) Time { return time.UnixMilli(m) }
func UnixMicro(m int64) Time { return time.UnixMicro(m) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }

type Timer struct {
	C      *simrt.Chan[Time]
	f      func()
	cancel func() bool
}

func (t *Timer) arm(d Duration) {
	t.cancel = simrt.S.AfterFunc(int64(d), func() {
		if t.f != nil {
			simrt.S.GoFromTimer(t.f)
		} else {
			t.C.ForceSend(Now())
		}
	})
}
func NewTimer(d Duration) *Timer {
	t := &Timer{C: simrt.MakeChan[Time](1)}
	t.arm(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool { return t.cancel() }
func (t *Timer) Reset(d Duration) bool {
	a := t.cancel()
	t.arm(d)
	return a
}
func After(d Duration) *simrt.Chan[Time] { return NewTimer(d).C }

type Ticker struct {
	C      *simrt.Chan[Time]
	d      Duration
	cancel func() bool
	stop   bool
}

func (t *Ticker) arm() {
	t.cancel = simrt.S.AfterFunc(int64(t.d), func() {
		if !t.stop {
			t.C.ForceSend(Now())
			t.arm()
		}
	})
}
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: simrt.MakeChan[Time](1), d: d}
	t.arm()
	return t
}
func (t *Ticker) Stop()            { t.stop = true; t.cancel() }
func (t *Ticker) Reset(d Duration) { t.cancel(); t.d = d; t.stop = false; t.arm() }
func Tick(d Duration) *simrt.Chan[Time] {
	return NewTicker(d).C
}
