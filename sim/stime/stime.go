// Package stime stands in for package time on the simulated clock.
package stime

import (
	"time"

	"verifsim/simrt"
)

type (
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RFC822      = time.RFC822
	RFC1123     = time.RFC1123
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

// Time carries a wall clock reading and, like time.Time from Now, a
// monotonic one.
type Time struct {
	wall time.Time
	mono int64
	has  bool
}

func Now() Time {
	simrt.SP(70)
	return Time{wall: time.Unix(0, simrt.WallNS()).UTC(), mono: simrt.NowNS(), has: true}
}

func Unix(s, ns int64) Time   { return Time{wall: time.Unix(s, ns).UTC()} }
func UnixMilli(ms int64) Time { return Time{wall: time.UnixMilli(ms).UTC()} }
func Date(y int, m Month, d, h, mi, s, ns int, l *Location) Time {
	return Time{wall: time.Date(y, m, d, h, mi, s, ns, l)}
}
func Parse(l, v string) (Time, error) { t, e := time.Parse(l, v); return Time{wall: t}, e }

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func (t Time) Sub(u Time) Duration {
	if t.has && u.has {
		return Duration(t.mono - u.mono)
	}
	return t.wall.Sub(u.wall)
}
func (t Time) Add(d Duration) Time {
	return Time{wall: t.wall.Add(d), mono: t.mono + int64(d), has: t.has}
}
func (t Time) After(u Time) bool {
	if t.has && u.has {
		return t.mono > u.mono
	}
	return t.wall.After(u.wall)
}
func (t Time) Before(u Time) bool {
	if t.has && u.has {
		return t.mono < u.mono
	}
	return t.wall.Before(u.wall)
}
func (t Time) Equal(u Time) bool {
	if t.has && u.has {
		return t.mono == u.mono
	}
	return t.wall.Equal(u.wall)
}
func (t Time) Compare(u Time) int {
	if t.Before(u) {
		return -1
	}
	if t.After(u) {
		return 1
	}
	return 0
}
func (t Time) UnixNano() int64          { return t.wall.UnixNano() }
func (t Time) Unix() int64              { return t.wall.Unix() }
func (t Time) UnixMilli() int64         { return t.wall.UnixMilli() }
func (t Time) UnixMicro() int64         { return t.wall.UnixMicro() }
func (t Time) IsZero() bool             { return t.wall.IsZero() }
func (t Time) Format(l string) string   { return t.wall.Format(l) }
func (t Time) String() string           { return t.wall.String() }
func (t Time) Year() int                { return t.wall.Year() }
func (t Time) Month() Month             { return t.wall.Month() }
func (t Time) Day() int                 { return t.wall.Day() }
func (t Time) Hour() int                { return t.wall.Hour() }
func (t Time) Minute() int              { return t.wall.Minute() }
func (t Time) Second() int              { return t.wall.Second() }
func (t Time) Nanosecond() int          { return t.wall.Nanosecond() }
func (t Time) Weekday() Weekday         { return t.wall.Weekday() }
func (t Time) YearDay() int             { return t.wall.YearDay() }
func (t Time) Round(d Duration) Time    { return Time{wall: t.wall.Round(d)} }
func (t Time) Truncate(d Duration) Time { return Time{wall: t.wall.Truncate(d)} }
func (t Time) UTC() Time                { return t }
func (t Time) Local() Time              { return t }
func (t Time) In(l *Location) Time      { return Time{wall: t.wall.In(l), mono: t.mono, has: t.has} }
func (t Time) AddDate(y, m, d int) Time { return Time{wall: t.wall.AddDate(y, m, d)} }

func (t Time) Date() (int, Month, int)                { return t.wall.Date() }
func (t Time) Clock() (int, int, int)                 { return t.wall.Clock() }
func (t Time) ISOWeek() (int, int)                    { return t.wall.ISOWeek() }
func (t Time) Zone() (string, int)                    { return t.wall.Zone() }
func (t Time) IsDST() bool                            { return false }
func (t Time) Location() *Location                    { return t.wall.Location() }
func (t Time) GoString() string                       { return t.wall.GoString() }
func (t Time) AppendFormat(b []byte, l string) []byte { return t.wall.AppendFormat(b, l) }
func (t Time) MarshalText() ([]byte, error)           { return t.wall.MarshalText() }
func (t Time) MarshalJSON() ([]byte, error)           { return t.wall.MarshalJSON() }
func UnixMicro(us int64) Time                         { return Time{wall: time.UnixMicro(us).UTC()} }
func FixedZone(n string, off int) *Location           { return time.FixedZone(n, off) }
func LoadLocation(n string) (*Location, error)        { return time.UTC, nil }
func ParseInLocation(l, v string, z *Location) (Time, error) {
	t, e := time.ParseInLocation(l, v, z)
	return Time{wall: t}, e
}

func Sleep(d Duration) { simrt.SleepNS(int64(d)) }

// Timer has the semantics of Go 1.23 and later: after Stop or Reset returns,
// no stale tick is received.
type Timer struct {
	C *simrt.Chan[Time]
	h *simrt.TimerHandle
	f func()
}

func NewTimer(d Duration) *Timer {
	simrt.SP(71)
	t := &Timer{C: simrt.NewChan[Time](1)}
	t.start(d)
	return t
}

func (t *Timer) start(d Duration) {
	t.h = simrt.AfterNS(int64(d), func() {
		if t.f != nil {
			simrt.SpawnFromTimer("AfterFunc", t.f)
			return
		}
		t.C.NonBlockingSend(Time{wall: time.Unix(0, simrt.WallNS()).UTC(), mono: simrt.NowNS(), has: true})
	})
}

func (t *Timer) Stop() bool {
	simrt.SP(72)
	if t.h == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	ok := t.h.Stop()
	if t.C != nil {
		ok = t.C.Drain() || ok
	}
	return ok
}

func (t *Timer) Reset(d Duration) bool {
	simrt.SP(73)
	if t.h == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	ok := t.h.Stop()
	if t.C != nil {
		ok = t.C.Drain() || ok
	}
	t.start(d)
	return ok
}

func After(d Duration) *simrt.Chan[Time] { return NewTimer(d).C }

func AfterFunc(d Duration, f func()) *Timer {
	simrt.SP(74)
	t := &Timer{f: f}
	t.start(d)
	return t
}

type Ticker struct {
	C *simrt.Chan[Time]
	h *simrt.TimerHandle
	d Duration
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: simrt.NewChan[Time](1), d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.h = simrt.AfterNS(int64(t.d), func() {
		t.C.NonBlockingSend(Time{wall: time.Unix(0, simrt.WallNS()).UTC(), mono: simrt.NowNS(), has: true})
		t.arm()
	})
}

func (t *Ticker) Stop() { simrt.SP(75); t.h.Stop(); t.C.Drain() }
func (t *Ticker) Reset(d Duration) {
	simrt.SP(75)
	t.h.Stop()
	t.C.Drain()
	t.d = d
	t.arm()
}

func Tick(d Duration) *simrt.Chan[Time] { return NewTicker(d).C }
