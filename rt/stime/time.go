// Package time stands in for the standard package time under simulation. Now
// carries the simulated wall clock and the simulated monotonic clock, so that
// a jump of the wall clock is seen by wall readings and not by differences of
// monotonic readings, exactly as with the real package.
package time

import (
	rtime "time"
	"unsafe"

	"vstrt/rt"
)

type (
	Duration   = rtime.Duration
	Time       = rtime.Time
	Month      = rtime.Month
	Weekday    = rtime.Weekday
	Location   = rtime.Location
	ParseError = rtime.ParseError
)

const (
	Nanosecond  = rtime.Nanosecond
	Microsecond = rtime.Microsecond
	Millisecond = rtime.Millisecond
	Second      = rtime.Second
	Minute      = rtime.Minute
	Hour        = rtime.Hour

	Layout      = rtime.Layout
	ANSIC       = rtime.ANSIC
	UnixDate    = rtime.UnixDate
	RFC822      = rtime.RFC822
	RFC3339     = rtime.RFC3339
	RFC3339Nano = rtime.RFC3339Nano
	Kitchen     = rtime.Kitchen
	Stamp       = rtime.Stamp
	StampMilli  = rtime.StampMilli
	StampMicro  = rtime.StampMicro
	StampNano   = rtime.StampNano
	DateTime    = rtime.DateTime
	DateOnly    = rtime.DateOnly
	TimeOnly    = rtime.TimeOnly

	January   = rtime.January
	February  = rtime.February
	March     = rtime.March
	April     = rtime.April
	May       = rtime.May
	June      = rtime.June
	July      = rtime.July
	August    = rtime.August
	September = rtime.September
	October   = rtime.October
	November  = rtime.November
	December  = rtime.December
)

var (
	UTC   = rtime.UTC
	Local = rtime.UTC
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *rtime.Location
}

const (
	hasMonotonic   = 1 << 63
	nsecShift      = 30
	wallToUnix1885 = 2682288000 // seconds from 1885-01-01 to 1970-01-01
)

func Now() Time {
	rt.Y(-50)
	w := rt.Wall()
	sec := w/1e9 + wallToUnix1885
	nsec := w % 1e9
	if nsec < 0 {
		nsec += 1e9
		sec--
	}
	var t Time
	r := (*rawTime)(unsafe.Pointer(&t))
	r.wall = hasMonotonic | uint64(sec)<<nsecShift | uint64(nsec)
	r.ext = rt.Mono()
	return t
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	if d > 0 {
		rt.Sleep(int64(d))
	}
}
func Unix(sec, nsec int64) Time                { return rtime.Unix(sec, nsec).UTC() }
func UnixMilli(ms int64) Time                  { return rtime.UnixMilli(ms).UTC() }
func UnixMicro(us int64) Time                  { return rtime.UnixMicro(us).UTC() }
func ParseDuration(s string) (Duration, error) { return rtime.ParseDuration(s) }
func Parse(layout, value string) (Time, error) { return rtime.Parse(layout, value) }
func FixedZone(name string, off int) *Location { return rtime.FixedZone(name, off) }
func Date(y int, mo Month, d, h, mi, s, ns int, l *Location) Time {
	return rtime.Date(y, mo, d, h, mi, s, ns, l)
}
