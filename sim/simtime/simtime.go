// Package simtime replaces package time in the instrumented packages: the clock
// is the simulated one.
package simtime

import (
	"sync/atomic"
	"time"

	"verifsim/simrt"
)

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)

const (
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly

	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December
	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

func Now() Time                                { simrt.Y(); return time.Unix(0, simrt.WallNow()).UTC() }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Sleep(d Duration)                         { simrt.Sleep(int64(d)) }
func Unix(s, n int64) Time                     { return time.Unix(s, n) }
func UnixMilli(m int64) Time                   { return time.UnixMilli(m) }
func UnixMicro(m int64) Time                   { return time.UnixMicro(m) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return time.ParseInLocation(l, v, loc)
}
func Date(y int, m Month, d, h, mi, s, n int, loc *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, loc)
}
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }

// Timer and Ticker are tasks that sleep in simulated time.
type Timer struct {
	C   <-chan Time
	c   chan Time
	f   func()
	gen atomic.Int64 // odd while the timer runs
}

func (t *Timer) start(d Duration) {
	g := t.gen.Load()
	if g%2 == 0 {
		g++
	} else {
		g += 2
	}
	t.gen.Store(g)
	simrt.Go(func() {
		simrt.SleepTimer(max(1, int64(d)))
		if !t.gen.CompareAndSwap(g, g+1) {
			return
		}
		if t.f != nil {
			t.f()
			return
		}
		select {
		case t.c <- Now():
		default:
		}
	})
}

func (t *Timer) Stop() bool {
	g := t.gen.Load()
	ran := g%2 == 1 && t.gen.CompareAndSwap(g, g+1)
	t.drain()
	return ran
}

func (t *Timer) Reset(d Duration) bool {
	ran := t.gen.Load()%2 == 1
	t.drain()
	t.start(d)
	return ran
}

// drain: nothing stale is received from a timer that was stopped or reset.
func (t *Timer) drain() {
	select {
	case <-t.c:
	default:
	}
}

func NewTimer(d Duration) *Timer {
	t := &Timer{c: make(chan Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C   <-chan Time
	c   chan Time
	gen atomic.Int64
}

func (t *Ticker) start(d Duration) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	g := t.gen.Add(1)
	simrt.Go(func() {
		for {
			simrt.SleepTimer(int64(d))
			if t.gen.Load() != g {
				return
			}
			select {
			case t.c <- Now():
			default:
			}
		}
	})
}

func (t *Ticker) Stop()            { t.gen.Add(1) }
func (t *Ticker) Reset(d Duration) { t.start(d) }

func NewTicker(d Duration) *Ticker {
	t := &Ticker{c: make(chan Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
