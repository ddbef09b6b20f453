package simrt

import "unsafe"

// Channel operations of the code under test. They use the real channel, so that the
// race detector sees the edges of the real operations, but wait in the simulation.
// Tasks that wait do so outside the channel, so the two sides of an unbuffered one
// meet in a list instead. It is a linked list because the runtime reports accesses
// to maps and growing slices to the race detector.

// offer is a value that waits for a receiver of an unbuffered channel.
type offer[T any] struct {
	link
	v   chan T
	ack chan struct{}
}

type link struct {
	next  *link
	it    any
	taken bool
}

// meeting is what waits at a channel.
type meeting struct {
	c         unsafe.Pointer
	next      *meeting
	offers    *link
	offered   int
	receivers int
	senders   int
	closed    bool
}

var meetings *meeting

//go:norace
func at(c unsafe.Pointer, add bool) *meeting {
	for m := meetings; m != nil; m = m.next {
		if m.c == c {
			return m
		}
	}
	m := &meeting{c: c}
	if add && c != nil {
		m.next = meetings
		meetings = m
	}
	return m
}

//go:norace
func (m *meeting) leave() {
	if m.offered > 0 || m.receivers > 0 || m.senders > 0 {
		return
	}
	for p := &meetings; *p != nil; p = &(*p).next {
		if *p == m {
			*p = m.next
			return
		}
	}
}

//go:norace
func (m *meeting) put(l *link) {
	p := &m.offers
	for *p != nil {
		p = &(*p).next
	}
	*p = l
	m.offered++
}

//go:norace
func (m *meeting) drop(l *link) {
	for p := &m.offers; *p != nil; p = &(*p).next {
		if *p == l {
			*p = l.next
			m.offered--
			m.leave()
			return
		}
	}
}

// comm is one communication of a select statement, or a single one.
type comm interface {
	ready() bool
	do() bool // performs it if that is possible now
	arrive()
	depart()
	offered() bool
}

// Receive is a receive operation and its result.
type Receive[T any] struct {
	c   <-chan T
	V   T
	OK  bool
	got bool
}

//go:norace
func RecvCase[T any](c <-chan T) *Receive[T] { return &Receive[T]{c: c} }

//go:norace
func (r *Receive[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.c)) }

//go:norace
func (r *Receive[T]) ready() bool {
	if r.c == nil {
		return false
	}
	if m := at(r.key(), false); r.got || len(r.c) > 0 || m.closed || m.offered > 0 {
		return true
	}
	select {
	case v, ok := <-r.c: // from, or closed by, code that is not simulated
		if ok {
			r.V, r.OK, r.got = v, true, true
		}
		return true
	default:
		return false
	}
}

//go:norace
func (r *Receive[T]) do() bool {
	if r.got {
		return true
	}
	m := at(r.key(), false)
	if m.offers != nil {
		o := m.offers.it.(*offer[T])
		m.drop(m.offers)
		o.taken = true
		r.V, r.OK = <-o.v, true
		o.ack <- struct{}{}
		return true
	}
	select {
	case r.V, r.OK = <-r.c:
		return true
	default:
		return false
	}
}

//go:norace
func (r *Receive[T]) arrive() { at(r.key(), true).receivers++ }

//go:norace
func (r *Receive[T]) depart() { m := at(r.key(), false); m.receivers--; m.leave() }

//go:norace
func (r *Receive[T]) offered() bool { return at(r.key(), false).offered > 0 }

type sending[T any] struct {
	c chan<- T
	v T
}

//go:norace
func SendCase[T any](c chan<- T) func(T) *sending[T] {
	return func(v T) *sending[T] { return &sending[T]{c, v} }
}

//go:norace
func (s *sending[T]) key() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&s.c)) }

//go:norace
func (s *sending[T]) ready() bool {
	if s.c == nil {
		return false
	}
	m := at(s.key(), false)
	return m.closed || len(s.c) < cap(s.c) || cap(s.c) == 0 && m.receivers > m.offered
}

//go:norace
func (s *sending[T]) do() bool {
	select {
	case s.c <- s.v: // or it panics
		return true
	default:
	}
	if s.ready() && cap(s.c) == 0 {
		s.offer()
		return true
	}
	return false
}

//go:norace
func (s *sending[T]) offer() *offer[T] {
	o := &offer[T]{v: make(chan T, 1), ack: make(chan struct{}, 1)}
	o.it = o
	o.v <- s.v
	at(s.key(), true).put(&o.link)
	return o
}

//go:norace
func (s *sending[T]) arrive() { at(s.key(), true).senders++ }

//go:norace
func (s *sending[T]) depart() { m := at(s.key(), false); m.senders--; m.leave() }

func (s *sending[T]) offered() bool { return false }

// Select performs one of the communications and returns its number, or -1 if none is
// possible and there is a default.
//
//go:norace
func Select(dflt bool, cs ...comm) int {
	pc++
	for woken := false; ; woken = true {
		n := 0
		for i, c := range cs {
			if c.ready() {
				if woken && c.offered() && c.do() {
					return i // the sender has gone on already
				}
				n++
			}
		}
		if n > 0 {
			k := int(uint64(pc) * 0x9E3779B97F4A7C15 >> 33 % uint64(n))
			for i, c := range cs {
				if !c.ready() {
					continue
				}
				if k--; k < 0 && c.do() {
					return i
				}
			}
		}
		for i, c := range cs {
			if c.do() { // the other side is not simulated
				return i
			}
		}
		if dflt {
			return -1
		}
		for _, c := range cs {
			c.arrive()
		}
		Block(comms(cs).ready)
		for _, c := range cs {
			c.depart()
		}
	}
}

type comms []comm

//go:norace
func (cs comms) ready() bool {
	for _, c := range cs {
		if c.ready() {
			return true
		}
	}
	return false
}

//go:norace
func Recv[T any](c <-chan T) T {
	r := &Receive[T]{c: c}
	Select(false, r)
	return r.V
}

//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	r := &Receive[T]{c: c}
	Select(false, r)
	return r.V, r.OK
}

// Send returns the operation that sends to c, so that the type of the value is the
// channel's.
//
//go:norace
func Send[T any](c chan<- T) func(T) {
	return (&sending[T]{c: c}).send
}

//go:norace
func (s *sending[T]) send(v T) {
	s.v = v
	if s.c == nil || cap(s.c) > 0 {
		Select(false, s)
		return
	}
	pc++
	select {
	case s.c <- v: // or it panics
		return
	default:
	}
	o := s.offer()
	m := at(s.key(), true)
	Block((&handover{&o.link, m}).over)
	if !o.taken {
		m.drop(&o.link)
		s.c <- v // panics
	}
	<-o.ack
}

type handover struct {
	l *link
	m *meeting
}

//go:norace
func (h *handover) over() bool { return h.l.taken || h.m.closed }

//go:norace
func Range[T any](c <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(c)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

//go:norace
func Close[T any](c chan<- T) {
	close(c)
	at(*(*unsafe.Pointer)(unsafe.Pointer(&c)), false).closed = true
}
