package vsched

import "unsafe"

type item[T any] struct {
	v     T
	ev    int32 //sending event
	seq   int
	taken *bool
}

// Chan replaces chan T.
type Chan[T any] struct {
	Hdr
	capa   int
	q      []item[T]
	closed bool
	sent   int
	recvd  int
	recvEv []int32 //event of receive number i, in this execution
	closeE int32
	sync   []byte //one address per slot for the race detector
	snap   []item[T]
	snapC  bool
	last   uint64
	takes  []int32 //unbuffered: receive event of offer number seq plus two, 0 if not taken
}

// MakeOf is MakeChan for a named type.
func MakeOf[C ~*Chan[T], T any](n int) C { return C(MakeChan[T](n)) }

// MakeChan replaces make(chan T, n).
func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	c := &Chan[T]{capa: n}
	if RaceEnabled {
		k := n
		if k == 0 {
			k = 1
		}
		c.sync = make([]byte, k+1)
	}
	return c
}

//go:norace
func (c *Chan[T]) prep() {
	if cur == nil || c.epoch == cur.epoch {
		return
	}
	old := c.epoch
	c.touch()
	if old != 0 && abortedE[old] {
		c.q = append([]item[T](nil), c.snap...)
		c.closed = c.snapC
	}
	for i := range c.q {
		c.q[i].ev = -1
		c.q[i].seq = i
	}
	c.sent = len(c.q)
	c.recvd = 0
	c.recvEv = nil
	c.closeE = -1
	c.takes = nil
	c.snap = append([]item[T](nil), c.q...)
	c.snapC = c.closed
}

//go:norace
func (c *Chan[T]) ready(o *Op) bool {
	switch o.Kind {
	case KSend:
		return c.closed || c.capa == 0 || len(c.q) < c.capa
	case KRecv:
		return c.closed || len(c.q) > 0
	case KAwait:
		if c.closed {
			return true
		}
		return o.extra < len(c.takes) && c.takes[o.extra] != 0
	}
	return true
}

//go:norace
func (c *Chan[T]) slot(i int) unsafe.Pointer {
	n := c.capa
	if n == 0 {
		n = 1
	}
	return unsafe.Pointer(&c.sync[i%n])
}

// Send replaces c <- v.
//
//go:norace
func (c *Chan[T]) Send(v T) {
	if c == nil {
		blockForever(KSend)
		return
	}
	c.prep()
	if !point(Op{Kind: KSend, obj: c.id, on: c}) {
		return
	}
	seq := c.put(v)
	if c.capa == 0 && cur != nil {
		c.await(seq)
	}
}

//go:norace
func (c *Chan[T]) put(v T) int {
	if c.closed {
		panic("send on closed channel")
	}
	if c.capa > 0 && c.sent >= c.capa {
		if k := c.sent - c.capa; k < len(c.recvEv) {
			addPred(c.recvEv[k])
		}
	}
	if RaceEnabled {
		raceAcquire(c.slot(c.sent))
		raceRelease(c.slot(c.sent))
	}
	seq := c.sent
	c.q = append(c.q, item[T]{v: v, ev: here(), seq: seq})
	c.sent++
	return seq
}

//go:norace
func (c *Chan[T]) await(seq int) {
	if !point(Op{Kind: KAwait, obj: c.id, on: c, extra: seq}) {
		return
	}
	if seq >= len(c.takes) || c.takes[seq] == 0 {
		addPred(c.closeE)
		panic("send on closed channel")
	}
	addPred(c.takes[seq] - 2)
	if RaceEnabled {
		raceAcquire(c.slot(seq))
	}
}

// Recv replaces <-c.
//
//go:norace
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Recv2 replaces v, ok := <-c.
//
//go:norace
func (c *Chan[T]) Recv2() (T, bool) {
	var zero T
	if c == nil {
		blockForever(KRecv)
		return zero, false
	}
	c.prep()
	if !point(Op{Kind: KRecv, obj: c.id, on: c}) {
		return zero, false
	}
	return c.take()
}

//go:norace
func (c *Chan[T]) take() (T, bool) {
	var zero T
	if len(c.q) == 0 {
		addPred(c.closeE)
		if RaceEnabled {
			raceAcquire(unsafe.Pointer(&c.sync[len(c.sync)-1]))
		}
		return zero, false
	}
	it := c.q[0]
	c.q = c.q[1:]
	addPred(it.ev)
	if RaceEnabled {
		raceAcquire(c.slot(it.seq))
		raceRelease(c.slot(it.seq))
	}
	if cur != nil && cur.record {
		c.recvEv = append(c.recvEv, here())
	}
	c.recvd++
	if c.capa == 0 {
		for len(c.takes) <= it.seq {
			c.takes = append(c.takes, 0)
		}
		c.takes[it.seq] = here() + 2
	}
	return it.v, true
}

// Close replaces close(c).
//
//go:norace
func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	c.prep()
	if !point(Op{Kind: KClose, obj: c.id}) {
		return
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	c.closeE = here()
	if RaceEnabled {
		raceRelease(unsafe.Pointer(&c.sync[len(c.sync)-1]))
	}
	if c.capa == 0 {
		c.q = nil
	}
}

// Len replaces len(c).
//
//go:norace
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	c.prep()
	if !point(Op{Kind: KLen, obj: c.id}) {
		return 0
	}
	if c.capa == 0 {
		return 0
	}
	return len(c.q)
}

// Cap replaces cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.capa
}

type never struct{}

func (never) ready(*Op) bool { return false }

func blockForever(k Kind) {
	point(Op{Kind: k, on: never{}})
}

// Ranger drives for x := range c.
type Ranger[T any] struct{ c *Chan[T] }

// Range starts for range c.
func Range[T any](c *Chan[T]) *Ranger[T] { return &Ranger[T]{c} }

// RangeInit starts for x := range c.
func RangeInit[T any](c *Chan[T]) (*Ranger[T], T) {
	var zero T
	return &Ranger[T]{c}, zero
}

// Next receives the next value.
//
//go:norace
func (r *Ranger[T]) Next(p *T) bool {
	v, ok := r.c.Recv2()
	if ok && p != nil {
		set(p, v)
	}
	return ok
}

// set is not marked norace so that the loop variable's write is seen by the race detector.
//
//go:noinline
func set[T any](p *T, v T) { *p = v }

// Case is one case of a select statement.
type Case interface {
	hdrID() int32
	ok() bool
	run(s *Sel)
	isNil() bool
}

// Sel is the result of a select.
type Sel struct {
	Index int
	OK    bool
	val   interface{}
	seq   int
}

type sendCase[T any] struct {
	c *Chan[T]
	v T
}

type recvCase[T any] struct{ c *Chan[T] }

// SendCase is case c <- v.
func SendCase[T any](c *Chan[T], v T) Case { return &sendCase[T]{c, v} }

// RecvCase is case <-c.
func RecvCase[T any](c *Chan[T]) Case { return &recvCase[T]{c} }

func (s *sendCase[T]) isNil() bool { return s.c == nil }
func (s *recvCase[T]) isNil() bool { return s.c == nil }

func (s *sendCase[T]) hdrID() int32 { s.c.prep(); return s.c.id }
func (s *recvCase[T]) hdrID() int32 { s.c.prep(); return s.c.id }

//go:norace
func (s *sendCase[T]) ok() bool {
	c := s.c
	if c.closed {
		return true
	}
	if c.capa > 0 {
		return len(c.q) < c.capa
	}
	//unbuffered: only if a receiver is waiting that no other offer will serve
	n := 0
	if cur != nil {
		for _, t := range cur.threads {
			if !t.done && t.op.Kind == KRecv && t.op.obj == c.id && t != cur.cur {
				n++
			}
		}
	}
	return n > len(c.q)
}

//go:norace
func (s *recvCase[T]) ok() bool { return s.c.closed || len(s.c.q) > 0 }

//go:norace
func (s *sendCase[T]) run(r *Sel) { r.seq = s.c.put(s.v) }

//go:norace
func (s *recvCase[T]) run(r *Sel) {
	v, ok := s.c.take()
	r.val, r.OK = v, ok
}

type selOp struct{ cases []Case }

//go:norace
func (s *selOp) ready(o *Op) bool {
	for _, c := range s.cases {
		if !c.isNil() && c.ok() {
			return true
		}
	}
	return false
}

// Select replaces the select statement; Index is the chosen case, len(cases) for default.
//
//go:norace
func Select(hasDefault bool, cases ...Case) *Sel {
	r := &Sel{Index: len(cases)}
	var objs []int32
	for _, c := range cases {
		if !c.isNil() {
			objs = append(objs, c.hdrID())
		}
	}
	o := Op{Kind: KSelect, objs: objs}
	if !hasDefault {
		o.on = &selOp{cases}
	}
	if !point(o) {
		return r
	}
	var rd []int
	for i, c := range cases {
		if !c.isNil() && c.ok() {
			rd = append(rd, i)
		}
	}
	if len(rd) == 0 {
		return r
	}
	r.Index = rd[choice(len(rd))]
	cases[r.Index].run(r)
	return r
}

// Val is the value received by case c of the select.
func Val[T any](c *Chan[T], s *Sel) T {
	v, _ := s.val.(T)
	return v
}
