package vsched

import "unsafe"

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	Hdr
	locked bool
	unlEv  int32
}

//go:norace
func (m *Mutex) prep() {
	if m.touch() {
		m.locked = false
		m.unlEv = -1
	}
}

//go:norace
func (m *Mutex) ready(o *Op) bool { return o.Kind != KLock || !m.locked }

//go:norace
func (m *Mutex) Lock() {
	m.prep()
	if !point(Op{Kind: KLock, obj: m.id, on: m}) {
		return
	}
	m.locked = true
	addPred(m.unlEv)
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	m.prep()
	if !point(Op{Kind: KTry, obj: m.id}) {
		return false
	}
	if m.locked {
		return false
	}
	m.locked = true
	addPred(m.unlEv)
	raceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	m.prep()
	if !point(Op{Kind: KUnlock, obj: m.id}) {
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.locked = false
	m.unlEv = here()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	Hdr
	w       bool
	readers int
	evs     []int32
	wEv     int32
	rsync   byte
}

//go:norace
func (m *RWMutex) prep() {
	if m.touch() {
		m.w, m.readers, m.evs, m.wEv = false, 0, nil, -1
	}
}

//go:norace
func (m *RWMutex) ready(o *Op) bool {
	switch o.Kind {
	case KLock:
		return !m.w && m.readers == 0
	case KRLock:
		return !m.w
	}
	return true
}

//go:norace
func (m *RWMutex) Lock() {
	m.prep()
	if !point(Op{Kind: KLock, obj: m.id, on: m}) {
		return
	}
	m.lockW()
}

//go:norace
func (m *RWMutex) lockW() {
	m.w = true
	addPred(m.wEv)
	for _, e := range m.evs {
		addPred(e)
	}
	m.evs = nil
	raceAcquire(unsafe.Pointer(m))
	raceAcquire(unsafe.Pointer(&m.rsync))
}

//go:norace
func (m *RWMutex) Unlock() {
	m.prep()
	if !point(Op{Kind: KUnlock, obj: m.id}) {
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(m))
	m.w = false
	m.wEv = here()
}

//go:norace
func (m *RWMutex) RLock() {
	m.prep()
	if !point(Op{Kind: KRLock, obj: m.id, on: m}) {
		return
	}
	m.readers++
	addPred(m.wEv)
	raceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RUnlock() {
	m.prep()
	if !point(Op{Kind: KRUnlock, obj: m.id}) {
		return
	}
	if m.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	raceRelease(unsafe.Pointer(&m.rsync))
	m.readers--
	m.evs = append(m.evs, here())
}

//go:norace
func (m *RWMutex) TryLock() bool {
	m.prep()
	if !point(Op{Kind: KTry, obj: m.id}) {
		return false
	}
	if m.w || m.readers > 0 {
		return false
	}
	m.lockW()
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	m.prep()
	if !point(Op{Kind: KTry, obj: m.id}) {
		return false
	}
	if m.w {
		return false
	}
	m.readers++
	addPred(m.wEv)
	raceAcquire(unsafe.Pointer(m))
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker is sync.RWMutex.RLocker.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	Hdr
	n   int
	evs []int32
}

//go:norace
func (w *WaitGroup) prep() {
	if w.touch() {
		w.n = 0
		w.evs = nil
	}
}

//go:norace
func (w *WaitGroup) ready(o *Op) bool { return o.Kind != KWait || w.n == 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	w.prep()
	k := KAdd
	if d < 0 {
		k = KDone
	}
	if !point(Op{Kind: k, obj: w.id}) {
		return
	}
	if d < 0 {
		raceRelease(unsafe.Pointer(w))
		w.evs = append(w.evs, here())
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	w.prep()
	if !point(Op{Kind: KWait, obj: w.id, on: w}) {
		return
	}
	for _, e := range w.evs {
		addPred(e)
	}
	raceAcquire(unsafe.Pointer(w))
}

// Go is sync.WaitGroup.Go.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.isDone() {
		return
	}
	defer o.setDone()
	f()
}

//go:norace
func (o *Once) isDone() bool { return o.done }

//go:norace
func (o *Once) setDone() {
	if !Aborting() {
		o.done = true
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond replaces sync.Cond.
type Cond struct {
	Hdr
	L       Locker
	waiters []*condW
}

type condW struct {
	signaled bool
	ev       int32
}

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) prep() {
	if c.touch() {
		c.waiters = nil
	}
}

//go:norace
func (w *condW) ready(o *Op) bool { return w.signaled }

//go:norace
func (c *Cond) Wait() {
	c.prep()
	if !point(Op{Kind: KCond, obj: c.id}) {
		return
	}
	w := &condW{}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	if !point(Op{Kind: KCond, obj: c.id, on: w}) {
		return
	}
	addPred(w.ev)
	raceAcquire(unsafe.Pointer(c))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() { c.wake(1) }

//go:norace
func (c *Cond) Broadcast() { c.wake(1 << 30) }

//go:norace
func (c *Cond) wake(n int) {
	c.prep()
	if !point(Op{Kind: KCond, obj: c.id}) {
		return
	}
	raceRelease(unsafe.Pointer(c))
	for n > 0 && len(c.waiters) > 0 {
		c.waiters[0].signaled = true
		c.waiters[0].ev = here()
		c.waiters = c.waiters[1:]
		n--
	}
}

// Map replaces sync.Map.
type Map struct {
	Hdr
	m map[interface{}]interface{}
}

//go:norace
func (m *Map) acc(k Kind) {
	m.touch()
	point(Op{Kind: k, obj: m.id})
	raceAcquire(unsafe.Pointer(m))
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}

func (m *Map) rel() { raceRelease(unsafe.Pointer(m)) }

//go:norace
func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.acc(KLoad)
	defer m.rel()
	v, ok := m.m[k]
	return v, ok
}

//go:norace
func (m *Map) Store(k, v interface{}) {
	m.acc(KStore)
	defer m.rel()
	m.m[k] = v
}

//go:norace
func (m *Map) Delete(k interface{}) {
	m.acc(KStore)
	defer m.rel()
	delete(m.m, k)
}

//go:norace
func (m *Map) Clear() {
	m.acc(KStore)
	defer m.rel()
	m.m = map[interface{}]interface{}{}
}

//go:norace
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.acc(KStore)
	defer m.rel()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.m[k] = v
	return v, false
}

//go:norace
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.acc(KStore)
	defer m.rel()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}

//go:norace
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.acc(KStore)
	defer m.rel()
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}

//go:norace
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	m.acc(KStore)
	defer m.rel()
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = v
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.acc(KStore)
	defer m.rel()
	if o, ok := m.m[k]; ok && o == old {
		delete(m.m, k)
		return true
	}
	return false
}

type kv struct{ k, v interface{} }

//go:norace
func (m *Map) all() []kv {
	m.acc(KLoad)
	defer m.rel()
	var all []kv
	for k, v := range m.m {
		all = append(all, kv{k, v})
	}
	return all
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, e := range m.all() {
		if !f(e.k, e.v) {
			return
		}
	}
}

// Pool replaces sync.Pool; it always hands out what was put back last.
type Pool struct {
	Hdr
	New   func() interface{}
	items []interface{}
}

//go:norace
func (p *Pool) Get() interface{} {
	p.touch()
	point(Op{Kind: KStore, obj: p.id})
	raceAcquire(unsafe.Pointer(p))
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		raceRelease(unsafe.Pointer(p))
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(v interface{}) {
	p.touch()
	point(Op{Kind: KStore, obj: p.id})
	raceAcquire(unsafe.Pointer(p))
	if v != nil {
		p.items = append(p.items, v)
	}
	raceRelease(unsafe.Pointer(p))
}

type addrNode struct {
	addr unsafe.Pointer
	id   int32
	next *addrNode
}

// addrID numbers the addresses in the order of their first use. A table of its own, as the race detector watches the
// maps of the runtime.
//
//go:norace
func (x *Exec) addrID(addr unsafe.Pointer) int32 {
	if x.addrObj == nil {
		x.addrObj = new([512]*addrNode)
	}
	h := (uintptr(addr) >> 2) % 509
	for n := x.addrObj[h]; n != nil; n = n.next {
		if n.addr == addr {
			return n.id
		}
	}
	x.nextObj++
	x.addrObj[h] = &addrNode{addr, x.nextObj, x.addrObj[h]}
	return x.nextObj
}

// PointAtomic is an atomic operation on the word at addr.
//
//go:norace
func PointAtomic(addr unsafe.Pointer, write bool) {
	x := cur
	if x == nil || x.aborting {
		return
	}
	id := x.addrID(addr)
	k := KLoad
	if write {
		k = KStore
	}
	point(Op{Kind: k, obj: id})
}

// Access is a plain memory access that is to be explored as a visible operation.
//
//go:norace
func Access(addr unsafe.Pointer, write bool) {
	x := cur
	if x == nil || x.aborting || addr == nil {
		return
	}
	id := x.addrID(addr)
	k := KAccR
	if write {
		k = KAccW
	}
	point(Op{Kind: k, obj: id})
}
