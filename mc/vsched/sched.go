// Package vsched is a controlled scheduler: the instrumented program's goroutines, channels, locks and atomics call
// it before every visible operation; exactly one goroutine runs at a time and the scheduler decides which one.
package vsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"unsafe"
)

// Kind is the kind of a visible operation.
type Kind uint8

const (
	KStart Kind = iota
	KSend
	KRecv
	KClose
	KLen
	KAwait
	KSelect
	KLock
	KUnlock
	KRLock
	KRUnlock
	KTry
	KAdd
	KDone
	KWait
	KLoad
	KStore
	KYield
	KCond
	KAccR
	KAccW
)

var kindNames = [...]string{"start", "send", "recv", "close", "len", "await", "select", "lock", "unlock", "rlock", "runlock", "trylock",
	"add", "done", "wait", "load", "store", "yield", "cond", "read", "write"}

func (k Kind) String() string { return kindNames[k] }

// Hdr is the header of every object the scheduler knows.
type Hdr struct {
	epoch uint64
	id    int32
}

// Readier tells whether an operation on an object could be executed now.
type Readier interface {
	ready(o *Op) bool
}

// Op is a visible operation that a thread is about to execute.
type Op struct {
	Kind  Kind
	obj   int32
	objs  []int32 //select: all channels
	on    Readier //nil: always enabled
	extra int     //await: item number
	pred  []int32 //events that enabled this one, filled when it is executed
}

type thread struct {
	id       int
	wake     chan struct{}
	op       Op
	done     bool
	finished bool
	parent   int32 //event in which it was spawned
	name     string
}

// Event is an executed operation.
type Event struct {
	tid   int32
	kind  Kind
	obj   int32
	objs  []int32
	pred  []int32
	local int32 //index within its thread
	spawn int32 //first event of a thread: event of the parent, else -1
}

// Exec is one execution.
type Exec struct {
	epoch   uint64
	threads []*thread
	cur     *thread
	step    int
	trace   []Event
	record  bool
	nextObj int32

	choose func(x *Exec, enabled []int) int //returns thread id, <0 to abort

	aborting  bool
	abortSync chan struct{}
	finish    chan struct{}
	mainDone  bool
	enabledB  []int
	preds     []int32

	// outcome
	Panic     string
	PanicMain bool
	Deadlock  bool
	Blocked   []string //threads that were still blocked when nothing could run anymore
	Diverged  bool
	SleepCut  bool
	StepLimit bool

	blockedOps []Event
	addrObj    *[512]*addrNode

	ask       chan []int
	askChoice chan int
	answer    chan int
	endSync   byte
}

var (
	cur      *Exec
	epochCtr uint64
	abortedE = map[uint64]bool{}
	maxSteps = 2000000
	numCPU   = readNumCPU()
	// Unsupported is set when the program under test used something the scheduler does not model.
	Unsupported string
)

func readNumCPU() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_NUMCPU"))
	if err != nil || n < 1 {
		return runtime.NumCPU()
	}
	return n
}

// NumCPU replaces runtime.NumCPU and runtime.GOMAXPROCS.
func NumCPU() int { return numCPU }

// GOMAXPROCS replaces runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int { return numCPU }

// CapHint replaces the capacity of an empty slice or map, which is no behaviour but costs time.
func CapHint[T int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64](n T) int {
	if n > 64 {
		return 64
	}
	return int(n)
}

// Steps is the number of operations executed so far.
func (x *Exec) Steps() int { return x.step }

// Threads is the number of goroutines of the execution.
func (x *Exec) Threads() int { return len(x.threads) }

// Running tells whether the caller runs under the scheduler.
func Running() bool { return cur != nil }

// touch gives the object an id in the current execution and reports whether it is new in it.
//
//go:norace
func (h *Hdr) touch() bool {
	if cur == nil {
		return false
	}
	if h.epoch != cur.epoch {
		h.epoch = cur.epoch
		cur.nextObj++
		h.id = cur.nextObj
		return true
	}
	return false
}

// RunOnce executes fn under the given strategy (nil: run each goroutine until it blocks, lowest id first).
//
//go:norace
func RunOnce(fn func(), choose func(x *Exec, enabled []int) int, record bool) *Exec {
	if cur != nil {
		panic("vsched: nested run")
	}
	epochCtr++
	x := &Exec{epoch: epochCtr, record: record, choose: choose, finish: make(chan struct{}, 1)}
	if RaceEnabled {
		x.ask, x.askChoice, x.answer = make(chan []int), make(chan int), make(chan int)
	}
	cur = x
	t := x.newThread("main")
	t.wake = make(chan struct{}, 1)
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
	x.cur = t
	go x.body(t, fn)
	if RaceEnabled {
		x.serve()
	} else {
		<-x.finish
	}
	// end what is still blocked
	if x.anyAlive() {
		abortedE[x.epoch] = true
		x.aborting = true
		for _, t := range x.threads {
			if !t.finished {
				x.abortSync = make(chan struct{})
				raceDisable()
				t.wake <- struct{}{}
				<-x.abortSync
				raceEnable()
			}
		}
	}
	if RaceEnabled {
		raceAcquire(unsafe.Pointer(&x.endSync))
	}
	cur = nil
	return x
}

// serve answers the questions of the goroutines until the execution is over.
//
//go:norace
func (x *Exec) serve() {
	for {
		raceDisable()
		select {
		case en := <-x.ask:
			raceEnable()
			n := x.choose(x, append([]int(nil), en...))
			raceDisable()
			x.answer <- n
			raceEnable()
		case k := <-x.askChoice:
			raceEnable()
			n := choiceFn(k)
			raceDisable()
			x.answer <- n
			raceEnable()
		case <-x.finish:
			raceEnable()
			return
		}
	}
}

//go:norace
func (x *Exec) anyAlive() bool {
	for _, t := range x.threads {
		if !t.finished {
			return true
		}
	}
	return false
}

//go:norace
func (x *Exec) newThread(name string) *thread {
	t := &thread{id: len(x.threads), name: name, parent: int32(len(x.trace)) - 1, wake: make(chan struct{}, 1)}
	t.op = Op{Kind: KStart}
	x.threads = append(x.threads, t)
	return t
}

//go:norace
func (x *Exec) body(t *thread, fn func()) {
	normal := false
	defer func() {
		x.threadEnd(t, normal, recover())
	}()
	raceDisable()
	<-t.wake
	raceEnable()
	if x.aborting {
		return
	}
	if t.id != 0 {
		x.exec(t)
	}
	fn()
	normal = true
}

//go:norace
func (x *Exec) threadEnd(t *thread, normal bool, r interface{}) {
	t.done = true
	t.finished = true
	if RaceEnabled {
		raceRelease(unsafe.Pointer(&x.endSync))
	}
	if x.aborting {
		raceDisable()
		close(x.abortSync)
		raceEnable()
		return
	}
	if r != nil {
		x.Panic = fmt.Sprintf("goroutine %d (%s): %v\n%s", t.id, t.name, r, trimStack(string(debug.Stack())))
		x.PanicMain = t.id == 0
		raceDisable()
		x.finish <- struct{}{}
		raceEnable()
		return
	}
	if t.id == 0 {
		x.mainDone = true
	}
	x.switchFrom(t)
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "\t") && !strings.Contains(l, "zzverif") && !strings.Contains(l, "/src/runtime/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) == 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// switchFrom picks the next thread after t reached an operation or ended; it returns when t may run again.
//
//go:norace
func (x *Exec) switchFrom(t *thread) {
	en := x.enabledB[:0]
	for _, q := range x.threads {
		if q.done {
			continue
		}
		if q.op.on == nil || q.op.on.ready(&q.op) {
			en = append(en, q.id)
		}
	}
	x.enabledB = en
	next := -1
	if len(en) == 0 {
		// nothing can run: either all is done or the rest is blocked
		if !x.mainDone {
			x.Deadlock = true
		}
		for _, q := range x.threads {
			if !q.done {
				x.Blocked = append(x.Blocked, fmt.Sprintf("%d:%s at %s", q.id, q.name, q.op.Kind))
				x.blockedOps = append(x.blockedOps, Event{tid: int32(q.id), kind: q.op.Kind, obj: q.op.obj, objs: q.op.objs, spawn: -1})
			}
		}
	} else if x.step >= maxSteps {
		x.StepLimit = true
	} else if x.choose != nil {
		next = x.decide(en)
	} else {
		next = en[0]
		for _, id := range en {
			if id == t.id {
				next = id
			}
		}
	}
	if next < 0 {
		raceDisable()
		x.finish <- struct{}{}
		raceEnable()
		if !t.done {
			x.park(t)
		}
		return
	}
	if next == t.id && !t.done {
		return
	}
	n := x.threads[next]
	x.cur = n
	raceDisable()
	n.wake <- struct{}{}
	raceEnable()
	if !t.done {
		x.park(t)
	}
}

// decide asks the strategy. With the race detector on, the strategy runs in the goroutine of the controller, whose
// memory the goroutines of the program must not touch.
//
//go:norace
func (x *Exec) decide(en []int) int {
	if !RaceEnabled {
		return x.choose(x, en)
	}
	raceDisable()
	x.ask <- en
	n := <-x.answer
	raceEnable()
	return n
}

//go:norace
func (x *Exec) decideChoice(n int) int {
	if !RaceEnabled {
		return choiceFn(n)
	}
	raceDisable()
	x.askChoice <- n
	v := <-x.answer
	raceEnable()
	return v
}

//go:norace
func (x *Exec) park(t *thread) {
	raceDisable()
	<-t.wake
	raceEnable()
	if x.aborting {
		t.done = true
		runtime.Goexit()
	}
}

// exec books the operation of the running thread as executed.
//
//go:norace
func (x *Exec) exec(t *thread) {
	if x.record {
		e := Event{tid: int32(t.id), kind: t.op.Kind, obj: t.op.obj, objs: t.op.objs, spawn: -1}
		if t.op.Kind == KStart {
			e.spawn = t.parent
		}
		x.trace = append(x.trace, e)
	}
	x.step++
}

// point announces an operation and returns when it is to be executed. It returns false if the program is being
// ended and the operation must do nothing.
//
//go:norace
func point(o Op) bool {
	x := cur
	if x == nil {
		if o.on != nil && !o.on.ready(&o) {
			panic("vsched: operation would block outside a run")
		}
		return true
	}
	if x.aborting {
		return false
	}
	t := x.cur
	t.op = o
	x.switchFrom(t)
	x.exec(t)
	return true
}

// pred adds an event that enabled the one just executed.
//
//go:norace
func addPred(i int32) {
	if cur != nil && cur.record && i >= 0 {
		e := &cur.trace[len(cur.trace)-1]
		e.pred = append(e.pred, i)
	}
}

// here is the index of the event just executed.
//
//go:norace
func here() int32 {
	if cur == nil || !cur.record {
		return -1
	}
	return int32(len(cur.trace) - 1)
}

// Aborting tells that the execution is being ended.
//
//go:norace
func Aborting() bool { return cur != nil && cur.aborting }

// Go replaces the go statement.
//
//go:norace
func Go(fn func()) {
	x := cur
	if x == nil {
		Unsupported = "goroutine started outside a run"
		go fn()
		return
	}
	if x.aborting {
		return
	}
	name := "goroutine"
	if x.record {
		if pc, _, _, ok := runtime.Caller(1); ok {
			if f := runtime.FuncForPC(pc); f != nil {
				name = f.Name()[strings.LastIndex(f.Name(), "/")+1:]
			}
		}
	}
	t := x.newThread(name)
	go x.body(t, fn)
}

// Yield is a point without effect.
func Yield() { point(Op{Kind: KYield}) }

func ptr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

// SleepFor replaces time.Sleep.
func SleepFor[T any](d T) { Yield() }

// RaceYield is a scheduling point before a statement that was seen to take part in a data race: the statements
// are explored as conflicting operations.
//
//go:norace
func RaceYield(line int) {
	if cur == nil || cur.aborting {
		return
	}
	point(Op{Kind: KAccW, obj: -1})
}
