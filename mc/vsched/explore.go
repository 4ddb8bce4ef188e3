package vsched

import "sort"

// choice resolves a nondeterministic choice among n alternatives (several ready cases of a select).
//
//go:norace
func choice(n int) int {
	if n == 1 || cur == nil || choiceFn == nil {
		return 0
	}
	return cur.decideChoice(n)
}

var choiceFn func(n int) int

type sig struct {
	kind Kind
	obj  int32
	objs []int32
}

func (a sig) touches(o int32) bool {
	if a.obj == o && o != 0 {
		return true
	}
	for _, x := range a.objs {
		if x == o {
			return true
		}
	}
	return false
}

func share(a, b sig) bool {
	if a.obj != 0 && b.touches(a.obj) {
		return true
	}
	for _, x := range a.objs {
		if b.touches(x) {
			return true
		}
	}
	return false
}

func isAcq(k Kind) bool { return k == KLock || k == KRLock || k == KTry }

// depKinds tells whether two operations on the same object do not commute (or one may disable the other).
func depKinds(a, b Kind) bool {
	if a > b {
		a, b = b, a
	}
	switch {
	case a == KSelect || b == KSelect:
		return true
	case a == KSend:
		return b == KSend || b == KClose || b == KLen
	case a == KRecv:
		return b == KRecv || b == KLen
	case a == KClose:
		return b == KClose || b == KAwait
	case a == KLen, a == KAwait:
		return false
	case a == KLock:
		return b == KLock || b == KRLock || b == KTry
	case a == KUnlock:
		return b == KTry
	case a == KRLock:
		return b == KTry
	case a == KRUnlock:
		return b == KTry
	case a == KTry:
		return b == KTry
	case a == KAdd:
		return b == KAdd || b == KDone || b == KWait
	case a == KDone, a == KWait:
		return false
	case a == KLoad:
		return b == KStore
	case a == KStore:
		return b == KStore
	case a == KCond:
		return true
	case a == KAccR:
		return b == KAccW
	case a == KAccW:
		return b == KAccW
	}
	return false
}

func dependent(a, b sig) bool {
	return depKinds(a.kind, b.kind) && share(a, b)
}

func evSig(e *Event) sig { return sig{e.kind, e.obj, e.objs} }

type node struct {
	enabled []int
	sleep   map[int]sig
	back    map[int]bool
	done    map[int]bool
	pend    map[int]sig
	chosen  int
	nCh     int //alternatives of a value choice (select), 0 for a scheduling choice
	chVal   int
	prevTid int
	preempt int //preemptions before this node
}

// Options bounds an exploration.
type Options struct {
	MaxExecs int
	Naive    bool //no reduction (for the self test)
	Preempt  int  //with Naive: bound on preemptions, <0: none
	Stop     func() bool
}

// Stats describes an exploration.
type Stats struct {
	Execs       int
	SleepCut    int
	Transitions int
	Exhaustive  bool
	Diverged    int
	MaxSteps    int
	MaxThreads  int
	Races       int
	Nodes       int
	Sched       []int //schedule of the last checked execution
}

// Explore runs fn under every schedule that is not equivalent to one already run and calls check after each complete
// execution; it stops when check returns false.
func Explore(fn func(), check func(x *Exec) bool, opt Options) Stats {
	var st Stats
	var stack []*node
	st.Exhaustive = true
	for {
		if opt.MaxExecs > 0 && st.Execs >= opt.MaxExecs || opt.Stop != nil && opt.Stop() {
			st.Exhaustive = false
			break
		}
		depth := 0
		prefix := len(stack)
		firstNew := prefix - 1
		if firstNew < 0 {
			firstNew = 0
		}
		diverged := false
		cut := false
		cutLen := 0
		choiceFn = func(n int) int {
			if cut {
				return 0
			}
			if depth < len(stack) {
				nd := stack[depth]
				depth++
				if nd.nCh != n {
					diverged = true
					return 0
				}
				return nd.chVal
			}
			nd := &node{nCh: n}
			stack = append(stack, nd)
			st.Nodes++
			depth++
			return 0
		}
		choose := func(x *Exec, en []int) int {
			if cut {
				return runOn(x, en)
			}
			if depth < len(stack) {
				nd := stack[depth]
				depth++
				ok := nd.nCh == 0
				if ok {
					ok = false
					for _, id := range en {
						if id == nd.chosen {
							ok = true
						}
					}
				}
				if !ok {
					diverged = true
					return -1
				}
				return nd.chosen
			}
			nd := &node{enabled: append([]int(nil), en...), back: map[int]bool{}, done: map[int]bool{}}
			nd.prevTid = x.cur.id
			if opt.Naive {
				if opt.Preempt >= 0 {
					p := lastSched(stack)
					if p != nil {
						nd.preempt = p.preempt
						if p.prevEnabled() && p.chosen != p.prevTid {
							nd.preempt++
						}
					}
				}
				nd.chosen = en[0]
				for _, id := range en {
					if id == x.cur.id {
						nd.chosen = id
					}
				}
				cost := nd.preempt
				for _, id := range en {
					c := cost
					if id != nd.prevTid && nd.prevEnabled() {
						c++
					}
					if opt.Preempt < 0 || c <= opt.Preempt {
						nd.back[id] = true
					} else {
						st.Exhaustive = false
					}
				}
				nd.back[nd.chosen] = true
				nd.done[nd.chosen] = true
				stack = append(stack, nd)
				st.Nodes++
				depth++
				return nd.chosen
			}
			nd.pend = map[int]sig{}
			for _, id := range en {
				o := &x.threads[id].op
				nd.pend[id] = sig{o.Kind, o.obj, o.objs}
			}
			nd.sleep = map[int]sig{}
			if p := lastSched(stack); p != nil {
				if len(x.trace) > 0 {
					e := evSig(&x.trace[len(x.trace)-1])
					for q, s := range p.sleep {
						if q != p.chosen && !dependent(s, e) {
							nd.sleep[q] = s
						}
					}
					for q := range p.done {
						if q != p.chosen && !dependent(p.pend[q], e) {
							nd.sleep[q] = p.pend[q]
						}
					}
				}
			}
			pick := -1
			for _, id := range en {
				if _, s := nd.sleep[id]; s {
					continue
				}
				if pick < 0 || id == x.cur.id {
					pick = id
				}
			}
			if pick < 0 {
				// all that could run here was explored before: bring the execution to its end without judging it
				cut = true
				cutLen = len(x.trace)
				return runOn(x, en)
			}
			nd.chosen = pick
			nd.back[pick] = true
			nd.done[pick] = true
			stack = append(stack, nd)
			st.Nodes++
			depth++
			return pick
		}
		x := RunOnce(fn, choose, true)
		choiceFn = nil
		st.Transitions += x.step
		if x.step > st.MaxSteps {
			st.MaxSteps = x.step
		}
		if len(x.threads) > st.MaxThreads {
			st.MaxThreads = len(x.threads)
		}
		if diverged {
			x.Diverged = true
			st.Diverged++
			st.Exhaustive = false
		} else if cut {
			st.SleepCut++
		} else {
			st.Execs++
			st.Sched = schedule(stack)
			if !check(x) {
				st.Exhaustive = false
				return st
			}
		}
		if cut {
			x.trace = x.trace[:cutLen]
			x.blockedOps = nil
		}
		if !diverged && !opt.Naive {
			st.Races += analyse(x, stack, firstNew)
		}
		if diverged && depth < len(stack) {
			stack = stack[:depth]
		}
		// backtrack
		for len(stack) > 0 {
			nd := stack[len(stack)-1]
			if nd.nCh > 0 {
				if nd.chVal+1 < nd.nCh {
					nd.chVal++
					break
				}
				stack = stack[:len(stack)-1]
				continue
			}
			next := -1
			var cand []int
			for id := range nd.back {
				if !nd.done[id] {
					cand = append(cand, id)
				}
			}
			sort.Ints(cand)
			for _, id := range cand {
				if _, s := nd.sleep[id]; s {
					nd.done[id] = true
					continue
				}
				next = id
				break
			}
			if next >= 0 {
				nd.chosen = next
				nd.done[next] = true
				break
			}
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 {
			break
		}
	}
	return st
}

func runOn(x *Exec, en []int) int {
	for _, id := range en {
		if id == x.cur.id {
			return id
		}
	}
	return en[0]
}

func (n *node) prevEnabled() bool {
	for _, id := range n.enabled {
		if id == n.prevTid {
			return true
		}
	}
	return false
}

func schedule(stack []*node) []int {
	var s []int
	for _, n := range stack {
		if n.nCh > 0 {
			s = append(s, -1-n.chVal)
		} else {
			s = append(s, n.chosen)
		}
	}
	return s
}

// Replay runs fn under a recorded schedule.
func Replay(fn func(), sched []int) *Exec {
	i := 0
	div := false
	choiceFn = func(n int) int {
		if i < len(sched) && sched[i] < 0 {
			i++
			return -1 - sched[i-1]
		}
		div = true
		return 0
	}
	x := RunOnce(fn, func(x *Exec, en []int) int {
		if i < len(sched) {
			for _, id := range en {
				if id == sched[i] {
					i++
					return id
				}
			}
		}
		div = true
		for _, id := range en {
			if id == x.cur.id {
				return id
			}
		}
		return en[0]
	}, true)
	choiceFn = nil
	x.Diverged = div
	return x
}

func lastSched(stack []*node) *node {
	for i := len(stack) - 1; i >= 0; i-- {
		if stack[i].nCh == 0 {
			return stack[i]
		}
	}
	return nil
}

// analyse finds the reversible races of an execution and adds the backtrack points they need.
func analyse(x *Exec, stack []*node, firstNew int) int {
	tr := x.trace
	n := len(tr)
	nt := len(x.threads)
	// pending operations of blocked threads take part as virtual last events
	evs := make([]Event, n, n+8)
	copy(evs, tr)
	real := n
	evs = append(evs, x.blockedOps...)
	n = len(evs)
	// scheduling node of each event: stack has value choice nodes in between
	nodeOf := make([]int, 0, n)
	for i, nd := range stack {
		if nd.nCh == 0 {
			nodeOf = append(nodeOf, i)
		}
	}
	off := real - len(nodeOf) // the main thread's start is no event, so they match one to one
	if off != 0 {
		// the last scheduled step was not executed (cut); keep the common part
		if off > 0 {
			return 0
		}
	}
	clock := make([][]int32, n)
	lastOf := make([]int32, nt)
	for i := range lastOf {
		lastOf[i] = -1
	}
	count := make([]int32, nt)
	byObj := map[int32][]int32{}
	races := 0
	join := func(a, b []int32) {
		for i, v := range b {
			if v > a[i] {
				a[i] = v
			}
		}
	}
	for j := 0; j < n; j++ {
		e := &evs[j]
		c := make([]int32, nt)
		if l := lastOf[e.tid]; l >= 0 {
			join(c, clock[l])
		} else if e.spawn >= 0 {
			join(c, clock[e.spawn])
		}
		// candidates: earlier events on the same objects, latest first
		var cands []int32
		if len(e.objs) == 0 {
			if e.obj != 0 {
				cands = byObj[e.obj]
			}
		} else {
			seen := map[int32]bool{}
			for _, o := range e.objs {
				for _, i := range byObj[o] {
					if !seen[i] {
						seen[i] = true
						cands = append(cands, i)
					}
				}
			}
			sort.Slice(cands, func(a, b int) bool { return cands[a] < cands[b] })
		}
		var found []int32
		for k := len(cands) - 1; k >= 0; k-- {
			i := cands[k]
			f := &evs[i]
			if f.tid == e.tid || !depKinds(f.kind, e.kind) {
				continue
			}
			if c[f.tid] > f.local {
				continue // already ordered
			}
			found = append(found, i)
			join(c, clock[i])
		}
		for _, p := range e.pred {
			join(c, clock[p])
		}
		count[e.tid]++
		e.local = count[e.tid] - 1
		c[e.tid] = count[e.tid]
		clock[j] = c
		lastOf[e.tid] = int32(j)
		if j < real {
			if e.obj != 0 {
				byObj[e.obj] = append(byObj[e.obj], int32(j))
			}
			for _, o := range e.objs {
				byObj[o] = append(byObj[o], int32(j))
			}
		}
		if j < real && j < len(nodeOf) && nodeOf[j] < firstNew {
			continue
		}
		for _, i := range found {
			races++
			f := &evs[i]
			// v: events after i that do not depend on it, then e
			nd := stack[nodeOf[i]]
			firstIn := map[int32]bool{}
			var inits []int
			var inV []int32
			add := func(k int32) {
				g := &evs[k]
				if !firstIn[g.tid] {
					firstIn[g.tid] = true
					initial := true
					for _, m := range inV {
						if clock[k][evs[m].tid] > evs[m].local && evs[m].tid != g.tid {
							initial = false
							break
						}
					}
					if initial {
						inits = append(inits, int(g.tid))
					}
				}
				inV = append(inV, k)
			}
			for k := i + 1; k < int32(j); k++ {
				if clock[k][f.tid] > f.local {
					continue
				}
				add(k)
			}
			// e itself: ordered after members of v only through program order, dependence or enabling that is not through i
			add(int32(j))
			have := false
			for _, p := range inits {
				if nd.back[p] {
					have = true
					break
				}
			}
			if have {
				continue
			}
			added := false
			for _, p := range inits {
				if contains(nd.enabled, p) {
					nd.back[p] = true
					added = true
					break
				}
			}
			if !added {
				for _, p := range nd.enabled {
					nd.back[p] = true
				}
			}
		}
	}
	return races
}

func contains(a []int, v int) bool {
	for _, x := range a {
		if x == v {
			return true
		}
	}
	return false
}
