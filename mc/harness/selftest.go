package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/asap2Go/calibrationReader/zzverif/vsched"
)

func init() { props["selftest"] = selftest }

// selftest compares the outcomes found by the reduced exploration with those of the unreduced one on small programs.
func selftest(c *Ctx) {
	var out string
	add := func(s string, a ...interface{}) { out += fmt.Sprintf(s, a...) + ";" }
	progs := map[string]func(){
		"two-senders": func() {
			ch := vsched.MakeChan[int](2)
			vsched.Go(func() { ch.Send(1) })
			vsched.Go(func() { ch.Send(2) })
			add("%d", ch.Recv())
			add("%d", ch.Recv())
		},
		"unbuffered": func() {
			ch := vsched.MakeChan[int](0)
			for i := 0; i < 3; i++ {
				i := i
				vsched.Go(func() { ch.Send(i) })
			}
			for i := 0; i < 3; i++ {
				add("%d", ch.Recv())
			}
		},
		"len": func() {
			ch := vsched.MakeChan[int](3)
			vsched.Go(func() { ch.Send(1); ch.Send(2) })
			add("%d", ch.Len())
		},
		"deadlock-order": func() {
			var a, b vsched.Mutex
			var wg vsched.WaitGroup
			wg.Add(2)
			vsched.Go(func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); wg.Done() })
			vsched.Go(func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); wg.Done() })
			wg.Wait()
		},
		"mutex-order": func() {
			var m vsched.Mutex
			var wg vsched.WaitGroup
			s := ""
			for i := 0; i < 3; i++ {
				i := i
				wg.Add(1)
				vsched.Go(func() { m.Lock(); s += fmt.Sprint(i); m.Unlock(); wg.Done() })
			}
			wg.Wait()
			add(s)
		},
		"lost-update": func() {
			n := 0
			var wg vsched.WaitGroup
			wg.Add(2)
			for i := 0; i < 2; i++ {
				vsched.Go(func() {
					vsched.RaceYield(1)
					t := n
					vsched.RaceYield(2)
					n = t + 1
					wg.Done()
				})
			}
			wg.Wait()
			add("%d", n)
		},
		"close-vs-send": func() {
			ch := vsched.MakeChan[int](1)
			vsched.Go(func() { ch.Close() })
			ch.Send(1)
		},
		"wg-early": func() {
			var wg vsched.WaitGroup
			x := 0
			vsched.Go(func() { wg.Add(1); vsched.RaceYield(1); x = 1; wg.Done() })
			wg.Wait()
			vsched.RaceYield(2)
			add("%d", x)
		},
		"pipeline": func() {
			a := vsched.MakeChan[int](1)
			b := vsched.MakeChan[int](1)
			for i := 0; i < 2; i++ {
				vsched.Go(func() {
					for r, v := vsched.RangeInit(a); r.Next(&v); {
						b.Send(v * 10)
					}
				})
			}
			vsched.Go(func() { a.Send(1); a.Send(2); a.Close() })
			for i := 0; i < 2; i++ {
				add("%d", b.Recv())
			}
		},
		"select": func() {
			a := vsched.MakeChan[int](1)
			b := vsched.MakeChan[int](1)
			vsched.Go(func() { a.Send(1) })
			vsched.Go(func() { b.Send(2) })
			for i := 0; i < 2; i++ {
				s := vsched.Select(false, vsched.RecvCase(a), vsched.RecvCase(b))
				add("%d", s.Index)
			}
			s := vsched.Select(true, vsched.RecvCase(a))
			add("%d", s.Index)
		},
		"rw": func() {
			var m vsched.RWMutex
			var wg vsched.WaitGroup
			n := 0
			s := vsched.MakeChan[string](3)
			wg.Add(3)
			for i := 0; i < 2; i++ {
				i := i
				vsched.Go(func() { m.RLock(); s.Send(fmt.Sprint(i, n)); m.RUnlock(); wg.Done() })
			}
			vsched.Go(func() { m.Lock(); n = 1; m.Unlock(); wg.Done() })
			wg.Wait()
			add("%s%s", s.Recv(), s.Recv())
		},
		"bounded-buffer": func() {
			ch := vsched.MakeChan[int](1)
			done := vsched.MakeChan[bool](2)
			vsched.Go(func() { ch.Send(1); ch.Send(2); done.Send(true) })
			vsched.Go(func() { ch.Send(3); done.Send(true) })
			add("%d%d%d", ch.Recv(), ch.Recv(), ch.Recv())
		},
		"leak": func() {
			ch := vsched.MakeChan[int](1)
			for i := 0; i < 3; i++ {
				i := i
				vsched.Go(func() { ch.Send(i) })
			}
			add("%d", ch.Recv())
		},
		"once": func() {
			var o vsched.Once
			var wg vsched.WaitGroup
			wg.Add(2)
			s := vsched.MakeChan[int](2)
			for i := 0; i < 2; i++ {
				i := i
				vsched.Go(func() { o.Do(func() { s.Send(i) }); wg.Done() })
			}
			wg.Wait()
			add("%d", s.Recv())
		},
	}
	var names []string
	for n := range progs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		p := progs[n]
		collect := func(naive bool) (map[string]int, vsched.Stats) {
			m := map[string]int{}
			st := vsched.Explore(func() { out = ""; p() }, func(x *vsched.Exec) bool {
				o := out
				if x.Panic != "" {
					o = "panic " + strings.SplitN(x.Panic, "\n", 2)[0]
					o = o[strings.Index(o, "):")+2:]
				}
				if x.Deadlock {
					o += "deadlock"
				}
				m[o+fmt.Sprint(len(x.Blocked))]++
				return true
			}, vsched.Options{Naive: naive, Preempt: -1, MaxExecs: 400000})
			return m, st
		}
		d, sd := collect(false)
		v, sv := collect(true)
		ok := len(d) == len(v) && sd.Exhaustive && sv.Exhaustive
		for k := range v {
			if d[k] == 0 {
				ok = false
			}
		}
		c.res.Cases++
		c.res.Samples = append(c.res.Samples, fmt.Sprintf("%s: reduced %d executions (%d cut), all %d, outcomes %d", n, sd.Execs, sd.SleepCut, sv.Execs, len(v)))
		if !ok {
			c.res.Violations = append(c.res.Violations, Violation{Case: n, Msg: fmt.Sprintf("reduced %v exhaustive %v, all %v exhaustive %v", d, sd.Exhaustive, v, sv.Exhaustive)})
		}
	}
}
