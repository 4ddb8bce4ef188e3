// Command harness enumerates the cases of one property against the readers, under the controlled scheduler.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/asap2Go/calibrationReader/zzverif/vsched"
	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

// Violation is a confirmed failing case.
type Violation struct {
	Case     string            `json:"case"`
	NumCPU   int               `json:"numcpu"`
	Msg      string            `json:"msg"`
	Schedule []int             `json:"schedule,omitempty"`
	Input    map[string]string `json:"input,omitempty"`
	Repeat   string            `json:"repeat"`
}

// Result is what one process covered.
type Result struct {
	Cases       int            `json:"cases"`
	Execs       int            `json:"execs"`
	Cut         int            `json:"sleep_cut"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Compared    int            `json:"compared"`
	Outcomes    int            `json:"distinct_outcomes"`
	Explored    int            `json:"cases_all_schedules"`
	Capped      int            `json:"cases_capped"`
	Diverged    int            `json:"diverged"`
	MaxSteps    int            `json:"max_steps"`
	MaxThreads  int            `json:"max_threads"`
	MaxExecs    int            `json:"max_execs_one_case"`
	Families    map[string]int `json:"families"`
	Complete    bool           `json:"complete"`
	Samples     []string       `json:"samples"`
	Violations  []Violation    `json:"violations"`
	Known       map[string]int `json:"known"`
	Unsupported string         `json:"unsupported,omitempty"`
	Slowest     string         `json:"slowest"`
	SlowestMs   int            `json:"slowest_ms"`
}

// Ctx drives one property.
type Ctx struct {
	prop, tier   string
	shard, total int
	only         string
	family       string
	famFilter    string
	deadline     time.Time
	dir          string
	explore      bool // racing accesses are visible operations: explore schedules where one is enough otherwise
	numCPU       int
	plain        bool
	race         bool
	res          Result
	idx          int
	outcomes     map[uint64]bool
	input        map[string]string
	status       *os.File
	maxViol      int
	schedOnly    []int
	nfile        int
	slowD        time.Duration
	ngc          int
}

// thorough tells the tier.
func (c *Ctx) thorough() bool { return c.tier == "thorough" }

// pick is q in the quick tier, t in the thorough one.
func (c *Ctx) pick(q, t int) int {
	if c.thorough() {
		return t
	}
	return q
}

var caseNo int64

func main() {
	var c Ctx
	var shard, out, status, sched string
	var secs float64
	flag.StringVar(&c.prop, "prop", "", "")
	flag.StringVar(&c.tier, "tier", "quick", "")
	flag.StringVar(&shard, "shard", "0/1", "")
	flag.StringVar(&c.only, "only", "", "")
	flag.StringVar(&c.famFilter, "family", "", "")
	flag.StringVar(&out, "out", "", "")
	flag.StringVar(&status, "status", "", "")
	flag.StringVar(&sched, "schedule", "", "")
	flag.StringVar(&c.dir, "dir", "", "")
	flag.Float64Var(&secs, "secs", 600, "")
	flag.BoolVar(&c.plain, "plain", false, "")
	flag.BoolVar(&c.explore, "explore", false, "")
	hang := flag.Float64("hang", 30, "")
	maxViol := flag.Int("maxviol", 3, "")
	flag.Parse()
	fmt.Sscanf(shard, "%d/%d", &c.shard, &c.total)
	c.race = vsched.RaceEnabled
	c.deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
	c.numCPU = vsched.NumCPU()
	c.outcomes = map[uint64]bool{}
	c.res.Families = map[string]int{}
	c.res.Known = map[string]int{}
	c.res.Complete = true
	c.maxViol = *maxViol
	if sched != "" {
		for _, s := range strings.Split(sched, ",") {
			n, _ := strconv.Atoi(s)
			c.schedOnly = append(c.schedOnly, n)
		}
	}
	if status != "" {
		f, err := os.Create(status)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		c.status = f
	}
	if err := os.Chdir(c.dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		realOut = os.NewFile(uintptr(dup(1)), "stdout")
		syscall.Dup2(int(n.Fd()), 1)
	}
	silence()
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	go watchdog(time.Duration(*hang*float64(time.Second)), c.plain)
	f, ok := props[c.prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", c.prop)
		os.Exit(4)
	}
	f(&c)
	c.res.Outcomes = len(c.outcomes)
	c.res.Unsupported = vsched.Unsupported
	b, _ := json.MarshalIndent(&c.res, "", " ")
	if out != "" {
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
	} else {
		realOut.Write(b)
	}
	os.Exit(0)
}

var realOut = os.Stdout

func dup(fd int) int {
	n, err := syscall.Dup(fd)
	if err != nil {
		return fd
	}
	return n
}

func silence() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	log.Logger = zerolog.New(io.Discard).Level(zerolog.Disabled)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(0, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process if one case uses too much processor time (endless loop) or memory.
func watchdog(limit time.Duration, plain bool) {
	last := int64(-1)
	var start time.Duration
	var wall time.Time
	for {
		time.Sleep(200 * time.Millisecond)
		n := atomic.LoadInt64(&caseNo)
		cpu := cpuTime()
		if n != last {
			last, start, wall = n, cpu, time.Now()
		} else if cpu-start > limit || plain && time.Since(wall) > 4*limit {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "HANG after %v\n%s\n", cpu-start, buf)
			os.Exit(7)
		}
		if b, err := os.ReadFile("/proc/self/statm"); err == nil {
			var vm, rss int64
			fmt.Sscanf(string(b), "%d %d", &vm, &rss)
			if rss*int64(os.Getpagesize()) > 3<<30 {
				fmt.Fprintf(os.Stderr, "MEMORY\n")
				os.Exit(8)
			}
		}
	}
}

// fam begins a family of cases; it is false if the family is not to be run.
func (c *Ctx) fam(name string) bool {
	c.family = name
	if c.famFilter != "" && c.famFilter != name {
		return false
	}
	if c.only != "" && !strings.HasPrefix(c.only, name+"/") {
		return false
	}
	return !c.expired()
}

func (c *Ctx) expired() bool {
	if len(c.res.Violations) >= c.maxViol {
		return true
	}
	if time.Now().After(c.deadline) {
		c.res.Complete = false
		return true
	}
	return false
}

// want tells whether the case with the given name is to be run by this process. Names are made by fmt.Sprint of the
// arguments, only when needed.
func (c *Ctx) want(name func() string) (string, bool) {
	i := c.idx
	c.idx++
	if c.only != "" {
		id := c.family + "/" + name()
		return id, id == c.only
	}
	if i%c.total != c.shard {
		return "", false
	}
	if i&15 == 0 || c.shard == i%c.total && (i/c.total)&15 == 0 {
		if c.expired() {
			return "", false
		}
	} else if !c.res.Complete || len(c.res.Violations) >= c.maxViol {
		return "", false
	}
	return c.family + "/" + name(), true
}

func (c *Ctx) begin(id string) {
	atomic.AddInt64(&caseNo, 1)
	c.input = nil
	if c.status != nil {
		c.status.WriteAt([]byte(fmt.Sprintf("%-200s\n", id)), 0)
	}
	c.res.Cases++
	c.res.Families[c.family]++
}

func (c *Ctx) outcome(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.outcomes[h.Sum64()] = true
}

func (c *Ctx) sample(s string) {
	if len(c.res.Samples) < 3 && c.res.Families[c.family] == 1 || len(c.res.Samples) < 6 && c.res.Cases%997 == 0 {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		c.res.Samples = append(c.res.Samples, s)
	}
}

// abnormal describes an execution that did not end properly.
func abnormal(x *vsched.Exec) string {
	switch {
	case x.Panic != "":
		return "panic: " + x.Panic
	case x.Deadlock:
		return "deadlock: the call never returns; blocked: " + strings.Join(x.Blocked, ", ")
	case x.StepLimit:
		return "endless: the call does not come to an end"
	}
	return ""
}

func (c *Ctx) violate(id, msg string, again func() string, sched []int) {
	n := 0
	for i := 0; i < 10; i++ {
		atomic.AddInt64(&caseNo, 1)
		if again() != "" {
			n++
		}
	}
	if n == 0 {
		c.res.Diverged++
		return
	}
	c.res.Violations = append(c.res.Violations, Violation{Case: id, NumCPU: c.numCPU, Msg: msg, Schedule: sched, Input: c.input,
		Repeat: fmt.Sprintf("%d of 10", n)})
}

// one runs a case under the default schedule. body runs under the scheduler; check judges the result, it is not
// called if the execution ended abnormally.
func (c *Ctx) one(name func() string, mk func() (body func(), check func(x *vsched.Exec) string)) {
	id, ok := c.want(name)
	if !ok {
		return
	}
	c.begin(id)
	t0 := time.Now()
	body, check := mk()
	run := func() string {
		x := vsched.RunOnce(body, nil, false)
		c.res.Transitions += x.Steps()
		c.res.Execs++
		c.res.States += x.Steps() + 1
		if x.Steps() > c.res.MaxSteps {
			c.res.MaxSteps = x.Steps()
		}
		if x.Threads() > c.res.MaxThreads {
			c.res.MaxThreads = x.Threads()
		}
		if m := abnormal(x); m != "" {
			return m
		}
		c.res.Compared++
		return check(x)
	}
	msg := run()
	c.slow(id, t0)
	c.sample(id)
	if msg != "" {
		c.violate(id, msg, run, nil)
	}
}

// some runs a case under the default schedule or, where unsynchronised accesses were found, under up to cap schedules.
func (c *Ctx) some(name func() string, cap int, mk func() (body func(), check func(x *vsched.Exec) string)) {
	if c.explore || c.schedOnly != nil {
		c.all(name, cap, mk)
	} else {
		c.one(name, mk)
	}
}

func (c *Ctx) slow(id string, t0 time.Time) {
	if d := time.Since(t0); d > c.slowD {
		c.slowD = d
		c.res.Slowest, c.res.SlowestMs = id, int(d.Milliseconds())
	}
}

// all runs a case under every schedule.
func (c *Ctx) all(name func() string, cap int, mk func() (body func(), check func(x *vsched.Exec) string)) {
	id, ok := c.want(name)
	if !ok {
		return
	}
	c.begin(id)
	t0 := time.Now()
	body, check := mk()
	judge := func(x *vsched.Exec) string {
		if m := abnormal(x); m != "" {
			return m
		}
		return check(x)
	}
	if c.schedOnly != nil {
		if msg := judge(vsched.Replay(body, c.schedOnly)); msg != "" {
			c.violate(id, msg, func() string { return judge(vsched.Replay(body, c.schedOnly)) }, c.schedOnly)
		}
		return
	}
	var bad string
	st := vsched.Explore(body, func(x *vsched.Exec) bool {
		atomic.AddInt64(&caseNo, 1)
		c.res.Compared++
		bad = judge(x)
		return bad == ""
	}, vsched.Options{MaxExecs: cap, Stop: c.late})
	c.res.Execs += st.Execs
	c.res.Cut += st.SleepCut
	c.res.Transitions += st.Transitions
	c.res.States += st.Nodes
	c.res.Explored++
	c.res.Diverged += st.Diverged
	if st.Execs > c.res.MaxExecs {
		c.res.MaxExecs = st.Execs
	}
	if st.MaxSteps > c.res.MaxSteps {
		c.res.MaxSteps = st.MaxSteps
	}
	if st.MaxThreads > c.res.MaxThreads {
		c.res.MaxThreads = st.MaxThreads
	}
	c.slow(id, t0)
	c.sample(fmt.Sprintf("%s: %d executions, %d operations, exhaustive=%v, schedule of the last one %v", id, st.Execs, st.Transitions, st.Exhaustive, head(st.Sched)))
	if bad != "" {
		sched := append([]int(nil), st.Sched...)
		c.violate(id, bad, func() string { return judge(vsched.Replay(body, sched)) }, sched)
	} else if !st.Exhaustive {
		c.res.Capped++
	}
}

func (c *Ctx) late() bool { return time.Now().After(c.deadline) }

func head(s []int) []int {
	if len(s) > 40 {
		return s[:40]
	}
	return s
}

// file writes an input file in the scratch directory and returns its path.
func (c *Ctx) file(name, content string) string {
	p := filepath.Join(c.dir, name)
	if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	if c.input == nil {
		c.input = map[string]string{}
	}
	if len(content) > 20000 {
		content = content[:20000] + "..."
	}
	c.input[name] = content
	return p
}

var props = map[string]func(*Ctx){}
