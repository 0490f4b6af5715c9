// Package simrt is the run-time part of the simulator: it owns the choice of which simulated task runs,
// at the granularity of single statements of the instrumented library code.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
)

// Hang is the panic value used when a run exceeds its step budget.
type Hang struct{ Steps uint64 }

func (h Hang) Error() string {
	return fmt.Sprintf("simulated step budget exceeded (%d steps)", h.Steps)
}

// Switch is one preemption: when the step counter reaches At, task To runs.
type Switch struct {
	At uint64 `json:"at"`
	To int    `json:"to"`
}

type task struct {
	id   int
	ch   chan struct{}
	done bool
}

const maxSites = 1 << 15

var (
	on       bool
	steps    uint64 // statements executed in this run
	points   uint64 // client-level steps executed in this run
	next     uint64 // next step at which slow() has something to do
	budget   uint64
	hung     bool
	apiMode  bool
	tasks    []*task
	cur      *task
	sched    []Switch
	schedPos int
	trace    uint64 // hash of the interleaving
	switches uint64
	cover    [maxSites]bool
	failed   interface{} // panic of a task
	seed     uint64      // of map randomness
)

// Y marks a statement of instrumented code.
//
//go:norace
func Y(site uint32) {
	if !on || !runtime.SimMember() { // Goroutines that the library starts are not simulated.
		return
	}

	steps++
	runtime.SimSet(seed + steps*0x9e3779b97f4a7c15)

	cover[site&(maxSites-1)] = true

	if steps >= next {
		slow(site)
	}
}

// Point marks a step of a simulated client (an API call boundary or a hook).
//
//go:norace
func Point() {
	if !on {
		return
	}

	points++
	runtime.SimSet(^seed + points*0x9e3779b97f4a7c15)

	if !apiMode {
		Y(0)

		return
	}

	if schedPos < len(sched) && points >= sched[schedPos].At {
		preempt(0)
	}
}

//go:norace
func slow(site uint32) {
	if steps >= budget && !hung {
		hung = true
		next = ^uint64(0)

		panic(Hang{Steps: steps})
	}

	if !apiMode && schedPos < len(sched) && steps >= sched[schedPos].At {
		preempt(site)
	}

	setNext()
}

//go:norace
func setNext() {
	next = budget
	if hung {
		next = ^uint64(0)
	}

	if !apiMode && schedPos < len(sched) && sched[schedPos].At < next {
		next = sched[schedPos].At
	}
}

//go:norace
func preempt(site uint32) {
	to := sched[schedPos].To
	schedPos++

	if len(tasks) < 2 {
		return
	}

	t := tasks[to%len(tasks)]
	if t.done || t == cur {
		return
	}

	if apiMode {
		mix(points)
	}

	mix(uint64(site)<<8 | uint64(t.id))

	switches++

	me := cur
	setNext()
	handoff(t)
	park(me)
}

func init() { runtime.SimBlocked = blocked }

// blocked lets another task run instead of one that waits, and tells if there is any.
//
//go:norace
func blocked() bool {
	if !on || len(tasks) < 2 {
		return false
	}

	me := cur

	for i := 1; i < len(tasks); i++ {
		t := tasks[(me.id+i)%len(tasks)]
		if t.done {
			continue
		}

		// Waiting without end exceeds the budget.
		if steps++; steps >= budget && !hung {
			hung = true
			next = ^uint64(0)

			panic(Hang{Steps: steps})
		}

		mix(0xfffe00 | uint64(t.id))
		switches++
		handoff(t)
		park(me)

		return true
	}

	return false
}

//go:norace
func mix(v uint64) {
	trace = (trace ^ v) * 0x100000001b3
	trace ^= trace >> 29
}

//go:norace
func handoff(t *task) {
	cur = t

	raceOff()
	t.ch <- struct{}{}
	raceOn()
}

//go:norace
func park(t *task) {
	raceOff()
	<-t.ch
	raceOn()
}

// Config of a run.
type Config struct {
	API    bool // preempt at client-level points only
	Sched  []Switch
	Budget uint64
	Seed   uint64 // map iteration order and hash seeds
}

// Idle puts the harness itself under fixed map randomness.
func Idle() {
	runtime.SimReset(1)
	runtime.SimJoin()
}

// Stats of a run.
type Stats struct {
	Steps, Points, Switches, Trace uint64
	Hung                           bool
}

// Cur returns the index of the running task.
//
//go:norace
func Cur() int {
	if cur == nil {
		return 0
	}

	return cur.id
}

// Steps returns the number of statements executed so far.
//
//go:norace
func Steps() uint64 { return steps }

// Begin starts a run.
func Begin(c Config) {
	steps, points, hung, schedPos, switches = 0, 0, false, 0, 0
	trace = 0xcbf29ce484222325
	budget = c.Budget
	if budget == 0 {
		budget = ^uint64(0)
	}

	apiMode = c.API
	sched = c.Sched
	tasks = nil
	cur = nil
	failed = nil

	setNext()

	seed = c.Seed

	runtime.SimReset(c.Seed)
	runtime.SimJoin()

	on = true
}

// End finishes a run.
func End() Stats {
	on = false
	Idle()

	return Stats{Steps: steps, Points: points, Switches: switches, Trace: trace, Hung: hung}
}

// Paused runs f (harness code) outside of the simulation.
//
//go:norace
func Paused(f func()) {
	was := on
	on = false

	f()

	on = was
}

// Run executes the functions as simulated tasks, one at a time, as the schedule says.
func Run(fs ...func()) {
	if len(fs) == 1 {
		fs[0]()

		return
	}

	tasks = nil
	for i := range fs {
		tasks = append(tasks, &task{id: i, ch: make(chan struct{})})
	}

	fin := make(chan struct{}, len(fs))
	alldone := make(chan struct{})

	for i := range fs {
		go body(tasks[i], fs[i], fin, alldone)
	}

	handoff(tasks[0])
	park2(alldone)

	// Joining tasks orders everything they did before what the harness does next.
	for range fs {
		<-fin
	}

	tasks = nil
	cur = nil

	if failed != nil {
		panic(failed)
	}
}

// protect keeps a panic of a task for Run to raise.
func protect(f func()) {
	defer func() {
		if p := recover(); p != nil && failed == nil {
			failed = fmt.Sprintf("%v\n%s", p, debug.Stack())

			if h, ok := p.(Hang); ok {
				failed = h
			}
		}
	}()

	f()
}

//go:norace
func park2(ch chan struct{}) {
	raceOff()
	<-ch
	raceOn()
}

//go:norace
func body(t *task, f func(), fin, alldone chan struct{}) {
	park(t)
	runtime.SimJoin()
	protect(f)

	t.done = true
	fin <- struct{}{}

	for _, n := range tasks {
		if !n.done {
			mix(0xffff00 | uint64(n.id))
			handoff(n)

			return
		}
	}

	raceOff()
	close(alldone)
	raceOn()
}

// Coverage returns the number of distinct instrumented statements executed so far.
func Coverage() (n int, sites []uint32) {
	for i, c := range cover {
		if c {
			n++
			sites = append(sites, uint32(i))
		}
	}

	return n, sites
}

// Reseed changes map iteration order and hash seeds for what the current task does from now on.
func Reseed(s uint64) {
	seed = s | 1

	if !runtime.SimMember() {
		runtime.SimJoin()
	}

	runtime.SimSet(seed)
}
