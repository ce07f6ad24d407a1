package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/wujiu2020/strip/utils"
	"stripverif/h"
)

type task struct {
	id        int
	given     atomic.Int64 // clock when RunTask returned
	runs      atomic.Int32
	ended     atomic.Bool
	byTask    bool
	submitted atomic.Bool
}

type run struct {
	c       *h.C
	w       *utils.Worker
	limit   int
	clock   atomic.Int64
	mu      sync.Mutex
	tasks   []*task
	running atomic.Int32
	peak    atomic.Int32
	tokens  chan bool // one for every task that holds a slot, when tasks give tasks
	overlap atomic.Int32
}

func pause(r *rand.Rand, mode int) {
	switch mode {
	case 1:
		runtime.Gosched()
	case 2:
		if r.IntN(3) == 0 {
			time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
		}
	case 3:
		for n := r.IntN(500); n > 0; n-- {
			runtime.KeepAlive(n)
		}
	}
}

func (x *run) add(byTask bool) *task {
	x.mu.Lock()
	defer x.mu.Unlock()
	t := &task{id: len(x.tasks), byTask: byTask}
	x.tasks = append(x.tasks, t)
	return t
}

// give hands one task to the worker; depth is how many generations it may give.
func (x *run) give(seed uint64, depth, mode int, byTask bool) {
	t := x.add(byTask)
	r := rand.New(rand.NewPCG(seed, uint64(t.id)))
	body := func() {
		if n := t.runs.Add(1); n != 1 {
			x.c.Fail("twice", "task %d ran %d times", t.id, n)
		}
		n := x.running.Add(1)
		if int(n) > x.limit {
			x.c.Fail("limit", "%d tasks run at a time, the limit is %d", n, x.limit)
		}
		for p := x.peak.Load(); n > p && !x.peak.CompareAndSwap(p, n); p = x.peak.Load() {
		}
		pause(r, mode)
		for k := 0; k < 2 && depth > 0; k++ {
			select {
			case x.tokens <- true:
				x.give(r.Uint64(), depth-1, mode, true)
			default:
			}
		}
		pause(r, mode)
		x.running.Add(-1)
		t.ended.Store(true)
		if x.tokens != nil {
			<-x.tokens
		}
	}
	t.submitted.Store(true)
	if r.IntN(2) == 0 {
		x.w.RunTask(body)
	} else {
		x.w.RunTask(func() error { body(); return nil })
	}
	t.given.Store(x.clock.Add(1))
}

// wait calls Wait and checks that everything given before has finished.
func (x *run) wait(who string) {
	at := x.clock.Add(1)
	err := x.w.Wait()
	if err != nil {
		x.c.Fail("error", "%s: Wait reports %v, no task failed", who, err)
	}
	x.mu.Lock()
	ts := append([]*task(nil), x.tasks...)
	x.mu.Unlock()
	for _, t := range ts {
		if g := t.given.Load(); g > 0 && g < at && !t.ended.Load() {
			x.c.Fail("early-wait", "%s: Wait returned before task %d, given before it was called, has finished (ran %d times)", who, t.id, t.runs.Load())
			return
		}
	}
	x.c.Count("waits", 1)
}

// mixed: submitters, tasks that give tasks and waiters, in rounds.
func mixed(c *h.C) {
	x := &run{c: c, limit: 1 + c.IntN(8)}
	if c.Chance(30) {
		x.limit = 1 + c.IntN(2)
	}
	x.w = utils.NewWorker(x.limit)
	depth := 0
	if c.Chance(50) {
		depth = 1 + c.IntN(3)
		x.tokens = make(chan bool, x.limit)
	}
	rounds := 1 + c.IntN(3)
	sig := fmt.Sprint(x.limit, depth)
	for round := 0; round < rounds; round++ {
		subs, per, mode := 1+c.IntN(6), 1+c.IntN(25), c.IntN(4)
		waiters := 0
		if c.Chance(60) {
			waiters = 1 + c.IntN(3)
		}
		var wg, ww sync.WaitGroup
		gate := make(chan bool)
		var over atomic.Bool
		for s := 0; s < subs; s++ {
			r := rand.New(rand.NewPCG(c.Uint64(), uint64(s)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for i := 0; i < per; i++ {
					if x.tokens != nil {
						x.tokens <- true
					}
					x.give(r.Uint64(), depth, mode, false)
					pause(r, r.IntN(4))
				}
			}()
		}
		for s := 0; s < waiters; s++ {
			r := rand.New(rand.NewPCG(c.Uint64(), uint64(s)))
			ww.Add(1)
			go func() {
				defer ww.Done()
				<-gate
				for i := 0; i < 200 && !over.Load(); i++ {
					x.wait("a concurrent waiter")
					x.c.Count("concurrent waits", 1)
					pause(r, 1+r.IntN(3))
				}
			}()
		}
		close(gate)
		wg.Wait()
		x.wait("the final waiter")
		over.Store(true)
		ww.Wait()
		// a task that gave tasks was given before: its tasks are too
		x.wait("the waiter after all")
		sig += fmt.Sprint(" ", subs, per, mode, waiters, x.peak.Load())
		n := x.running.Load()
		if n != 0 {
			c.Fail("left", "%d tasks still run after Wait", n)
		}
		for _, t := range x.tasks {
			if k := t.runs.Load(); k != 1 {
				c.Fatal("runs", "task %d of %d (round %d, given by a task: %v) ran %d times", t.id, len(x.tasks), round, t.byTask, k)
			}
			if t.byTask {
				c.Count("tasks given by tasks", 1)
			}
		}
		c.Count("tasks", len(x.tasks))
	}
	if rounds > 1 {
		c.Count("reused workers", 1)
	}
	c.Eval(len(x.tasks))
	c.Sig("%s", sig)
}

// full: as many tasks as the limit run at a time; they wait for each other.
func full(c *h.C) {
	limit := 1 + c.IntN(8)
	w := utils.NewWorker(limit)
	for round := 0; round < 2; round++ {
		var wg sync.WaitGroup
		var done atomic.Int32
		wg.Add(limit)
		body := func() { wg.Done(); wg.Wait(); done.Add(1) }
		if c.Chance(50) {
			for i := 0; i < limit; i++ {
				w.RunTask(body)
			}
		} else {
			// every task gives the next one
			var next func(i int) func()
			next = func(i int) func() {
				return func() {
					if i+1 < limit {
						w.RunTask(next(i + 1))
					}
					body()
				}
			}
			w.RunTask(next(0))
		}
		if err := w.Wait(); err != nil {
			c.Fail("error", "Wait reports %v", err)
		}
		if int(done.Load()) != limit {
			c.Fail("early-wait", "Wait returned with %d of %d tasks finished", done.Load(), limit)
		}
		c.Count("full workers", 1)
	}
	c.Sig("full %d", limit)
}

// chain: a waiter waits while every task gives the next before it ends.
func chain(c *h.C) {
	w := utils.NewWorker(2 + c.IntN(3))
	n := 1 + c.IntN(60)
	var done atomic.Int32
	var step func(i int) func()
	seed := c.Uint64()
	step = func(i int) func() {
		return func() {
			r := rand.New(rand.NewPCG(seed, uint64(i)))
			pause(r, r.IntN(4))
			if i+1 < n {
				w.RunTask(step(i + 1))
			}
			pause(r, r.IntN(4))
			done.Add(1)
		}
	}
	w.RunTask(step(0))
	var ww sync.WaitGroup
	for i := 0; i < 1+c.IntN(3); i++ {
		ww.Add(1)
		go func() {
			defer ww.Done()
			if err := w.Wait(); err != nil {
				c.Fail("error", "Wait reports %v", err)
			}
			if int(done.Load()) != n {
				c.Fail("chain", "Wait returned after %d of %d tasks, each given by the one before while it ran", done.Load(), n)
			}
		}()
	}
	ww.Wait()
	c.Count("chains", 1)
	c.Sig("chain %d", n)
}

// idle: Wait of a worker without tasks returns.
func idle(c *h.C) {
	w := utils.NewWorker(1 + c.IntN(4))
	for i := 0; i < 3; i++ {
		if err := w.Wait(); err != nil {
			c.Fail("error", "Wait of an idle worker reports %v", err)
		}
	}
	var ran atomic.Bool
	w.RunTask(func() { ran.Store(true) })
	w.Wait()
	if !ran.Load() {
		c.Fail("runs", "a task given after Wait of an idle worker did not run")
	}
}

func main() {
	h.Main(h.Spec{
		ID:   "C38",
		Rule: "workers of limits 1 to 8 are given tasks by 1 to 6 goroutines and by running tasks (never more than have a free slot) while up to 3 goroutines call Wait, with yields, sleeps and spins inside tasks and between calls, in up to 3 rounds per worker; monitors count runs per task, tasks running at a time and compare every return of Wait with the tasks given before it; a case that does not end is a violation; all under the race detector",
		Assumptions: []string{
			"schedules are those the Go scheduler produced with the injected pauses",
		},
		Min:         map[string]int64{"tasks": 20000, "tasks given by tasks": 1000, "concurrent waits": 1000, "reused workers": 50, "full workers": 100, "chains": 50},
		MinDistinct: 200,
		Run: func(r *h.R) {
			r.Loop("idle", 5, idle)
			r.Loop("full", r.N(100, 2000), full)
			r.Loop("chain", r.N(200, 10000), chain)
			r.Loop("mixed", r.N(600, 30000), mixed)
		},
	})
}
