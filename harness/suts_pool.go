package main

import (
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/timtadh/data-structures/pool"
)

type poolRun struct {
	p     *pool.Pool
	log   *events
	wg    sync.WaitGroup
	next  atomic.Int64
	limit int64
	// written by the functions without synchronization of their own: reading
	// after Stop or WaitLock is a data race unless the pool really has finished
	marks []int64
	fine  []bool // Do returned nil, set by the submitter
}

// width is a number of workers, now and then a large one
func width(rng *rand.Rand, few int) int {
	if rng.Intn(15) == 0 {
		return 10 + rng.Intn(60)
	}
	return 1 + rng.Intn(few)
}

func newPoolRun(workers int, limit int, quiet bool) *poolRun {
	r := &poolRun{log: &events{quiet: quiet}, limit: int64(limit), marks: make([]int64, limit+1), fine: make([]bool, limit+1)}
	r.log.add(`["new","pool",%d]`, workers)
	r.p = pool.New(workers)
	return r
}

// do submits one function; gate, when not nil, is waited for inside
func (r *poolRun) do(body func()) (accepted bool) {
	t := r.next.Add(1)
	if t > r.limit {
		return false
	}
	r.log.add(`["docall",%d]`, t)
	err := r.p.Do(func() {
		r.log.add(`["start",%d]`, t)
		r.marks[t]++
		body()
		r.marks[t]++
		r.log.add(`["end",%d]`, t)
	})
	if err != nil {
		r.log.add(`["doerr",%d]`, t)
		return false
	}
	r.log.add(`["dook",%d]`, t)
	r.fine[t] = true
	return true
}

func (r *poolRun) stop() {
	r.log.add(`["stopcall"]`)
	r.p.Stop()
	r.log.add(`["stopret"]`)
}

func (r *poolRun) lock() {
	r.log.add(`["lockcall"]`)
	r.p.WaitLock()
	r.log.add(`["lockret"]`)
}

func (r *poolRun) unlock() {
	r.log.add(`["unlock"]`)
	r.p.Unlock()
}

func (r *poolRun) count(c int) int {
	r.log.add(`["countcall",%d]`, c)
	n := r.p.WaitCount()
	r.log.add(`["countret",%d,%d]`, c, n)
	return n
}

// look checks that the functions known to be accepted have run once; the
// caller has stopped or locked the pool
func (r *poolRun) look() {
	for t := range r.marks {
		if r.fine[t] && r.marks[t] != 2 {
			r.log.add(`["lost",%d]`, t)
		}
	}
}

// quiet waits until nothing moves any more by itself
func (r *poolRun) quiet() {
	if !r.log.quiet && settle() {
		r.log.add(`["quiet"]`)
	}
}

func (r *poolRun) goDo(f func()) {
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		f()
	}()
}

// over ends the run: everything is joined, then the pool is stopped again and
// asked for what a stopped pool answers.
func (r *poolRun) over(rng *rand.Rand, locks bool) []string {
	r.wg.Wait()
	r.stop()
	r.look()
	if rng.Intn(2) == 0 {
		r.do(func() {})
	}
	if locks {
		if rng.Intn(2) == 0 {
			r.lock()
			r.unlock()
		}
		if rng.Intn(2) == 0 {
			r.count(1)
		}
		r.do(func() {})
	}
	if rng.Intn(3) == 0 {
		r.stop()
	}
	r.log.add(`["over"]`)
	return r.log.lines
}

func body(rng *rand.Rand) func() {
	k := rng.Intn(5)
	d := time.Duration(1+rng.Intn(300)) * time.Microsecond
	seed := rng.Int63()
	return func() {
		switch k {
		case 0:
		case 1:
			time.Sleep(d)
		default:
			nap(rand.New(rand.NewSource(seed)), 60)
		}
	}
}

func fork(rng *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(rng.Int63())) }

const smallTasks = 40

func init() {
	// submitters and stoppers
	addScenario("pool", "stop", func(rng *rand.Rand, quiet bool) []string {
		r := newPoolRun(width(rng, 4), smallTasks, quiet)
		for s := 1 + rng.Intn(5); s > 0; s-- {
			g, n := fork(rng), 1+rng.Intn(9)
			r.goDo(func() {
				for i := 0; i < n; i++ {
					r.do(body(g))
					nap(g, 80)
				}
			})
		}
		for s := rng.Intn(4); s > 0; s-- {
			g, late := fork(rng), time.Duration(rng.Intn(1500))*time.Microsecond
			r.goDo(func() {
				time.Sleep(late)
				r.stop()
				if g.Intn(2) == 0 {
					r.do(func() {})
				}
			})
		}
		return r.over(rng, false)
	})
	// one goroutine, many calls: the simplest clients
	addScenario("pool", "serial", func(rng *rand.Rand, quiet bool) []string {
		r := newPoolRun(width(rng, 8), smallTasks, quiet)
		for i := rng.Intn(smallTasks - 4); i > 0; i-- {
			r.do(body(rng))
		}
		return r.over(rng, false)
	})
	// queues filled to the brim behind a gate, submitters blocked in Do
	addScenario("pool", "full", func(rng *rand.Rand, quiet bool) []string {
		return fullPool(rng, quiet, false)
	})
	addScenario("pool", "fulllock", func(rng *rand.Rand, quiet bool) []string {
		return fullPool(rng, quiet, true)
	})
	// submitters, lockers, counters, sometimes stoppers
	addScenario("pool", "lock", func(rng *rand.Rand, quiet bool) []string {
		r := newPoolRun(width(rng, 4), smallTasks, quiet)
		for s := 1 + rng.Intn(4); s > 0; s-- {
			g, n := fork(rng), 1+rng.Intn(8)
			r.goDo(func() {
				for i := 0; i < n; i++ {
					r.do(body(g))
					nap(g, 80)
				}
			})
		}
		for s := 1 + rng.Intn(2); s > 0; s-- {
			g, n := fork(rng), 1+rng.Intn(4)
			r.goDo(func() {
				for i := 0; i < n; i++ {
					nap(g, 300)
					r.lock()
					nap(g, 200)
					r.unlock()
				}
			})
		}
		for c := rng.Intn(3); c > 0; c-- {
			g, n, id := fork(rng), 1+rng.Intn(4), c
			r.goDo(func() {
				for i := 0; i < n; i++ {
					nap(g, 300)
					r.count(id)
				}
			})
		}
		if rng.Intn(4) == 0 {
			late := time.Duration(rng.Intn(1500)) * time.Microsecond
			r.goDo(func() {
				time.Sleep(late)
				r.stop()
			})
		}
		return r.over(rng, true)
	})
	// work, lock, look, unlock, in turns by one goroutine: after Unlock the
	// pool works as before
	addScenario("pool", "turns", func(rng *rand.Rand, quiet bool) []string {
		r := newPoolRun(width(rng, 6), smallTasks, quiet)
		for i := 1 + rng.Intn(6); i > 0; i-- {
			for j := rng.Intn(6); j > 0; j-- {
				r.do(body(rng))
			}
			r.lock()
			r.look()
			if rng.Intn(2) == 0 { // a submitter waits outside
				r.goDo(func() { r.do(func() {}) })
				nap(rng, 300)
			}
			r.unlock()
			r.wg.Wait()
		}
		return r.over(rng, true)
	})
	// functions that end one by one, as told; WaitCount in between
	addScenario("pool", "count", func(rng *rand.Rand, quiet bool) []string {
		w := 1 + rng.Intn(4)
		r := newPoolRun(w, smallTasks, quiet)
		n := 1 + rng.Intn(10)
		gate := make(chan bool)
		r.goDo(func() {
			for i := 0; i < n; i++ {
				r.do(func() { <-gate })
			}
		})
		if rng.Intn(3) > 0 { // as far as the pool takes them
			settle()
		}
		for c := 1 + rng.Intn(2); c > 0; c-- {
			g, k, id := fork(rng), 1+rng.Intn(3), c
			r.goDo(func() {
				for i := 0; i < k; i++ {
					nap(g, 200)
					r.count(id)
				}
			})
		}
		if rng.Intn(3) == 0 {
			r.goDo(func() {
				r.lock()
				r.unlock()
			})
		}
		for i := 0; i < n; i++ {
			if rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Intn(1200)) * time.Microsecond)
			}
			gate <- true
		}
		return r.over(rng, true)
	})
	// everybody waits; one function ends at a time, and all that can follow
	// has followed before the next one does
	addScenario("pool", "held", func(rng *rand.Rand, quiet bool) []string {
		w := 1 + rng.Intn(4)
		r := newPoolRun(w, smallTasks, quiet)
		n := 1 + rng.Intn(8)
		gate := make(chan bool)
		accepted, submitted := 0, make(chan bool)
		r.goDo(func() { // how many the pool takes before Do waits is its own affair
			for i := 0; i < n; i++ {
				if r.do(func() { <-gate }) {
					accepted++
				}
			}
			close(submitted)
		})
		settle()
		for c := rng.Intn(3); c > 0; c-- {
			k, id := 1+rng.Intn(3), c
			r.goDo(func() {
				for i := 0; i < k; i++ {
					r.count(id)
				}
			})
		}
		locker, stopper, late := rng.Intn(2) == 0, rng.Intn(4) == 0, rng.Intn(n+1)
		for i := 0; i <= n; i++ {
			if i == late && locker {
				r.goDo(func() {
					r.lock()
					r.unlock()
				})
			}
			if i == late && stopper {
				r.goDo(r.stop)
			}
			if i == late && rng.Intn(2) == 0 {
				r.goDo(func() { r.do(func() {}) })
			}
			r.quiet()
			if i < n {
				select {
				case gate <- true:
				case <-submitted:
					if i < accepted {
						gate <- true
					}
				}
			}
		}
		r.quiet()
		return r.over(rng, true)
	})
}

func fullPool(rng *rand.Rand, quiet, locks bool) []string {
	w := 1 + rng.Intn(2)
	n := 101*w + 1 + rng.Intn(24)
	r := newPoolRun(w, n+40, quiet)
	gate := make(chan bool)
	r.goDo(func() {
		for i := 0; i < w; i++ {
			r.do(func() { <-gate })
		}
	})
	settle()
	left := int64(n - w)
	subs := 1 + rng.Intn(4)
	count := locks && rng.Intn(2) == 0
	if count {
		subs = 1 + rng.Intn(2)
	}
	fast := !count && rng.Intn(2) == 0 // the queues drain faster than the submitters wake up
	for s := 0; s < subs; s++ {
		g := fork(rng)
		r.goDo(func() {
			for atomic.AddInt64(&left, -1) >= 0 {
				if fast {
					r.do(func() {})
				} else {
					r.do(body(g))
				}
			}
		})
	}
	time.Sleep(time.Duration(rng.Intn(5000)) * time.Microsecond)
	if locks {
		for s := 1 + rng.Intn(2); s > 0; s-- {
			g := fork(rng)
			r.goDo(func() {
				nap(g, 500)
				r.lock()
				nap(g, 500)
				r.unlock()
			})
		}
		if count {
			r.goDo(func() { r.count(1) })
		}
	} else {
		for s := rng.Intn(3); s > 0; s-- {
			g := fork(rng)
			r.goDo(func() {
				nap(g, 500)
				r.stop()
			})
		}
	}
	time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
	close(gate)
	return r.over(rng, locks)
}
