package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run explores one harness.
type Run struct {
	p     *Program
	name  string
	entry *cfn

	solverBin     string
	solverTimeout int
	stepLimit     int64
	allocLimit    int64
	maxPaths      int64
	deadline      time.Time
	debug         bool
	checkModels   bool
	workers       int
	tier          int

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []Item
	active  int
	stopped bool
	stopWhy string

	mergesN atomic.Int64
	hostG   sync.WaitGroup

	paths     int64
	kinds     map[string]int64
	abortMsgs map[string]int64
	unknowns  map[string]int64
	viols     map[string]*Violation // one per distinct site
	violCount int64
	forkSites map[string]int
	covers    map[string]int64
	coverVals map[string][]uint64
	hits      map[string]int64
	notes     map[string]int
	asserts   int64
	proved    int64
	steps     int64
	decisions int64
	maxDecs   int
	maxSteps  int64
	maxVars   int
	Stats     SolverStats
	mapStores atomic.Bool // loads of sync.Maps are switch points
	engineErr string
	wall      time.Duration
}

func (r *Run) push(it Item) {
	r.mu.Lock()
	r.stack = append(r.stack, it)
	r.cond.Signal()
	r.mu.Unlock()
}

func (r *Run) pop() (Item, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopped {
			return Item{}, false
		}
		if n := len(r.stack); n > 0 {
			it := r.stack[n-1]
			r.stack = r.stack[:n-1]
			r.active++
			return it, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return Item{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) done() {
	r.mu.Lock()
	r.active--
	if r.active == 0 && len(r.stack) == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (r *Run) stop(why string) {
	r.mu.Lock()
	if !r.stopped {
		r.stopped = true
		r.stopWhy = why
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

// tick is called at every new decision.
func (r *Run) tick(x *Exec) {
	if r.stopped || time.Now().After(r.deadline) {
		r.stop("time budget")
		panic(&abort{"cut", "time budget"})
	}
}

func (r *Run) forkAt(w string) {
	r.mu.Lock()
	if r.forkSites == nil {
		r.forkSites = map[string]int{}
	}
	r.forkSites[w]++
	r.mu.Unlock()
}

func (r *Run) unknown(where string) {
	r.mu.Lock()
	r.unknowns[where]++
	r.mu.Unlock()
}

func (r *Run) violation(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.violCount++
	key := v.Kind + "|" + v.Msg
	if v.Kind == "panic" || v.Kind == "alloc" || v.Kind == "hang" {
		key += "|" + v.Where
		if v.Kind == "hang" {
			key = v.Kind
		}
	}
	if _, ok := r.viols[key]; !ok {
		r.viols[key] = v
		if r.debug {
			fmt.Printf("  candidate %s: %s\n    at %s\n    vals %x\n", v.Kind, v.Msg, v.Where, v.Vals)
		}
	}
	if len(r.viols) >= 40 || r.violCount > 4000 {
		r.stopped = true
		r.stopWhy = "many violations"
		r.cond.Broadcast()
	}
}

func (r *Run) pathDone(x *Exec, kind, msg string, d time.Duration) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.paths++
	r.kinds[kind]++
	if kind == "unsupported" || kind == "alloc" || kind == "bound" {
		r.abortMsgs[kind+": "+msg]++
	}
	r.steps += x.steps
	r.maxSteps = max(r.maxSteps, x.steps)
	r.decisions += int64(len(x.decs))
	r.maxDecs = max(r.maxDecs, len(x.decs))
	r.maxVars = max(r.maxVars, len(x.widths))
	if r.debug && (r.paths%1000 == 0 || d > 2*time.Second) {
		fmt.Printf("  [%s] paths %d queue %d decs %d steps %d kind %s %.1fs %s\n", r.name, r.paths, len(r.stack), len(x.decs), x.steps, kind, d.Seconds(), msg)
	}
	if r.maxPaths > 0 && r.paths >= r.maxPaths && !r.stopped {
		r.stopped = true
		r.stopWhy = "path budget"
		r.cond.Broadcast()
	}
}

// Explore runs the harness to completion or budget.
func (r *Run) Explore() {
	t0 := time.Now()
	r.explore()
	if r.mapStores.Load() && r.stopWhy == restart {
		r.stopped, r.stopWhy, r.active, r.paths = false, "", 0, 0
		r.explore()
	}
	r.wall = time.Since(t0)
}

const restart = "a sync.Map is written by a goroutine"

func (r *Run) explore() {
	r.cond = sync.NewCond(&r.mu)
	r.kinds = map[string]int64{}
	r.abortMsgs = map[string]int64{}
	r.unknowns = map[string]int64{}
	r.viols = map[string]*Violation{}
	r.covers = map[string]int64{}
	r.coverVals = map[string][]uint64{}
	r.hits = map[string]int64{}
	r.notes = map[string]int{}
	r.stack = []Item{{}}
	var wg sync.WaitGroup
	for i := 0; i < r.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var x *Exec
			defer func() {
				if e := recover(); e != nil {
					r.mu.Lock()
					r.engineErr = fmt.Sprint(e)
					r.mu.Unlock()
					fmt.Fprintln(os.Stderr, "ENGINE ERROR:", e)
					if x != nil && x.g != nil {
						fmt.Fprintln(os.Stderr, " at", x.where())
					}
					debug.PrintStack()
					r.stop("engine error")
				}
				if x != nil {
					x.sol.stop()
					r.collect(x)
				}
			}()
			for {
				it, ok := r.pop()
				if !ok {
					return
				}
				if x == nil {
					x = newExec(r.p, r)
				}
				x.runItem(it)
				r.done()
			}
		}()
	}
	wg.Wait()
}

func (r *Run) collect(x *Exec) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for f, n := range x.hits {
		r.hits[f.name] += n
	}
	for k, n := range x.covers {
		r.covers[k] += n
		if _, ok := r.coverVals[k]; !ok {
			r.coverVals[k] = x.coverVals[k]
		}
	}
	for k, n := range x.notes {
		r.notes[k] += n
	}
	r.asserts += x.asserts
	r.proved += x.assertsProved
	s := &x.sol.Stats
	r.Stats.Queries += s.Queries
	r.Stats.SatN += s.SatN
	r.Stats.UnsatN += s.UnsatN
	r.Stats.UnknownN += s.UnknownN
	r.Stats.Time += s.Time
}

// complete reports whether the exploration covered every path within the bounds.
func (r *Run) complete() (bool, []string) {
	var why []string
	if r.stopped {
		why = append(why, "stopped: "+r.stopWhy)
	}
	for k, n := range r.abortMsgs {
		if strings.HasPrefix(k, "unsupported") {
			why = append(why, fmt.Sprintf("%d paths left the encoding: %s", n, k))
		}
	}
	for k, n := range r.unknowns {
		why = append(why, fmt.Sprintf("%d unknown verdicts at %s", n, k))
	}
	sort.Strings(why)
	return len(why) == 0, why
}

func (r *Run) summary() string {
	ok, why := r.complete()
	s := fmt.Sprintf("%-28s complete=%v paths=%d kinds=%v asserts=%d/%d queries=%d (sat %d unsat %d unk %d) solver=%.1fs wall=%.1fs steps=%d maxdecs=%d maxsteps=%d vars=%d merges=%d viols=%d",
		r.name, ok, r.paths, r.kinds, r.proved, r.asserts, r.Stats.Queries, r.Stats.SatN, r.Stats.UnsatN, r.Stats.UnknownN, r.Stats.Time.Seconds(), r.wall.Seconds(), r.steps, r.maxDecs, r.maxSteps, r.maxVars, r.mergesN.Load(), len(r.viols))
	for _, w := range why {
		s += "\n    ! " + w
	}
	if r.debug {
		r.p.topSteps()
		type kv struct {
			k string
			n int
		}
		var l []kv
		for k, n := range r.forkSites {
			l = append(l, kv{k, n})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
		for i := 0; i < len(l) && i < 25; i++ {
			s += fmt.Sprintf("\n    fork %d %s", l[i].n, l[i].k)
		}
	}
	for k, n := range r.abortMsgs {
		if strings.HasPrefix(k, "alloc") || strings.HasPrefix(k, "bound") {
			s += fmt.Sprintf("\n    cut %d: %s", n, k)
		}
	}
	return s
}

// topSteps prints where instructions were spent (debug).
func (p *Program) topSteps() {
	var l []*cfn
	for _, f := range p.fns {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].nsteps > l[j].nsteps })
	for i := 0; i < len(l) && i < 15; i++ {
		fmt.Printf("    steps %d %s\n", l[i].nsteps, l[i].name)
	}
}
