package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one recorded fork outcome.
type Decision struct {
	Taken  bool
	Forced bool // the other side is infeasible; nothing to add to the path condition
	Val    uint64
	Dir    uint8  // concretization: 1 below Val, 2 above Val
	H      uint32 // hash of the condition, to check that replays stay aligned
}

// Item is a work item: a decision prefix with a model of its path condition.
type Item struct {
	prefix []Decision
	model  Model
}

// Violation is a failed assertion with a concrete witness.
type Violation struct {
	Harness string
	Msg     string
	Where   string
	Kind    string // assert, panic, hang, alloc, deadlock, race
	Vals    []uint64
	Trace   []string
	Sched   bool // found under a symbolic schedule
}

// Exec is one worker.
type Exec struct {
	p   *Program
	run *Run
	tb  *TB
	sol *Solver

	globals  []*Value
	inited   map[*ssa.Package]bool
	initMode bool
	trail    []trailEnt
	notes    map[string]int

	// path state
	item      Item
	decs      []Decision
	decPos    int
	pc        []*Term // nil: superseded
	bnds      map[*Term]*bnd
	model     Model
	widths    []uint8
	vnames    []string
	steps     int64
	stepLimit int64
	hangLimit int64
	forks     int

	allocLimit  int64 // single allocation considered huge
	allocBudget int64 // >0: total, checked
	allocated   int64
	partial     bool  // an array is modelled in part
	maxCount    int64 // >0: bound on symbolic make counts

	g      *gor
	gs     []*gor
	killed bool
	sched  *sched
	race   *raceDet

	spec      int
	specGuard *Term
	specLog   []trailEnt

	side     map[any]any // intrinsic side state, reset per path
	syncMaps map[any]*MapV
	hidden   map[int]bool
	killAck  chan struct{}
	hits     map[*cfn]int64

	asserts, assertsProved int64
	covers                 map[string]int64
	coverVals              map[string][]uint64
	log                    []string
}

type gor struct {
	id      int
	top     *frame
	depth   int
	deferPS *panicState
	wake    chan struct{}
	done    bool
	block   func() bool // nil or: may it run?
	vc      []int
	waitOn  string
}

func newExec(p *Program, run *Run) *Exec {
	x := &Exec{p: p, run: run, tb: newTB(), inited: map[*ssa.Package]bool{}, notes: map[string]int{}, hits: map[*cfn]int64{}, covers: map[string]int64{}, coverVals: map[string][]uint64{}}
	x.killAck = make(chan struct{})
	x.sol = newSolver(run.solverBin, run.solverTimeout)
	x.sol.widths = &x.widths
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		x.sol.logf, _ = os.Create(f)
	}
	return x
}

func (x *Exec) note(s string) { x.notes[s]++ }

// ---------------------------------------------------------------- decisions

func (x *Exec) eval(t *Term) uint64 {
	x.tb.newEpoch()
	return x.tb.eval(t, x.model)
}

func (x *Exec) setModel(m Model) {
	x.model = m
	for len(x.model) < len(x.widths) {
		x.model = append(x.model, 0)
	}
}

func (x *Exec) push(d Decision, m Model) {
	pre := make([]Decision, len(x.decs)+1)
	copy(pre, x.decs)
	pre[len(x.decs)] = d
	x.run.push(Item{pre, m})
	if x.run.debug {
		w := x.where()
		if i := strings.Index(w, " < "); i > 0 {
			if j := strings.Index(w[i+3:], " < "); j > 0 {
				w = w[:i+3+j]
			}
		}
		x.run.forkAt(w)
	}
	x.forks++
}

func (x *Exec) query(extra *Term) (Sat, Model) {
	// several cheap truths before the solver
	if extra == x.tb.ff {
		return Unsat, nil
	}
	r, m := x.sol.check(x.pc, extra, x.model, len(x.widths))
	if r == SatR && x.run.checkModels {
		x.tb.newEpoch()
		if x.tb.eval(extra, m) == 0 {
			panic("model does not satisfy the query")
		}
		for _, c := range x.pc {
			if c == nil {
				continue
			}
			if x.tb.eval(c, m) == 0 {
				panic("model does not satisfy the path condition")
			}
		}
	}
	if r == Unknown {
		x.run.unknown(x.where())
	}
	return r, m
}

// aligned checks that a replayed decision belongs to the same condition.
func (x *Exec) aligned(d Decision, c *Term) {
	if d.H != uint32(c.h) {
		panic("replay out of step at " + x.where())
	}
}

// branch decides a symbolic condition, forking if both sides are feasible.
func (x *Exec) branch(c *Term) bool {
	if c.isC() {
		return c.val != 0
	}
	if x.spec > 0 {
		panic(specFail)
	}
	if x.initMode {
		panic("symbolic branch in init")
	}
	if v, ok := x.implied(c); ok {
		return v
	}
	if x.decPos < len(x.item.prefix) {
		d := x.item.prefix[x.decPos]
		x.aligned(d, c)
		x.decPos++
		x.decs = append(x.decs, d)
		if !d.Forced {
			if d.Taken {
				x.addPC(c)
			} else {
				x.addPC(x.tb.Not(c))
			}
		}
		return d.Taken
	}
	x.run.tick(x)
	val := x.eval(c) != 0
	other := c
	if val {
		other = x.tb.Not(c)
	}
	r, m := x.query(other)
	d := Decision{Taken: val, H: uint32(c.h)}
	switch r {
	case Unsat:
		d.Forced = true
	case SatR:
		x.push(Decision{Taken: !val, H: uint32(c.h)}, m)
	}
	x.decs = append(x.decs, d)
	x.decPos++
	if !d.Forced {
		if val {
			x.addPC(c)
		} else {
			x.addPC(x.tb.Not(c))
		}
	}
	return val
}

// concretize enumerates the feasible values of t, one path each.
func (x *Exec) concretize(t *Term) uint64 {
	if t.isC() {
		return t.val
	}
	if x.spec > 0 {
		panic(specFail)
	}
	for {
		if b := x.bnds[t]; b != nil && b.lo == b.hi {
			return b.lo
		}
		var d Decision
		if x.decPos < len(x.item.prefix) {
			d = x.item.prefix[x.decPos]
			x.aligned(d, t)
		} else {
			x.run.tick(x)
			d.Val = x.eval(t)
			d.Taken = true
			d.H = uint32(t.h)
			for dir := uint8(2); dir >= 1; dir-- {
				c := x.side3(t, d.Val, dir)
				if v, ok := x.implied(c); ok && !v {
					continue
				}
				if r, m := x.query(c); r == SatR {
					x.push(Decision{Val: d.Val, Dir: dir, H: d.H}, m)
				}
			}
		}
		x.decPos++
		x.decs = append(x.decs, d)
		x.addPC(x.side3(t, d.Val, d.Dir))
		if d.Taken {
			return d.Val
		}
	}
}

// side3 is t == v, t < v or t > v.
func (x *Exec) side3(t *Term, v uint64, dir uint8) *Term {
	k := x.tb.Const(t.w, v)
	switch dir {
	case 1:
		return x.tb.Ult(t, k)
	case 2:
		return x.tb.Ult(k, t)
	}
	return x.tb.Eq(t, k)
}

// assume restricts the path to c.
func (x *Exec) assume(c *Term) {
	if c.isC() {
		if c.val == 0 {
			panic(&abort{"dead", ""})
		}
		return
	}
	if x.spec > 0 {
		panic(specFail)
	}
	if x.decPos < len(x.item.prefix) {
		x.aligned(x.item.prefix[x.decPos], c)
		x.decs = append(x.decs, x.item.prefix[x.decPos])
		x.decPos++
		x.addPC(c)
		return
	}
	if x.eval(c) == 0 {
		r, m := x.query(c)
		if r != SatR {
			panic(&abort{"dead", ""})
		}
		x.setModel(m)
	}
	x.decs = append(x.decs, Decision{Taken: true, H: uint32(c.h)})
	x.decPos++
	x.addPC(c)
}

// assert checks c for every value on this path.
func (x *Exec) assert(c *Term, msg string) {
	if x.spec > 0 {
		panic(specFail)
	}
	x.asserts++
	if c == x.tb.tt {
		x.assertsProved++
		return
	}
	if x.decPos < len(x.item.prefix) {
		// decided by an ancestor path
		d := x.item.prefix[x.decPos]
		x.aligned(d, c)
		x.decPos++
		x.decs = append(x.decs, d)
		x.assertsProved++
		if !d.Forced {
			x.addPC(c)
		}
		return
	}
	if x.eval(c) == 0 {
		x.violate("assert", msg, x.model)
		panic(&abort{"stop", ""})
	}
	r, m := x.query(x.tb.Not(c))
	switch r {
	case SatR:
		x.violate("assert", msg, m)
		x.decs = append(x.decs, Decision{Taken: true, H: uint32(c.h)})
		x.addPC(c)
	case Unsat:
		x.assertsProved++
		x.decs = append(x.decs, Decision{Taken: true, Forced: true, H: uint32(c.h)})
	default:
		x.decs = append(x.decs, Decision{Taken: true, H: uint32(c.h)})
		x.addPC(c)
	}
	x.decPos++
}

func (x *Exec) violate(kind, msg string, m Model) {
	v := &Violation{Harness: x.run.name, Msg: msg, Kind: kind, Where: x.where()}
	x.fill(v, m)
	x.run.violation(v)
}

func (x *Exec) fill(v *Violation, m Model) {
	v.Vals = x.natVals(m)
	v.Trace = append([]string(nil), x.log...)
	v.Sched = x.sched != nil
}

// natVals are the values a native run consumes: uninterpreted-function
// results and schedule choices are left out.
func (x *Exec) natVals(m Model) []uint64 {
	var r []uint64
	for i := range x.widths {
		if x.hidden[i] {
			continue
		}
		v := uint64(0)
		if i < len(m) {
			v = m[i]
		}
		r = append(r, v)
	}
	return r
}

func (x *Exec) allocExceeded(msg string) {
	if x.allocBudget > 0 {
		x.violate("alloc", msg, x.model)
		panic(&abort{"stop", ""})
	}
	panic(&abort{"alloc", msg + " at " + x.where()})
}

func (x *Exec) newVar(w uint8) Value {
	if x.spec > 0 {
		panic(specFail)
	}
	i := len(x.widths)
	x.widths = append(x.widths, w)
	for len(x.model) < len(x.widths) {
		x.model = append(x.model, 0)
	}
	return Value{p: x.tb.Var(w, i)}
}

// ---------------------------------------------------------------- one path

func (x *Exec) runItem(it Item) {
	x.item = it
	x.decs = x.decs[:0]
	x.decPos = 0
	x.pc = x.pc[:0]
	x.bnds = map[*Term]*bnd{}
	x.widths = x.widths[:0]
	x.model = append(Model(nil), it.model...)
	x.steps = 0
	x.stepLimit = x.run.stepLimit
	x.allocLimit = x.run.allocLimit
	x.allocBudget = 0
	x.allocated = 0
	x.maxCount = 0
	x.partial = false
	x.forks = 0
	x.spec = 0
	x.side = map[any]any{}
	x.hidden = map[int]bool{}
	x.g = &gor{}
	x.gs = []*gor{x.g}
	x.sched = nil
	x.race = nil
	x.killed = false
	x.initMode = false
	x.log = x.log[:0]
	t0 := time.Now()
	kind, msg := x.runPath()
	x.killAll()
	x.rewind()
	x.run.pathDone(x, kind, msg, time.Since(t0))
	if x.tb.nextID > 3000000 {
		x.tb = newTB()
		x.sol.cache = nil
		x.sol.stop()
	}
}

func (x *Exec) runPath() (kind, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch a := r.(type) {
			case *abort:
				kind, msg = a.kind, a.msg
				switch kind {
				case "steps":
					x.violate("hang", "step limit reached: possible endless loop", x.model)
				case "deadlock":
					x.violate("deadlock", a.msg, x.model)
				}
			case *goPanic:
				kind = "panic"
				x.violateAt("panic", "panic: "+x.panicMsg(a), a.where)
			default:
				if _, ok := r.(runtime.Error); ok && x.partial {
					kind, msg = "bound", "access beyond the modelled part of a huge array at "+x.where()
					return
				}
				if err, ok := r.(error); ok && x.run.debug {
					fmt.Println("ENGINE ERROR", err, x.where())
				}
				panic(r)
			}
		}
	}()
	x.callFn(x.run.entry, nil, nil, nil)
	return "done", ""
}

func (x *Exec) violateAt(kind, msg, where string) {
	v := &Violation{Harness: x.run.name, Msg: msg, Kind: kind, Where: where}
	x.fill(v, x.model)
	x.run.violation(v)
}

func (x *Exec) coverage() []string {
	var r []string
	for f := range x.hits {
		r = append(r, f.name)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------- merging

type specFailT struct{}

var specFail = &specFailT{}

// merge builds ite(g, a, b) for values of type t.
func (x *Exec) merge(t types.Type, g *Term, a, b Value) (Value, bool) {
	if g == x.tb.tt {
		return a, true
	}
	if g == x.tb.ff {
		return b, true
	}
	if w, _, ok := bitsOf(t); ok {
		if a.p == nil && b.p == nil && a.u == b.u {
			return a, true
		}
		_, ok1 := a.p.(*Term)
		_, ok2 := b.p.(*Term)
		if (a.p != nil && !ok1) || (b.p != nil && !ok2) {
			return Value{}, false
		}
		return tv(x.tb.Ite(g, x.term(a, w), x.term(b, w))), true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return x.mergeAgg(func(i int) types.Type { return u.Field(i).Type() }, g, a, b)
	case *types.Array:
		return x.mergeAgg(func(i int) types.Type { return u.Elem() }, g, a, b)
	case *types.Tuple:
		p, q := a.p.(Tuple), b.p.(Tuple)
		r := make(Tuple, len(p))
		for i := range p {
			v, ok := x.merge(u.At(i).Type(), g, p[i], q[i])
			if !ok {
				return Value{}, false
			}
			r[i] = v
		}
		return Value{p: r}, true
	}
	if a.u != b.u {
		return Value{}, false
	}
	switch p := a.p.(type) {
	case Tuple:
		return Value{}, false
	case *Slice:
		q, ok := b.p.(*Slice)
		if ok && *p == *q {
			return a, true
		}
		return Value{}, false
	case *Iface:
		q, ok := b.p.(*Iface)
		if !ok || p.t != q.t {
			return Value{}, false
		}
		v, ok := x.merge(p.t.t, g, p.v, q.v)
		if !ok {
			return Value{}, false
		}
		return Value{p: &Iface{t: p.t, v: v}}, true
	case *SymStr:
		bs := strBytes(b)
		if len(bs) != len(p.b) {
			return Value{}, false
		}
		return x.mergeStr(g, p.b, bs), true
	case string:
		if q, ok := b.p.(string); ok && p == q {
			return a, true
		}
		bs := strBytes(b)
		if b.p == nil || len(bs) != len(p) || len(p) > 64 {
			return Value{}, false
		}
		return x.mergeStr(g, strBytes(a), bs), true
	}
	if b.p != nil {
		if _, ok := b.p.(Tuple); ok {
			return Value{}, false
		}
	}
	if a.p == b.p {
		return a, true
	}
	return Value{}, false
}

func (x *Exec) mergeStr(g *Term, a, b []Value) Value {
	r := make([]Value, len(a))
	for i := range a {
		r[i] = tv(x.tb.Ite(g, x.term(a[i], 8), x.term(b[i], 8)))
	}
	return mkStr(r)
}

func (x *Exec) mergeAgg(ft func(int) types.Type, g *Term, a, b Value) (Value, bool) {
	p, q := a.p.(*Agg), b.p.(*Agg)
	if p == q {
		return a, true
	}
	r := &Agg{e: make([]Value, len(p.e)), path: true}
	for i := range p.e {
		v, ok := x.merge(ft(i), g, p.e[i], q.e[i])
		if !ok {
			return Value{}, false
		}
		r.e[i] = v
	}
	return Value{p: r}, true
}

// specStore is a store under the current region guard.
func (x *Exec) specStore(p, v Value, t types.Type) {
	q, ok := p.p.(*Value)
	if !ok {
		panic(specFail)
	}
	nv, ok := x.merge(t, x.specGuard, v, *q)
	if !ok {
		panic(specFail)
	}
	x.trail = append(x.trail, trailEnt{s: q, old: *q})
	*q = nv
}
