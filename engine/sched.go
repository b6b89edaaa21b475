package main

import (
	"fmt"
	"go/types"
)

// Interpreted goroutines are host goroutines of which exactly one runs at a
// time.  Context switches happen at synchronisation operations only; the
// choice of the next goroutine is a decision variable.  Data races on the
// accesses in between are found by a vector-clock detector.

type sched struct {
	preempts, maxPreempts int
	crash                 any // panic of a goroutine, to be raised by the main one
}

func (x *Exec) startSched(maxPreempts int) {
	if x.sched == nil {
		x.sched = &sched{maxPreempts: maxPreempts}
		x.g.wake = make(chan struct{}, 1)
		x.race = newRace()
		x.g.vc = []int{1}
	}
}

func (x *Exec) spawn(fv Value, m *cfn, args []Value, c *ccall) {
	x.start(fv, m, args, c)
	x.yield()
}

// join waits for all goroutines started.
func (x *Exec) join() {
	if x.sched == nil {
		return
	}
	cur := x.g
	x.blockOn("join", func() bool {
		for _, g := range x.gs {
			if g != cur && !g.done {
				return false
			}
		}
		return true
	})
	for _, g := range x.gs {
		if g != cur {
			cur.vc = joinVC(cur.vc, g.vc)
		}
	}
}

func (x *Exec) start(fv Value, m *cfn, args []Value, c *ccall) {
	if x.initMode {
		return
	}
	if x.sched == nil {
		x.unsupported("go statement")
	}
	ng := &gor{id: len(x.gs), wake: make(chan struct{}, 1)}
	ng.vc = append([]int(nil), x.g.vc...)
	for len(ng.vc) <= ng.id {
		ng.vc = append(ng.vc, 0)
	}
	ng.vc[ng.id] = 1
	x.tickVC(x.g)
	x.gs = append(x.gs, ng)
	x.run.hostG.Add(1)
	go func() {
		defer x.run.hostG.Done()
		<-ng.wake
		if x.killed {
			ng.done = true
			x.killAck <- struct{}{}
			return
		}
		x.g = ng
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x.sched.crash == nil {
						x.sched.crash = r
					}
				}
			}()
			if m != nil {
				x.callFn(m, args, nil, c)
			} else {
				x.callVal(fv, args, c)
			}
		}()
		ng.done = true
		if x.killed {
			x.killAck <- struct{}{}
			return
		}
		x.switchFrom(ng)
	}()
}

func (x *Exec) runnable(g *gor) bool { return !g.done && (g.block == nil || g.block()) }

// pick chooses the next goroutine to run; nil means deadlock.
func (x *Exec) pick(cur *gor, free bool) *gor {
	var rs []*gor
	if !cur.done && x.runnable(cur) {
		rs = append(rs, cur)
		if !free && x.sched.preempts >= x.sched.maxPreempts {
			return cur
		}
	}
	for _, g := range x.gs {
		if g != cur && x.runnable(g) {
			rs = append(rs, g)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	i := 0
	if len(rs) > 1 {
		x.hidden[len(x.widths)] = true
		i = x.choose(len(rs))
	}
	if rs[0] == cur && i != 0 && !free {
		x.sched.preempts++
	}
	return rs[i]
}

// choose is a schedule variable in [0,n).
func (x *Exec) choose(n int) int {
	w := uint8(8)
	if n > 255 {
		w = 32
	}
	v := x.newVar(w)
	t := v.p.(*Term)
	x.assume(x.tb.Ult(t, x.tb.Const(w, uint64(n))))
	return int(x.concretize(t))
}

// switchFrom transfers control away from a finished goroutine.
func (x *Exec) switchFrom(g *gor) {
	var n *gor
	func() {
		defer func() {
			if r := recover(); r != nil && x.sched.crash == nil {
				x.sched.crash = r
			}
		}()
		if x.sched.crash == nil {
			n = x.pick(g, true)
		}
	}()
	if x.sched.crash != nil {
		n = x.gs[0]
	} else if n == nil {
		x.sched.crash = &abort{"deadlock", "all goroutines are asleep"}
		n = x.gs[0]
	}
	n.wake <- struct{}{}
}

func (x *Exec) transfer(cur, n *gor) {
	if n == cur {
		return
	}
	n.wake <- struct{}{}
	<-cur.wake
	if x.killed {
		panic(&abort{"killed", ""})
	}
	x.g = cur
	if cur.id == 0 && x.sched.crash != nil {
		panic(x.sched.crash)
	}
}

// yield is a possible preemption point.
func (x *Exec) yield() {
	if x.sched == nil {
		return
	}
	cur := x.g
	n := x.pick(cur, false)
	if n == nil {
		n = cur
	}
	x.transfer(cur, n)
}

// blockOn waits until f holds.
func (x *Exec) blockOn(what string, f func() bool) {
	if f() {
		return
	}
	if x.sched == nil {
		panic(&abort{"deadlock", "blocked forever on " + what + " at " + x.where()})
	}
	cur := x.g
	cur.block = f
	cur.waitOn = what
	for !f() {
		n := x.pick(cur, true)
		if n == nil {
			a := &abort{"deadlock", "all goroutines are asleep (" + what + " at " + x.where() + ")"}
			if cur.id == 0 {
				panic(a)
			}
			x.sched.crash = a
			n = x.gs[0]
		}
		x.transfer(cur, n)
	}
	cur.block = nil
}

// killAll unwinds the remaining goroutines at the end of a path.
func (x *Exec) killAll() {
	if x.sched == nil {
		return
	}
	x.killed = true
	for _, g := range x.gs[1:] {
		if !g.done {
			g.wake <- struct{}{}
			<-x.killAck
		}
	}
	x.sched = nil
	x.race = nil
	x.killed = false
}

// ---------------------------------------------------------------- vector clocks

type raceDet struct {
	w map[any]raceAcc
	r map[any]map[int]raceAcc
}

type raceAcc struct {
	g, c  int
	where string
}

func newRace() *raceDet {
	return &raceDet{w: map[any]raceAcc{}, r: map[any]map[int]raceAcc{}}
}

func (x *Exec) tickVC(g *gor) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func joinVC(a, b []int) []int {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, v := range b {
		if v > a[i] {
			a[i] = v
		}
	}
	return a
}

// acquire/release on a synchronisation object's clock.
func (x *Exec) acquire(vc *[]int) {
	if x.race != nil {
		x.g.vc = joinVC(x.g.vc, *vc)
	}
}

func (x *Exec) release(vc *[]int) {
	if x.race != nil {
		*vc = joinVC(append([]int(nil), *vc...), x.g.vc)
		x.tickVC(x.g)
	}
}

func (x *Exec) hb(a raceAcc) bool { return a.g == x.g.id || (a.g < len(x.g.vc) && x.g.vc[a.g] >= a.c) }

func (r *raceDet) access(x *Exec, p Value, write bool) {
	if x.initMode || x.spec > 0 {
		return
	}
	switch q := p.p.(type) {
	case *Value:
		r.loc(x, q, write)
	case *MapV:
		r.loc(x, q, write)
	case *AggP:
		r.agg(x, (*Agg)(q), write)
	case *ElemPtr:
		r.access(x, ptrTo(&q.a.e[q.i]), write)
	case *SymPtr:
		for i := 0; i < q.n; i++ {
			r.loc(x, &q.a.e[q.off+i], write)
		}
	}
}

func (r *raceDet) agg(x *Exec, a *Agg, write bool) {
	for i := range a.e {
		if s, ok := a.e[i].p.(*Agg); ok {
			r.agg(x, s, write)
			continue
		}
		r.loc(x, &a.e[i], write)
	}
}

// elems records an access to n elements of a slice from index i on.
func (r *raceDet) elems(x *Exec, s *Slice, i, n int, write bool) {
	if x.initMode || x.spec > 0 {
		return
	}
	for j := s.off + i; j < s.off+i+n; j++ {
		if a, ok := s.a.e[j].p.(*Agg); ok {
			r.agg(x, a, write)
		} else {
			r.loc(x, &s.a.e[j], write)
		}
	}
}

func (r *raceDet) loc(x *Exec, k any, write bool) {
	g := x.g
	me := raceAcc{g: g.id, c: g.vc[g.id]}
	bad := func(o raceAcc, what string) {
		me.where = x.where()
		x.violate("race", fmt.Sprintf("data race: %s at [%s] with earlier access at [%s]", what, me.where, o.where), x.model)
		panic(&abort{"stop", ""})
	}
	if w, ok := r.w[k]; ok && !x.hb(w) {
		if write {
			bad(w, "write after write")
		}
		bad(w, "read after write")
	}
	if write {
		for _, o := range r.r[k] {
			if !x.hb(o) {
				bad(o, "write after read")
			}
		}
		me.where = x.where()
		r.w[k] = me
		delete(r.r, k)
		return
	}
	m := r.r[k]
	if m == nil {
		m = map[int]raceAcc{}
		r.r[k] = m
	}
	if o, ok := m[g.id]; ok && o.c == me.c {
		return
	}
	me.where = x.where()
	m[g.id] = me
}

// ---------------------------------------------------------------- channels

// selCase is a case of a select statement: operand indices of the channel and
// of the value to send (-1: receive, of type t).
type selCase struct {
	ch, send int
	t        types.Type
}

// waiter is a goroutine blocked on one or more channel operations.
type waiter struct {
	fired bool
	idx   int // which operation was performed
	v     Value
	ok    bool
}

// waiting is one operation of a waiter, queued on its channel.
type waiting struct {
	w   *waiter
	idx int
	v   Value // to send
}

// ChanV is a channel.
type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []waiting
	sendq  []waiting
	vc     []int
}

func dequeue(q *[]waiting) (waiting, bool) {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.w.fired {
			return w, true
		}
	}
	return waiting{}, false
}

// trySend sends if that is possible at once.
func (x *Exec) trySend(ch *ChanV, v Value) bool {
	if ch.closed {
		x.throwRuntime("send on closed channel")
	}
	if w, ok := dequeue(&ch.recvq); ok {
		x.release(&ch.vc)
		w.w.fired, w.w.idx, w.w.v, w.w.ok = true, w.idx, x.cp(v), true
		return true
	}
	if len(ch.buf) < ch.cap {
		x.release(&ch.vc)
		ch.buf = append(ch.buf, x.cp(v))
		return true
	}
	return false
}

// tryRecv receives if that is possible at once.
func (x *Exec) tryRecv(ch *ChanV) (v Value, ok, done bool) {
	if len(ch.buf) > 0 {
		x.acquire(&ch.vc)
		v = ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		if w, ok := dequeue(&ch.sendq); ok {
			ch.buf = append(ch.buf, w.v)
			w.w.fired, w.w.idx = true, w.idx
			x.release(&ch.vc)
		}
		return v, true, true
	}
	if w, ok := dequeue(&ch.sendq); ok {
		x.acquire(&ch.vc)
		x.release(&ch.vc)
		w.w.fired, w.w.idx = true, w.idx
		return w.v, true, true
	}
	if ch.closed {
		x.acquire(&ch.vc)
		return Value{}, false, true
	}
	return Value{}, false, false
}

func (x *Exec) chanSend(c, v Value) {
	if c.p == nil {
		x.blockOn("send on nil channel", func() bool { return false })
	}
	ch := c.p.(*ChanV)
	x.yield()
	if x.trySend(ch, v) {
		return
	}
	w := &waiter{}
	x.release(&ch.vc)
	ch.sendq = append(ch.sendq, waiting{w, 0, x.cp(v)})
	x.blockOn("channel send", func() bool { return w.fired || ch.closed })
	if !w.fired {
		w.fired = true
		x.throwRuntime("send on closed channel")
	}
	x.acquire(&ch.vc)
}

func (x *Exec) chanRecv(c Value, t types.Type, commaOk bool) Value {
	if c.p == nil {
		x.blockOn("receive on nil channel", func() bool { return false })
	}
	ch := c.p.(*ChanV)
	x.yield()
	v, ok, done := x.tryRecv(ch)
	if !done {
		w := &waiter{}
		if ch.cap == 0 {
			x.release(&ch.vc)
		}
		ch.recvq = append(ch.recvq, waiting{w: w})
		x.blockOn("channel receive", func() bool { return w.fired || ch.closed })
		v, ok = w.v, w.fired
		w.fired = true
		x.acquire(&ch.vc)
	}
	if !ok {
		if tt, is := t.(*types.Tuple); is {
			t = tt.At(0).Type()
		}
		v = x.zero(t)
	}
	if commaOk {
		return Value{p: Tuple{v, boolV(ok)}}
	}
	return v
}

func (x *Exec) chanClose(c Value) {
	if c.p == nil {
		x.throwRuntime("close of nil channel")
	}
	ch := c.p.(*ChanV)
	x.yield()
	if ch.closed {
		x.throwRuntime("close of closed channel")
	}
	x.release(&ch.vc)
	ch.closed = true
}

// selectOp performs a select statement; which of several ready cases runs is
// a schedule variable.
func (x *Exec) selectOp(fr *frame, in *cinstr) Value {
	x.yield()
	n := len(in.sel)
	chs := make([]*ChanV, n)
	var ready []int
	for i, sc := range in.sel {
		c := fr.get(x, &in.ops[sc.ch])
		if c.p == nil {
			continue
		}
		ch := c.p.(*ChanV)
		chs[i] = ch
		pend := func(q []waiting) bool {
			for _, w := range q {
				if !w.w.fired {
					return true
				}
			}
			return false
		}
		if sc.send >= 0 {
			if ch.closed || len(ch.buf) < ch.cap || pend(ch.recvq) {
				ready = append(ready, i)
			}
		} else if ch.closed || len(ch.buf) > 0 || pend(ch.sendq) {
			ready = append(ready, i)
		}
	}
	idx, ok := -1, false
	var v Value
	switch {
	case len(ready) > 0:
		k := 0
		if len(ready) > 1 {
			x.hidden[len(x.widths)] = true
			k = x.choose(len(ready))
		}
		idx = ready[k]
		if sc := in.sel[idx]; sc.send >= 0 {
			x.trySend(chs[idx], fr.get(x, &in.ops[sc.send]))
		} else {
			v, ok, _ = x.tryRecv(chs[idx])
		}
	case in.cm: // blocking
		w := &waiter{}
		for i, sc := range in.sel {
			if chs[i] == nil {
				continue
			}
			if sc.send >= 0 {
				x.release(&chs[i].vc)
				chs[i].sendq = append(chs[i].sendq, waiting{w, i, x.cp(fr.get(x, &in.ops[sc.send]))})
				continue
			}
			if chs[i].cap == 0 {
				x.release(&chs[i].vc)
			}
			chs[i].recvq = append(chs[i].recvq, waiting{w: w, idx: i})
		}
		closed := func() int {
			for i, ch := range chs {
				if ch != nil && ch.closed {
					return i
				}
			}
			return -1
		}
		x.blockOn("select", func() bool { return w.fired || closed() >= 0 })
		if w.fired {
			idx, v, ok = w.idx, w.v, w.ok
		} else {
			idx = closed()
			w.fired = true
			if in.sel[idx].send >= 0 {
				x.throwRuntime("send on closed channel")
			}
		}
		x.acquire(&chs[idx].vc)
	}
	res := Tuple{intV(idx), boolV(ok)}
	for i, sc := range in.sel {
		if sc.send >= 0 {
			continue
		}
		if i == idx && ok {
			res = append(res, v)
		} else {
			res = append(res, x.zero(sc.t))
		}
	}
	return Value{p: res}
}
