package main

import (
	"go/token"
	"go/types"
	"runtime"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// region is an acyclic set of side-effect-light blocks that can be executed
// under guards and merged instead of forked.
type region struct {
	blocks []*cblock // topological order, head first
	in     map[*cblock]bool
	exits  []*cblock // nil stands for return
}

var pureBuiltins = map[string]bool{"len": true, "cap": true, "min": true, "max": true}

// pureIntrinsics may run inside a region.
var pureIntrinsics = map[string]bool{}

func specOK(in *cinstr) bool {
	switch in.op {
	case cNop, cBinOp, cNot, cNeg, cCompl, cLoad, cStore, cChangeInterface, cChangeType, cMakeInterface,
		cField, cFieldAddr, cIndexAddr, cIndex, cExtract, cSlice, cJump, cIf, cReturn:
		return true
	case cConvert:
		_, _, ok1 := bitsOf(in.t)
		_, _, ok2 := bitsOf(in.t2)
		return ok1 && ok2
	case cLookup:
		return isString(in.t)
	case cCall:
		c := in.call
		if c.builtin != nil {
			return pureBuiltins[c.builtin.Name()]
		}
		if c.static == nil {
			return false
		}
		if c.static.intrinsic != nil {
			return pureIntrinsics[intrinsicName(c.static.fn)]
		}
		return smallPure(c.static.fn, 3)
	}
	return false
}

func intrinsicName(f *ssa.Function) string {
	if o := f.Origin(); o != nil && o != f {
		return o.String()
	}
	return f.String()
}

// smallPure reports whether f is a small loop-free function without defers.
func smallPure(f *ssa.Function, depth int) bool {
	if f == nil || f.Blocks == nil || depth == 0 || len(f.Blocks) > 12 || f.Recover != nil {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.Panic, *ssa.Send, *ssa.Select, *ssa.MapUpdate, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.Range, *ssa.MakeClosure, *ssa.Alloc:
				return false
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if in.Call.IsInvoke() {
					return false
				}
				switch c := in.Call.Value.(type) {
				case *ssa.Builtin:
					if !pureBuiltins[c.Name()] {
						return false
					}
				case *ssa.Function:
					if _, ok := intrinsics[intrinsicName(c)]; ok {
						if !pureIntrinsics[intrinsicName(c)] {
							return false
						}
					} else if !smallPure(c, depth-1) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return n <= 80
}

// findRegions attaches mergeable regions to the function's If instructions.
func (c *cfn) findRegions() {
	if c.hasDefer {
		// returns run defers, but inner regions are still fine
	}
	n := len(c.blocks)
	if n < 2 {
		return
	}
	// reverse postorder
	order := make([]int, n)
	for i := range order {
		order[i] = -1
	}
	var post []*cblock
	seen := make([]bool, n)
	var dfs func(b *cblock)
	dfs = func(b *cblock) {
		seen[b.idx] = true
		for _, s := range b.succs {
			if !seen[s.idx] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(c.blocks[0])
	for i, b := range post {
		order[b.idx] = len(post) - 1 - i
	}
	pure := make([]bool, n)
	for _, b := range c.blocks {
		pure[b.idx] = true
		for i := range b.code {
			if !specOK(&b.code[i]) {
				pure[b.idx] = false
				break
			}
		}
	}
	isRet := func(b *cblock) bool { return len(b.succs) == 0 }
	for _, h := range c.blocks {
		if len(h.code) == 0 || !seen[h.idx] {
			continue
		}
		in := &h.code[len(h.code)-1]
		if in.op != cIf || h.succs[0] == h.succs[1] {
			continue
		}
		r := &region{blocks: []*cblock{h}, in: map[*cblock]bool{h: true}}
		var cands []*region
		exits := func() []*cblock {
			var ex []*cblock
			add := func(b *cblock) {
				for _, e := range ex {
					if e == b {
						return
					}
				}
				ex = append(ex, b)
			}
			for _, b := range r.blocks {
				if isRet(b) {
					add(nil)
				}
				for _, s := range b.succs {
					if !r.in[s] || s == h {
						add(s)
					}
				}
			}
			return ex
		}
		for len(r.blocks) < 40 {
			// eligible: not in the region, pure, all preds inside (not back to head)
			var el []*cblock
			for _, b := range r.blocks {
				for _, s := range b.succs {
					if r.in[s] || !pure[s.idx] || s == h {
						continue
					}
					ok := true
					for _, q := range s.preds {
						if !r.in[q] {
							ok = false
						}
					}
					if ok {
						el = append(el, s)
					}
				}
			}
			if len(el) == 0 {
				break
			}
			sort.Slice(el, func(i, j int) bool { return order[el[i].idx] < order[el[j].idx] })
			r.blocks = append(r.blocks, el[0])
			r.in[el[0]] = true
			ex := exits()
			if len(ex) <= 2 {
				cp := &region{blocks: append([]*cblock(nil), r.blocks...), in: map[*cblock]bool{}, exits: ex}
				for _, b := range cp.blocks {
					cp.in[b] = true
				}
				if len(ex) == 1 {
					cands = append([]*region{cp}, cands...)
					break
				}
				cands = append([]*region{cp}, cands...)
				if len(cands) > 3 {
					cands = cands[:3]
				}
			}
		}
		// a two-exit region that merely includes an empty forwarding block is useless
		for _, q := range cands {
			if len(q.exits) == 1 || usefulTwoExit(q) {
				in.regions = append(in.regions, q)
			}
		}
		if len(in.regions) > 3 {
			in.regions = in.regions[:3]
		}
	}
}

func usefulTwoExit(r *region) bool {
	for _, b := range r.blocks[1:] {
		if len(b.succs) == 2 || len(b.preds) > 1 {
			return true
		}
	}
	return false
}

type redge struct {
	g    *Term
	from *cblock
	idx  int // predecessor index in target
}

// tryRegions merges instead of forking. Result: 0 not merged, 1 continue at block (phis set), 2 return value.
func (x *Exec) tryRegions(fr *frame, in *cinstr, c *Term) (*cblock, Value, int) {
	for _, r := range in.regions {
		if x.spec > 0 && len(r.exits) != 1 {
			continue
		}
		b, v, st := x.tryRegion(fr, r, c)
		if st != 0 {
			x.run.mergesN.Add(1)
			return b, v, st
		}
	}
	return nil, Value{}, 0
}

type exitRes struct {
	guard *Term
	vals  []Value // phi values or results
}

func (x *Exec) tryRegion(fr *frame, r *region, c *Term) (nb *cblock, ret Value, st int) {
	ex, ok := x.specRegion(fr, r, c)
	if !ok {
		return nil, Value{}, 0
	}
	sel := 0
	if len(r.exits) == 2 {
		switch {
		case ex[0] == nil:
			sel = 1
		case ex[1] == nil:
			sel = 0
		default:
			if !x.branch(ex[0].guard) {
				sel = 1
			}
		}
	}
	e, res := r.exits[sel], ex[sel]
	if e == nil {
		switch len(res.vals) {
		case 0:
			return nil, Value{}, 2
		case 1:
			return nil, res.vals[0], 2
		}
		return nil, Value{p: Tuple(res.vals)}, 2
	}
	for i := range e.phis {
		fr.regs[e.phis[i].dst] = res.vals[i]
	}
	return e, Value{}, 1
}

// specRegion executes r speculatively; on failure all effects are undone.
func (x *Exec) specRegion(fr *frame, r *region, c *Term) (out []*exitRes, ok bool) {
	mark := len(x.trail)
	sg, steps := x.specGuard, x.steps
	top, depth := x.g.top, x.g.depth
	x.spec++
	defer func() {
		x.spec--
		x.specGuard = sg
		if rec := recover(); rec != nil {
			switch a := rec.(type) {
			case *specFailT:
			case *goPanic:
			case *abort:
				if a.kind != "unsupported" {
					panic(rec)
				}
			case runtime.Error:
				if !x.partial {
					panic(rec)
				}
			default:
				panic(rec)
			}
			for i := len(x.trail) - 1; i >= mark; i-- {
				e := &x.trail[i]
				if e.f != nil {
					e.f()
				} else {
					*e.s = e.old
				}
				*e = trailEnt{}
			}
			x.trail = x.trail[:mark]
			x.g.top, x.g.depth = top, depth
			x.steps = steps
			out, ok = nil, false
		}
	}()
	tb := x.tb
	base := tb.tt
	if x.spec > 1 {
		base = sg
	}
	edges := map[*cblock][]redge{}
	type exitEdge struct {
		g    *Term
		from *cblock
		to   *cblock
		idx  int
		vals []Value
	}
	exE := make([][]exitEdge, len(r.exits))
	exIdx := func(b *cblock) int {
		for i, e := range r.exits {
			if e == b {
				return i
			}
		}
		return -1
	}
	h := r.blocks[0]
	addEdge := func(g *Term, from, to *cblock) {
		if g == tb.ff {
			return
		}
		pi := 0
		for i, q := range to.preds {
			if q == from {
				pi = i
			}
		}
		if r.in[to] && to != h {
			edges[to] = append(edges[to], redge{g, from, pi})
			return
		}
		e := exitEdge{g: g, from: from, to: to, idx: pi}
		for i := range to.phis {
			e.vals = append(e.vals, fr.get(x, &to.phis[i].ops[pi]))
		}
		k := exIdx(to)
		exE[k] = append(exE[k], e)
	}
	addEdge(tb.And(base, c), h, h.succs[0])
	addEdge(tb.And(base, tb.Not(c)), h, h.succs[1])
	for _, b := range r.blocks[1:] {
		es := edges[b]
		if len(es) == 0 {
			continue
		}
		g := es[0].g
		for _, e := range es[1:] {
			g = tb.Or(g, e.g)
		}
		// phis
		if len(b.phis) > 0 {
			tmp := make([]Value, len(b.phis))
			for i := range b.phis {
				ph := &b.phis[i]
				v := fr.get(x, &ph.ops[es[len(es)-1].idx])
				for k := len(es) - 2; k >= 0; k-- {
					var mok bool
					v, mok = x.merge(ph.t, es[k].g, fr.get(x, &ph.ops[es[k].idx]), v)
					if !mok {
						panic(specFail)
					}
				}
				tmp[i] = v
			}
			for i := range b.phis {
				fr.regs[b.phis[i].dst] = tmp[i]
			}
		}
		x.specGuard = g
		x.steps += int64(len(b.code)) + 1
		for i := range b.code {
			q := &b.code[i]
			switch q.op {
			case cJump:
				addEdge(g, b, b.succs[0])
			case cIf:
				cv := fr.get(x, &q.ops[0])
				ct := x.term(cv, 0)
				addEdge(tb.And(g, ct), b, b.succs[0])
				addEdge(tb.And(g, tb.Not(ct)), b, b.succs[1])
			case cReturn:
				e := exitEdge{g: g, from: b}
				for j := range q.ops {
					e.vals = append(e.vals, fr.get(x, &q.ops[j]))
				}
				k := exIdx(nil)
				exE[k] = append(exE[k], e)
			default:
				x.step(fr, q)
			}
		}
	}
	out = make([]*exitRes, len(r.exits))
	for k, es := range exE {
		if len(es) == 0 {
			continue
		}
		res := &exitRes{guard: es[0].g, vals: append([]Value(nil), es[len(es)-1].vals...)}
		for _, e := range es[1:] {
			res.guard = tb.Or(res.guard, e.g)
		}
		for j := len(es) - 2; j >= 0; j-- {
			for i := range res.vals {
				var t types.Type
				if r.exits[k] == nil {
					t = fr.fn.fn.Signature.Results().At(i).Type()
				} else {
					t = r.exits[k].phis[i].t
				}
				v, mok := x.merge(t, es[j].g, es[j].vals[i], res.vals[i])
				if !mok {
					panic(specFail)
				}
				res.vals[i] = v
			}
		}
		out[k] = res
	}
	ok = true
	for _, o := range out {
		if o != nil {
			return
		}
	}
	panic(specFail)
}
