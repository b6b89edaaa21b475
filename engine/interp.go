package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// goPanic is an interpreted panic travelling as a host panic.
type goPanic struct {
	v     Value // interface value
	where string
	fatal bool // runtime throw: not recoverable
}

// abort ends the current path; it is not visible to interpreted code.
type abort struct {
	kind string // dead, unsupported, steps, alloc, stop, exit
	msg  string
}

type deferred struct {
	call *ccall
	fn   Value
	m    *cfn
	args []Value
	pos  token.Pos
}

type panicState struct {
	p         *goPanic
	recovered bool
}

type frame struct {
	fn     *cfn
	regs   []Value
	defers []deferred
	caller *frame
	ps     *panicState // set on frames of deferred calls run while panicking
	pos    token.Pos
	g      *gor
}

func (x *Exec) unsupported(f string, a ...any) {
	panic(&abort{"unsupported", fmt.Sprintf(f, a...)})
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := x.p.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// where describes the innermost frames of the code under test.
func (x *Exec) where() string {
	var out []string
	for f := x.g.top; f != nil && len(out) < 6; f = f.caller {
		s := x.posStr(f.pos)
		out = append(out, f.fn.name+"@"+s)
	}
	return strings.Join(out, " < ")
}

func (x *Exec) throwRuntime(msg string) {
	v := strV(msg)
	rt := x.p.runtimeErr
	panic(&goPanic{v: Value{p: &Iface{t: rt, v: v}}, where: x.where()})
}

func (fr *frame) get(x *Exec, o *opnd) Value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.v
	case 2:
		return x.globalPtr(int(o.i))
	case 3:
		return x.zero(o.v.p.(types.Type))
	}
	return Value{}
}

func (x *Exec) globalSlot(i int) *Value {
	for i >= len(x.globals) {
		x.globals = append(x.globals, nil)
	}
	s := x.globals[i]
	if s == nil {
		s = x.initGlobal(i)
	}
	return s
}

func (x *Exec) globalPtr(i int) Value {
	s := x.globalSlot(i)
	return ptrTo(s)
}

// ptrTo makes a pointer to a slot.
func ptrTo(s *Value) Value {
	if a, ok := s.p.(*Agg); ok {
		return Value{p: (*AggP)(a)}
	}
	return Value{p: s}
}

func (x *Exec) initGlobal(i int) *Value {
	x.p.mu.Lock()
	g := x.p.globs[i]
	x.p.mu.Unlock()
	x.initPkg(g.Pkg)
	if i < len(x.globals) && x.globals[i] != nil {
		return x.globals[i]
	}
	return x.rawGlobal(i, g)
}

func (x *Exec) rawGlobal(i int, g *ssa.Global) *Value {
	for i >= len(x.globals) {
		x.globals = append(x.globals, nil)
	}
	if x.globals[i] != nil {
		return x.globals[i]
	}
	sv := x.initMode
	x.initMode = true
	v := x.zero(g.Type().Underlying().(*types.Pointer).Elem())
	x.initMode = sv
	x.globals[i] = &v
	return x.globals[i]
}

// initPkg runs a package's initialiser (once per worker), in init mode.
func (x *Exec) initPkg(pkg *ssa.Package) {
	if pkg == nil || x.inited[pkg] {
		return
	}
	x.inited[pkg] = true
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	sv, g, steps, lim, spec := x.initMode, x.g, x.steps, x.stepLimit, x.spec
	x.spec = 0
	x.initMode = true
	x.g = &gor{}
	x.stepLimit = math.MaxInt64
	defer func() {
		x.initMode, x.g, x.steps, x.stepLimit, x.spec = sv, g, steps, lim, spec
		if r := recover(); r != nil {
			if a, ok := r.(*abort); ok && a.kind == "unsupported" {
				x.note("init of " + pkg.Pkg.Path() + ": " + a.msg)
				return
			}
			if a, ok := r.(*goPanic); ok {
				x.note("init of " + pkg.Pkg.Path() + " panicked: " + x.panicMsg(a))
				return
			}
			panic(r)
		}
	}()
	x.callFn(x.p.fn(f), nil, nil, nil)
}

var skipInit = map[string]bool{"runtime": true, "os": false, "syscall": true, "internal/cpu": true, "reflect": true, "internal/godebug": true}

// ---------------------------------------------------------------- calls

// callFn calls a compiled function.
func (x *Exec) callFn(f *cfn, args []Value, env []Value, c *ccall) Value {
	if f.intrinsic != nil {
		return f.intrinsic(x, x.g.top, c, args)
	}
	f.compile(x.p)
	if !f.ok {
		x.unsupported("no body: %s", f.name)
	}
	if f.skipInitCall {
		return Value{}
	}
	if f.track {
		x.hits[f]++
	}
	g := x.g
	g.depth++
	if g.depth > 3000 {
		panic(&goPanic{v: Value{p: &Iface{t: x.p.runtimeErr, v: strV("stack overflow")}}, where: x.where(), fatal: true})
	}
	fr := &frame{fn: f, caller: g.top, g: g}
	fr.regs = make([]Value, f.nregs)
	copy(fr.regs, args)
	copy(fr.regs[f.nparams:], env)
	if g.deferPS != nil {
		fr.ps = g.deferPS
		g.deferPS = nil
	}
	g.top = fr
	var ret Value
	if f.hasDefer {
		ret = x.runDeferFrame(fr)
	} else {
		ret = x.exec(fr, f.blocks[0], nil)
	}
	g.top = fr.caller
	g.depth--
	return ret
}

func (x *Exec) tryExec(fr *frame, b *cblock) (ret Value, gp *goPanic) {
	g := fr.g
	depth := g.depth
	defer func() {
		if r := recover(); r != nil {
			p, ok := r.(*goPanic)
			if !ok || p.fatal {
				panic(r)
			}
			gp = p
			g.top = fr
			g.depth = depth
		}
	}()
	ret = x.exec(fr, b, nil)
	return
}

func (x *Exec) runDeferFrame(fr *frame) Value {
	ret, gp := x.tryExec(fr, fr.fn.blocks[0])
	if gp == nil {
		return ret
	}
	ps := &panicState{p: gp}
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if np := x.tryDefer(fr, d, ps); np != nil {
			ps = &panicState{p: np}
			continue
		}
		if ps.recovered {
			break
		}
	}
	if !ps.recovered {
		panic(ps.p)
	}
	// recovered: run the remaining defers normally, then the recover block
	if fr.fn.recover != nil {
		r, gp := x.tryExec(fr, fr.fn.recover)
		if gp != nil {
			panic(gp)
		}
		return r
	}
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		x.runDeferred(fr, d, nil)
	}
	res := fr.fn.fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return x.zero(res.At(0).Type())
	}
	return x.zero(res)
}

func (x *Exec) tryDefer(fr *frame, d deferred, ps *panicState) (gp *goPanic) {
	g := fr.g
	depth := g.depth
	defer func() {
		if r := recover(); r != nil {
			p, ok := r.(*goPanic)
			if !ok || p.fatal {
				panic(r)
			}
			gp = p
			g.top = fr
			g.depth = depth
		}
	}()
	x.runDeferred(fr, d, ps)
	return nil
}

func (x *Exec) runDeferred(fr *frame, d deferred, ps *panicState) {
	if d.m != nil {
		x.g.deferPS = ps
		x.callFn(d.m, d.args, nil, d.call)
		x.g.deferPS = nil
		return
	}
	if d.call.builtin != nil {
		x.builtin(fr, d.call, d.args)
		return
	}
	x.g.deferPS = ps
	x.callVal(d.fn, d.args, d.call)
	x.g.deferPS = nil
}

// callVal calls a function value.
func (x *Exec) callVal(fv Value, args []Value, c *ccall) Value {
	if fv.p == nil {
		x.throwRuntime("invalid memory address or nil pointer dereference")
	}
	cl := fv.p.(*Closure)
	if cl.native != nil {
		return cl.native(x, args)
	}
	return x.callFn(cl.fn, args, cl.env, c)
}

func (x *Exec) evalCall(fr *frame, c *ccall) (fv Value, m *cfn, args []Value) {
	n := len(c.args)
	if c.invoke {
		recv := fr.get(x, &c.recv)
		if recv.p == nil {
			x.throwRuntime("invalid memory address or nil pointer dereference")
		}
		ifc := recv.p.(*Iface)
		m = x.p.method(ifc.t, c.method)
		if m == nil {
			x.unsupported("method %s of %s", c.method.Name(), ifc.t)
		}
		args = make([]Value, n+1)
		args[0] = ifc.v
		for i := range c.args {
			args[i+1] = fr.get(x, &c.args[i])
		}
		return
	}
	args = make([]Value, n)
	for i := range c.args {
		args[i] = fr.get(x, &c.args[i])
	}
	if c.builtin != nil {
		return
	}
	if c.static != nil {
		m = c.static
		return
	}
	fv = fr.get(x, &c.fn)
	return
}

func (x *Exec) doCall(fr *frame, c *ccall) Value {
	fr.pos = c.pos
	fv, m, args := x.evalCall(fr, c)
	if x.initMode && fr.fn.isInit {
		return x.initCall(fr, c, fv, m, args)
	}
	if c.builtin != nil {
		return x.builtin(fr, c, args)
	}
	if m != nil {
		return x.callFn(m, args, nil, c)
	}
	return x.callVal(fv, args, c)
}

// initCall tolerates unsupported calls in package initialisers.
func (x *Exec) initCall(fr *frame, c *ccall, fv Value, m *cfn, args []Value) (ret Value) {
	g := x.g
	depth := g.depth
	defer func() {
		if r := recover(); r != nil {
			a, ok := r.(*abort)
			msg := ""
			if ok && a.kind == "unsupported" {
				msg = a.msg
			} else if p, ok := r.(*goPanic); ok {
				msg = "panic " + x.panicMsg(p)
			} else {
				panic(r)
			}
			x.note("init call in " + fr.fn.name + ": " + msg)
			g.top, g.depth = fr, depth
			res := c.sig.Results()
			switch res.Len() {
			case 0:
			case 1:
				ret = x.zero(res.At(0).Type())
			default:
				ret = x.zero(res)
			}
		}
	}()
	if c.builtin != nil {
		return x.builtin(fr, c, args)
	}
	if m != nil {
		if m.fn != nil && m.fn.Name() == "init" && m.fn.Signature.Recv() == nil && m.fn.Pkg != fr.fn.fn.Pkg && m.fn.Parent() == nil {
			return Value{} // imported packages are initialised on demand
		}
		return x.callFn(m, args, nil, c)
	}
	return x.callVal(fv, args, c)
}

func (x *Exec) panicMsg(p *goPanic) string { return x.show(p.v) }

// show renders a value for diagnostics.
func (x *Exec) show(v Value) string {
	switch q := v.p.(type) {
	case nil:
		return fmt.Sprint(v.u)
	case *Iface:
		if s, ok := goStr(q.v); ok && isString(q.t.t) {
			return s
		}
		if e := x.errString(v); e != "" {
			return e
		}
		return q.t.String() + "(" + x.show(q.v) + ")"
	case string:
		return q
	case *Term:
		return "sym"
	case *SymStr:
		return "symstr"
	}
	return fmt.Sprintf("%T", v.p)
}

// errString calls Error() when cheap and safe.
func (x *Exec) errString(v Value) (s string) {
	ifc := v.p.(*Iface)
	ms := x.p.prog.MethodSets.MethodSet(ifc.t.t).Lookup(nil, "Error")
	if ms == nil {
		return ""
	}
	f := x.p.prog.MethodValue(ms)
	if f == nil {
		return ""
	}
	g, spec, steps := x.g, x.spec, x.steps
	defer func() {
		if r := recover(); r != nil {
			s = ifc.t.String()
		}
		x.g, x.spec, x.steps = g, spec, steps
	}()
	x.g = &gor{}
	x.spec = 0
	rv := x.callFn(x.p.fn(f), []Value{ifc.v}, nil, nil)
	s, _ = goStr(rv)
	return s
}

// ---------------------------------------------------------------- main loop

func (x *Exec) exec(fr *frame, b *cblock, from *cblock) Value {
	regs := fr.regs
	for {
		// phis
		if len(b.phis) > 0 && from != nil {
			pi := 0
			for i, q := range b.preds {
				if q == from {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				regs[b.phis[0].dst] = fr.get(x, &b.phis[0].ops[pi])
			} else {
				var buf [8]Value
				tmp := buf[:0]
				for i := range b.phis {
					tmp = append(tmp, fr.get(x, &b.phis[i].ops[pi]))
				}
				for i := range b.phis {
					regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		x.steps += int64(len(b.code)) + 1
		if x.run.debug {
			fr.fn.nsteps += int64(len(b.code)) + 1
		}
		if x.steps > x.stepLimit {
			panic(&abort{"steps", x.where()})
		}
		code := b.code
	next:
		for i := range code {
			in := &code[i]
			switch in.op {
			case cJump:
				from, b = b, b.succs[0]
				break next
			case cIf:
				c := regs0(fr, x, &in.ops[0])
				var t bool
				if c.p == nil {
					t = c.u != 0
				} else {
					ct := c.p.(*Term)
					if len(in.regions) > 0 && !x.initMode {
						nb, ret, st := x.tryRegions(fr, in, ct)
						if st == 2 {
							return ret
						}
						if st == 1 {
							from, b = nil, nb // phis are already set
							break next
						}
					}
					fr.pos = in.pos
					t = x.branch(ct)
				}
				if t {
					from, b = b, b.succs[0]
				} else {
					from, b = b, b.succs[1]
				}
				break next
			case cReturn:
				switch len(in.ops) {
				case 0:
					return Value{}
				case 1:
					return fr.get(x, &in.ops[0])
				}
				tp := make(Tuple, len(in.ops))
				for j := range in.ops {
					tp[j] = fr.get(x, &in.ops[j])
				}
				return Value{p: tp}
			case cPanic:
				fr.pos = in.pos
				v := fr.get(x, &in.ops[0])
				if v.p == nil {
					x.throwRuntime("panic called with nil argument")
				}
				panic(&goPanic{v: v, where: x.where()})
			default:
				x.step(fr, in)
			}
		}
	}
}

func regs0(fr *frame, x *Exec, o *opnd) Value {
	if o.k == 0 {
		return fr.regs[o.i]
	}
	return fr.get(x, o)
}

func (x *Exec) nilDeref(fr *frame, in *cinstr) {
	fr.pos = in.pos
	x.throwRuntime("invalid memory address or nil pointer dereference")
}

// step executes one straight-line instruction.
func (x *Exec) step(fr *frame, in *cinstr) {
	var r Value
	switch in.op {
	case cNop:
		return
	case cAlloc:
		if isAgg(in.t) {
			r = Value{p: (*AggP)(x.zero(in.t).p.(*Agg))}
		} else {
			r = Value{p: new(Value)}
		}
	case cCall:
		r = x.doCall(fr, in.call)
	case cBinOp:
		r = x.binop(fr, in, fr.get(x, &in.ops[0]), fr.get(x, &in.ops[1]))
	case cNot:
		v := fr.get(x, &in.ops[0])
		if v.p == nil {
			r.u = 1 - v.u
		} else {
			r = tv(x.tb.Not(v.p.(*Term)))
		}
	case cNeg:
		v := fr.get(x, &in.ops[0])
		switch in.kind {
		case kInt:
			if v.p == nil {
				r.u = -v.u & mask(in.w)
			} else {
				r = tv(x.tb.Neg(v.p.(*Term)))
			}
		case kFloat64:
			r = fbits(-math.Float64frombits(v.u))
		case kFloat32:
			r.u = uint64(math.Float32bits(-math.Float32frombits(uint32(v.u))))
		}
	case cCompl:
		v := fr.get(x, &in.ops[0])
		if v.p == nil {
			r.u = ^v.u & mask(in.w)
		} else {
			r = tv(x.tb.NotB(v.p.(*Term)))
		}
	case cLoad:
		v := fr.get(x, &in.ops[0])
		switch q := v.p.(type) {
		case *Value:
			r = *q
		case *AggP:
			r = x.cp(Value{p: (*Agg)(q)})
		case nil:
			x.nilDeref(fr, in)
		default:
			fr.pos = in.pos
			r = x.loadPtr(v, in.t)
		}
		if x.race != nil {
			fr.pos = in.pos
			x.race.access(x, v, false)
		}
	case cStore:
		p := fr.get(x, &in.ops[0])
		v := fr.get(x, &in.ops[1])
		if p.p == nil {
			x.nilDeref(fr, in)
		}
		if x.race != nil {
			fr.pos = in.pos
			x.race.access(x, p, true)
		}
		x.storePtr(p, v, in.t)
		return
	case cChangeInterface, cChangeType:
		r = fr.get(x, &in.ops[0])
	case cConvert:
		fr.pos = in.pos
		r = x.convert(fr.get(x, &in.ops[0]), in.t, in.t2)
	case cMakeInterface:
		r = Value{p: &Iface{t: in.rt, v: fr.get(x, &in.ops[0])}}
	case cMakeClosure:
		f := fr.get(x, &in.ops[0]).p.(*Closure)
		env := make([]Value, len(in.ops)-1)
		for i := range env {
			env[i] = fr.get(x, &in.ops[i+1])
		}
		r = Value{p: &Closure{fn: f.fn, env: env}}
	case cMakeMap:
		r = Value{p: &MapV{idx: map[any]int{}}}
	case cMakeChan:
		n := fr.get(x, &in.ops[0])
		r = Value{p: &ChanV{cap: int(n.u)}}
	case cMakeSlice:
		fr.pos = in.pos
		r = x.makeSlice(fr.get(x, &in.ops[0]), fr.get(x, &in.ops[1]), in)
	case cSlice:
		fr.pos = in.pos
		r = x.sliceOp(fr, in)
	case cFieldAddr:
		v := fr.get(x, &in.ops[0])
		a, ok := v.p.(*AggP)
		if !ok {
			if v.p == nil {
				x.nilDeref(fr, in)
			}
			x.unsupported("field of %T", v.p)
		}
		r = ptrTo(&a.e[in.n])
	case cField:
		v := fr.get(x, &in.ops[0])
		r = v.p.(*Agg).e[in.n]
	case cIndexAddr:
		fr.pos = in.pos
		r = x.indexAddr(fr.get(x, &in.ops[0]), fr.get(x, &in.ops[1]), in)
	case cIndex:
		fr.pos = in.pos
		v, ix := fr.get(x, &in.ops[0]), fr.get(x, &in.ops[1])
		if isString(in.t) || v.p == nil {
			r = x.strIndex(v, ix, in)
			break
		}
		if _, ok := v.p.(string); ok {
			r = x.strIndex(v, ix, in)
			break
		}
		if _, ok := v.p.(*SymStr); ok {
			r = x.strIndex(v, ix, in)
			break
		}
		a := v.p.(*Agg)
		i, sym := x.index(ix, in, len(a.e))
		if sym != nil {
			r = x.loadSym(&SymPtr{a: a, n: len(a.e), idx: sym, elem: in.t2})
		} else {
			r = a.e[i]
		}
	case cLookup:
		fr.pos = in.pos
		v, k := fr.get(x, &in.ops[0]), fr.get(x, &in.ops[1])
		if isString(in.t) {
			r = x.strIndex(v, k, in)
			break
		}
		r = x.mapLookup(v, k, in)
	case cRange:
		v := fr.get(x, &in.ops[0])
		if isString(in.t) {
			r.p = &strIter{s: v}
		} else if v.p == nil {
			r.p = &mapIter{}
		} else {
			if x.race != nil {
				fr.pos = in.pos
				x.race.access(x, v, false)
			}
			r.p = &mapIter{m: v.p.(*MapV)}
		}
	case cNext:
		fr.pos = in.pos
		r = x.next(fr.get(x, &in.ops[0]), in)
	case cTypeAssert:
		fr.pos = in.pos
		r = x.typeAssert(fr.get(x, &in.ops[0]), in)
	case cExtract:
		r = fr.get(x, &in.ops[0]).p.(Tuple)[in.n]
	case cRunDefers:
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			fr.pos = d.pos
			x.runDeferred(fr, d, nil)
		}
		return
	case cDefer:
		fr.pos = in.pos
		fv, m, args := x.evalCall(fr, in.call)
		t := fr
		if len(in.ops) > 0 {
			if f, ok := fr.get(x, &in.ops[0]).p.(*frame); ok {
				t = f
			}
		}
		t.defers = append(t.defers, deferred{call: in.call, fn: fv, m: m, args: args, pos: in.call.pos})
		return
	case cGo:
		fr.pos = in.pos
		fv, m, args := x.evalCall(fr, in.call)
		x.spawn(fv, m, args, in.call)
		return
	case cMapUpdate:
		fr.pos = in.pos
		x.mapUpdate(fr.get(x, &in.ops[0]), fr.get(x, &in.ops[1]), fr.get(x, &in.ops[2]), in.t)
		return
	case cSliceToArrayPtr:
		fr.pos = in.pos
		v := fr.get(x, &in.ops[0])
		if sliceLen(v) < in.n {
			x.throwRuntime(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", sliceLen(v), in.n))
		}
		if v.p == nil {
			break
		}
		s := v.p.(*Slice)
		if s.off == 0 && len(s.a.e) == in.n {
			r.p = (*AggP)(s.a)
		} else {
			// an alias of part of the backing array
			r.p = &AggP{e: s.a.e[s.off : s.off+in.n : s.off+in.n], path: s.a.path}
		}
	case cSend:
		fr.pos = in.pos
		x.chanSend(fr.get(x, &in.ops[0]), fr.get(x, &in.ops[1]))
		return
	case cRecv:
		fr.pos = in.pos
		r = x.chanRecv(fr.get(x, &in.ops[0]), in.t, in.cm)
	case cSelect:
		fr.pos = in.pos
		r = x.selectOp(fr, in)
	default:
		x.unsupported("instruction %d", in.op)
	}
	if in.dst >= 0 {
		fr.regs[in.dst] = r
	}
}

// ---------------------------------------------------------------- memory

func (x *Exec) loadPtr(p Value, t types.Type) Value {
	switch q := p.p.(type) {
	case *Value:
		return *q
	case *AggP:
		return x.cp(Value{p: (*Agg)(q)})
	case *ElemPtr:
		if q.i >= len(q.a.e) {
			x.unsupported("load past end of array")
		}
		if isAgg(t) {
			return x.cp(q.a.e[q.i])
		}
		return q.a.e[q.i]
	case *SymPtr:
		return x.loadSym(q)
	case nil:
		x.throwRuntime("invalid memory address or nil pointer dereference")
	}
	x.unsupported("load through %T", p.p)
	return Value{}
}

func (x *Exec) storePtr(p, v Value, t types.Type) {
	if x.spec > 0 {
		x.specStore(p, v, t)
		return
	}
	switch q := p.p.(type) {
	case *Value:
		x.store(q, v)
	case *AggP:
		x.copyInto((*Agg)(q), v.p.(*Agg))
	case *ElemPtr:
		if isAgg(t) {
			x.copyInto(q.a.e[q.i].p.(*Agg), v.p.(*Agg))
		} else {
			x.setA(q.a, q.i, v)
		}
	case *SymPtr:
		_, w, _ := kindOf(q.elem)
		nv := x.term(v, w)
		n := q.n
		if um := q.idx.um; um < uint64(n) {
			n = int(um) + 1
		}
		for j := 0; j < n; j++ {
			c := x.tb.Eq(q.idx, x.tb.Const(q.idx.w, uint64(j)))
			if c == x.tb.ff {
				continue
			}
			old := x.term(q.a.e[q.off+j], w)
			x.setA(q.a, q.off+j, tv(x.tb.Ite(c, nv, old)))
		}
	case nil:
		x.throwRuntime("invalid memory address or nil pointer dereference")
	default:
		x.unsupported("store through %T", p.p)
	}
}

// loadSym reads an array element at a symbolic (in range) index.
func (x *Exec) loadSym(q *SymPtr) Value {
	k, w, _ := kindOf(q.elem)
	if k != kInt && k != kBool {
		i := x.concretize(q.idx)
		return q.a.e[q.off+int(i)]
	}
	n := q.n
	if um := q.idx.um; um < uint64(n) {
		n = int(um) + 1
	}
	es := q.a.e[q.off : q.off+n]
	bits := uint8(0)
	for 1<<bits < n {
		bits++
	}
	if bits > q.idx.w {
		bits = q.idx.w
	}
	var mux func(lo int, bit uint8) *Term
	mux = func(lo int, bit uint8) *Term {
		if lo >= n {
			return nil
		}
		if bit == 0 {
			return x.term(es[lo], w)
		}
		a := mux(lo, bit-1)
		b := mux(lo+1<<(bit-1), bit-1)
		if b == nil || a == b {
			return a
		}
		c := x.tb.Eq(x.tb.Extract(q.idx, bit-1, bit-1), x.tb.Const(1, 1))
		return x.tb.Ite(c, b, a)
	}
	return tv(mux(0, bits))
}

// index checks an index against n: returns a concrete index or a symbolic term.
func (x *Exec) index(ix Value, in *cinstr, n int) (int, *Term) {
	if ix.p == nil {
		i := ix.u
		if in.sg {
			i = uint64(sx(i, in.w))
		}
		if i >= uint64(n) {
			x.throwRuntime(fmt.Sprintf("index out of range [%d] with length %d", int64(i), n))
		}
		return int(i), nil
	}
	t := ix.p.(*Term)
	x.boundCheck(t, in.w, in.sg, n)
	if n == 1 {
		return 0, nil
	}
	return 0, t
}

// boundCheck forks on t < n (as an index).
func (x *Exec) boundCheck(t *Term, w uint8, sg bool, n int) {
	var ok *Term
	if w < 64 && uint64(n) > mask(w) && !sg {
		return
	}
	if sg && w < 64 && uint64(n) > mask(w-1) {
		ok = x.tb.Sle(x.tb.Const(w, 0), t)
	} else {
		ok = x.tb.Ult(t, x.tb.Const(w, uint64(n)))
	}
	if x.spec > 0 {
		if ok != x.tb.tt {
			panic(specFail)
		}
		return
	}
	if !x.branch(ok) {
		x.throwRuntime(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
}

const maxMux = 4096

func (x *Exec) indexAddr(v, ix Value, in *cinstr) Value {
	var a *Agg
	var off, n int
	switch q := v.p.(type) {
	case *Slice:
		a, off, n = q.a, q.off, q.len
	case *AggP:
		a, n = (*Agg)(q), len(q.e)
	case nil:
		if in.cm {
			x.throwRuntime("invalid memory address or nil pointer dereference")
		}
	case *ElemPtr: // pointer to array inside a buffer (unsafe)
		a, off, n = q.a, q.i, in.n
	default:
		x.unsupported("index of %T", v.p)
	}
	i, sym := x.index(ix, in, n)
	if sym != nil {
		k, _, _ := kindOf(in.t)
		if (k == kInt || k == kBool) && n <= maxMux {
			return Value{p: &SymPtr{a: a, off: off, n: n, idx: sym, elem: in.t}}
		}
		i = int(x.concretize(sym))
	}
	return ptrTo(&a.e[off+i])
}

func (x *Exec) strIndex(v, ix Value, in *cinstr) Value {
	n := strLen(v)
	i, sym := x.index(ix, in, n)
	if sym != nil {
		if n <= maxMux {
			return x.loadSym(&SymPtr{a: &Agg{e: strBytes(v)}, n: n, idx: sym, elem: types.Typ[types.Uint8]})
		}
		i = int(x.concretize(sym))
	}
	return strAt(v, i)
}

// toInt makes an int-typed value concrete (sign extended).
func (x *Exec) toInt(v Value, w uint8, sg bool) int64 {
	u := v.u
	if t, ok := v.p.(*Term); ok {
		u = x.concretize(t)
	}
	if sg {
		return sx(u, w)
	}
	return int64(u)
}

func (x *Exec) makeSlice(ln, cp Value, in *cinstr) Value {
	lim := int64(1) << 46
	if in.n > 0 {
		lim = (1 << 47) / int64(in.n)
	}
	chk := func(v Value, w uint8, sg bool, what string) {
		if v.p == nil {
			i := int64(v.u)
			if sg {
				i = sx(v.u, w)
			}
			if i < 0 || i > lim {
				x.throwRuntime("makeslice: " + what + " out of range")
			}
			return
		}
		t := v.p.(*Term)
		if w < 64 {
			if sg && !x.branch(x.tb.Sle(x.tb.Const(w, 0), t)) {
				x.throwRuntime("makeslice: " + what + " out of range")
			}
			return
		}
		if !x.branch(x.tb.Ule(t, x.tb.Const(w, uint64(lim)))) {
			x.throwRuntime("makeslice: " + what + " out of range")
		}
	}
	chk(ln, in.w, in.sg, "len")
	chk(cp, in.w2, in.sg2, "cap")
	budget := x.allocLimit
	huge := func(v Value, w uint8) {
		sz := int64(in.n)
		if sz == 0 {
			return
		}
		n := uint64(budget / sz)
		if v.p == nil {
			if v.u > n {
				x.allocExceeded(fmt.Sprintf("make of %d x %d bytes", v.u, sz))
			}
			return
		}
		t := v.p.(*Term)
		if n >= mask(t.w) {
			return
		}
		if !x.branch(x.tb.Ule(t, x.tb.Const(t.w, n))) {
			x.allocExceeded(fmt.Sprintf("make of an unbounded count x %d bytes", sz))
		}
	}
	if x.maxCount > 0 {
		for i, v := range []Value{ln, cp} {
			w := in.w
			if i == 1 {
				if ln != cp {
					break // a capacity alone is not built
				}
				w = in.w2
			}
			if t, ok := v.p.(*Term); ok && uint64(x.maxCount) < mask(w) && !x.branch(x.tb.Ule(t, x.tb.Const(w, uint64(x.maxCount)))) {
				panic(&abort{"bound", "make with a count above the bound at " + x.where()})
			}
		}
	}
	huge(cp, in.w2)
	lenIsCap := ln == cp
	n := x.toInt(ln, in.w, in.sg)
	if cp.p != nil && !lenIsCap {
		// the capacity is not observable beyond cap(): use cap = len
		t := cp.p.(*Term)
		lt := x.tb.Const(t.w, uint64(n))
		if !x.branch(x.tb.Ule(lt, t)) {
			x.throwRuntime("makeslice: cap out of range")
		}
		x.accountAlloc(n * int64(in.n))
		return Value{p: &Slice{a: x.newArray(in.t, int(n)), len: int(n), cap: int(n)}}
	}
	c := n
	if !lenIsCap {
		c = x.toInt(cp, in.w2, in.sg2)
	}
	if c < n {
		x.throwRuntime("makeslice: cap out of range")
	}
	x.accountAlloc(c * int64(in.n))
	return Value{p: &Slice{a: x.newArray(in.t, int(c)), len: int(n), cap: int(c)}}
}

func (x *Exec) accountAlloc(n int64) {
	x.allocated += n
	if x.allocBudget > 0 && x.allocated > x.allocBudget {
		x.allocExceeded(fmt.Sprintf("%d bytes allocated in total", x.allocated))
	}
}

// sliceOp implements x[lo:hi:max].
func (x *Exec) sliceOp(fr *frame, in *cinstr) Value {
	v := fr.get(x, &in.ops[0])
	var ln, cp int
	var a *Agg
	off := 0
	str := false
	switch q := v.p.(type) {
	case *Slice:
		a, off, ln, cp = q.a, q.off, q.len, q.cap
	case *AggP:
		a, ln, cp = (*Agg)(q), len(q.e), len(q.e)
	case string, *SymStr:
		str = true
		ln = strLen(v)
		cp = ln
	case nil:
		if isString(in.t) {
			str = true
		} else if _, ok := in.t.Underlying().(*types.Pointer); ok {
			x.throwRuntime("invalid memory address or nil pointer dereference")
		}
	case *ElemPtr:
		pt := in.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(pt.Len())
		if q.i+n > len(q.a.e) {
			n = len(q.a.e) - q.i
		}
		a, off, ln, cp = q.a, q.i, n, n
	default:
		x.unsupported("slice of %T", v.p)
	}
	bound := func(o *opnd, def int, hiBound int, what string) int {
		if o.k == 9 {
			return def
		}
		b := fr.get(x, o)
		if b.p == nil {
			// indices of narrower types are rare; widths are recovered from the ssa value
			i := x.signedOpnd(in, o, b)
			if i < 0 || i > int64(hiBound) {
				x.throwRuntime(fmt.Sprintf("slice bounds out of range [%s %d] with limit %d", what, i, hiBound))
			}
			return int(i)
		}
		if x.spec > 0 {
			panic(specFail)
		}
		t := b.p.(*Term)
		var c *Term
		if t.w < 64 && uint64(hiBound) > mask(t.w) {
			c = x.tb.tt
			if x.opndSigned(in, o) {
				c = x.tb.Sle(x.tb.Const(t.w, 0), t)
			}
		} else {
			c = x.tb.Ule(t, x.tb.Const(t.w, uint64(hiBound)))
		}
		if !x.branch(c) {
			x.throwRuntime(fmt.Sprintf("slice bounds out of range [%s sym] with limit %d", what, hiBound))
		}
		return int(x.concretize(t))
	}
	mx := bound(&in.ops[3], cp, cp, "::max")
	hiLim := mx
	if str {
		hiLim = ln
	}
	hi := bound(&in.ops[2], ln, hiLim, ":hi")
	lo := bound(&in.ops[1], 0, hi, "lo:")
	if str {
		return strSlice(v, lo, hi)
	}
	if a == nil {
		return Value{}
	}
	return Value{p: &Slice{a: a, off: off + lo, len: hi - lo, cap: mx - lo}}
}

func (x *Exec) opndVal(in *cinstr, o *opnd) ssa.Value {
	s := in.in.(*ssa.Slice)
	for i, v := range []ssa.Value{s.Low, s.High, s.Max} {
		if &in.ops[i+1] == o {
			return v
		}
	}
	return nil
}

func (x *Exec) opndSigned(in *cinstr, o *opnd) bool {
	_, sg, _ := bitsOf(x.opndVal(in, o).Type())
	return sg
}

func (x *Exec) signedOpnd(in *cinstr, o *opnd, v Value) int64 {
	w, sg, _ := bitsOf(x.opndVal(in, o).Type())
	if sg {
		return sx(v.u, w)
	}
	if int64(v.u) < 0 {
		return math.MaxInt64
	}
	return int64(v.u)
}

// ---------------------------------------------------------------- types

func (x *Exec) typeAssert(v Value, in *cinstr) Value {
	fail := func() Value {
		if in.cm {
			return Value{p: Tuple{x.zero(in.t), Value{}}}
		}
		dyn := "nil"
		if v.p != nil {
			dyn = v.p.(*Iface).t.String()
		}
		x.throwRuntime("interface conversion: interface is " + dyn + ", not " + in.rt.String())
		return Value{}
	}
	if v.p == nil {
		return fail()
	}
	ifc := v.p.(*Iface)
	var r Value
	if _, ok := in.t.Underlying().(*types.Interface); ok {
		if !x.p.implements(ifc.t, in.rt) {
			return fail()
		}
		r = v
	} else {
		if ifc.t != in.rt {
			return fail()
		}
		r = ifc.v
	}
	if in.cm {
		return Value{p: Tuple{r, {u: 1}}}
	}
	return r
}

func (x *Exec) next(v Value, in *cinstr) Value {
	switch it := v.p.(type) {
	case *mapIter:
		if it.m != nil {
			for it.i < len(it.m.ents) {
				e := it.m.ents[it.i]
				it.i++
				if !e.dead {
					return Value{p: Tuple{{u: 1}, e.key, e.val}}
				}
			}
		}
		tp := in.t.(*types.Tuple)
		z := make(Tuple, 3)
		for i := 1; i < 3; i++ {
			if tp.At(i).Type() != types.Typ[types.Invalid] {
				z[i] = x.zero(tp.At(i).Type())
			}
		}
		return Value{p: z}
	case *strIter:
		n := strLen(it.s)
		if it.i >= n {
			return Value{p: Tuple{{}, {}, {}}}
		}
		pos := it.i
		b := strAt(it.s, pos)
		if b.p == nil && b.u < 0x80 {
			it.i++
			return Value{p: Tuple{{u: 1}, {u: uint64(pos)}, b}}
		}
		if t, ok := b.p.(*Term); ok {
			if x.branch(x.tb.Ult(t, x.tb.Const(8, 0x80))) {
				it.i++
				return Value{p: Tuple{{u: 1}, {u: uint64(pos)}, tv(x.tb.Zext(t, 32))}}
			}
		}
		f := x.p.pkgs["unicode/utf8"].Func("DecodeRuneInString")
		rv := x.callFn(x.p.fn(f), []Value{strSlice(it.s, pos, n)}, nil, nil).p.(Tuple)
		sz := x.toInt(rv[1], 64, true)
		it.i += int(sz)
		return Value{p: Tuple{{u: 1}, {u: uint64(pos)}, rv[0]}}
	}
	x.unsupported("next on %T", v.p)
	return Value{}
}

func (p *Program) implements(t, it *rtype) bool {
	k := [2]*rtype{t, it}
	p.implMu.RLock()
	r, ok := p.impl[k]
	p.implMu.RUnlock()
	if ok {
		return r
	}
	r = types.Implements(t.t, it.t.Underlying().(*types.Interface))
	p.implMu.Lock()
	p.impl[k] = r
	p.implMu.Unlock()
	return r
}
