package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the shared, immutable (lazily compiled) code.
type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package

	mu     sync.Mutex
	fns    map[*ssa.Function]*cfn
	glob   map[*ssa.Global]int
	globs  []*ssa.Global
	hasher typeutil.Map // types.Type -> *rtype
	rtypes []*rtype

	methMu sync.RWMutex
	meth   map[methKey]*cfn

	sizes      types.Sizes
	runtimeErr *rtype
	implMu     sync.RWMutex
	msMu       sync.Mutex
	impl       map[[2]*rtype]bool
}

type methKey struct {
	t *rtype
	m *types.Func
}

func newProgram(p *ssa.Program) *Program {
	pr := &Program{prog: p, fns: map[*ssa.Function]*cfn{}, glob: map[*ssa.Global]int{}, meth: map[methKey]*cfn{}, pkgs: map[string]*ssa.Package{}}
	for _, k := range p.AllPackages() {
		pr.pkgs[k.Pkg.Path()] = k
	}
	pr.impl = map[[2]*rtype]bool{}
	if rt := pr.pkgs["runtime"]; rt != nil {
		pr.runtimeErr = pr.rtype(rt.Type("errorString").Type())
	}
	pr.sizes = types.SizesFor("gc", "amd64")
	return pr
}

func (p *Program) rtype(t types.Type) *rtype {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.rtypeL(t)
}

func (p *Program) rtypeL(t types.Type) *rtype {
	t = types.Unalias(t)
	if r := p.hasher.At(t); r != nil {
		return r.(*rtype)
	}
	r := &rtype{t: t, id: len(p.rtypes)}
	p.rtypes = append(p.rtypes, r)
	p.hasher.Set(t, r)
	return r
}

func (p *Program) globalIdx(g *ssa.Global) int {
	if i, ok := p.glob[g]; ok {
		return i
	}
	i := len(p.globs)
	p.glob[g] = i
	p.globs = append(p.globs, g)
	return i
}

type opnd struct {
	k uint8 // 0 reg, 1 const, 2 global
	i int32
	v Value
}

type copcode uint8

const (
	cNop copcode = iota
	cAlloc
	cPhi
	cCall
	cBinOp
	cNot
	cNeg
	cCompl
	cLoad
	cRecv
	cChangeInterface
	cChangeType
	cConvert
	cMultiConvert
	cMakeInterface
	cMakeClosure
	cMakeMap
	cMakeChan
	cMakeSlice
	cSlice
	cFieldAddr
	cField
	cIndexAddr
	cIndex
	cLookup
	cSelect
	cRange
	cNext
	cTypeAssert
	cExtract
	cJump
	cIf
	cReturn
	cRunDefers
	cPanic
	cGo
	cDefer
	cSend
	cStore
	cMapUpdate
	cSliceToArrayPtr
)

type cinstr struct {
	op      copcode
	dst     int32
	ops     []opnd
	in      ssa.Instruction
	tok     token.Token
	w       uint8 // operand width (ints), 0 for bool
	sg      bool
	kind    uint8 // operand kind for BinOp etc.
	w2      uint8 // second width (shift count, convert dest)
	sg2     bool
	n       int
	t       types.Type
	t2      types.Type
	rt      *rtype
	heap    bool
	cm      bool // comma ok
	call    *ccall
	pos     token.Pos
	sel     []selCase
	regions []*region // for cIf: mergeable regions, best first
}

type ccall struct {
	invoke  bool
	method  *types.Func
	static  *cfn
	builtin *ssa.Builtin
	fn      opnd
	recv    opnd
	args    []opnd
	sig     *types.Signature
	pos     token.Pos
	argT    []types.Type
}

type cblock struct {
	idx   int
	code  []cinstr
	phis  []cphi
	succs []*cblock
	preds []*cblock
}

type cphi struct {
	dst  int32
	ops  []opnd
	w    uint8
	scal bool
	in   *ssa.Phi
	t    types.Type
}

type cfn struct {
	nsteps       int64 // debug, racy
	fn           *ssa.Function
	name         string
	blocks       []*cblock
	nregs        int
	nparams      int
	hasDefer     bool
	intrinsic    func(x *Exec, fr *frame, c *ccall, args []Value) Value
	native       func(x *Exec, args []Value) Value
	recover      *cblock
	once         sync.Once
	ok           bool
	track        bool
	hits         int64
	isInit       bool
	skipInitCall bool
}

// kinds for BinOp operands
const (
	kInt uint8 = iota
	kBool
	kString
	kFloat32
	kFloat64
	kOther
)

func (p *Program) fn(f *ssa.Function) *cfn {
	p.mu.Lock()
	c := p.fnL(f)
	p.mu.Unlock()
	return c
}

func (p *Program) fnL(f *ssa.Function) *cfn {
	if c, ok := p.fns[f]; ok {
		return c
	}
	c := &cfn{fn: f, name: f.String()}
	p.fns[f] = c
	name := c.name
	if o := f.Origin(); o != nil && o != f {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok {
		c.intrinsic = in
	}
	if f.Synthetic == "package initializer" || (f.Pkg != nil && f.Parent() == nil && len(f.Name()) > 5 && f.Name()[:5] == "init#") {
		c.isInit = true
	}
	if f.Pkg != nil {
		c.track = trackPkg(f.Pkg.Pkg.Path())
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		c.track = trackPkg(o.Pkg.Pkg.Path())
	}
	return c
}

func (c *cfn) compile(p *Program) {
	c.once.Do(func() {
		p.mu.Lock()
		defer p.mu.Unlock()
		c.doCompile(p)
	})
}

func kindOf(t types.Type) (k, w uint8, sg bool) {
	if w, sg, ok := bitsOf(t); ok {
		if w == 0 {
			return kBool, 0, false
		}
		return kInt, w, sg
	}
	if fw, ok := isFloat(t); ok {
		if fw == 32 {
			return kFloat32, 32, true
		}
		return kFloat64, 64, true
	}
	if isString(t) {
		return kString, 0, false
	}
	return kOther, 0, false
}

func (p *Program) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return Value{} // nil or zero; aggregates handled by the caller
	}
	if tp, ok := t.Underlying().(*types.Basic); ok {
		if tp.Info()&types.IsString != 0 {
			if c.Value.Kind() == constant.String {
				return strV(constant.StringVal(c.Value))
			}
			i, _ := constant.Int64Val(c.Value)
			return strV(string(rune(i)))
		}
		if tp.Info()&types.IsBoolean != 0 {
			return boolV(constant.BoolVal(c.Value))
		}
		if tp.Info()&types.IsInteger != 0 {
			w, _, _ := bitsOf(t)
			v := constant.ToInt(c.Value)
			if u, ok := constant.Uint64Val(v); ok {
				return Value{u: u & mask(w)}
			}
			i, _ := constant.Int64Val(v)
			return Value{u: uint64(i) & mask(w)}
		}
		if tp.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			if tp.Kind() == types.Float32 {
				return Value{u: uint64(math.Float32bits(float32(f)))}
			}
			return fbits(f)
		}
		if tp.Kind() == types.UnsafePointer {
			return Value{}
		}
	}
	return Value{}
}

func (c *cfn) doCompile(p *Program) {
	f := c.fn
	if f.Blocks == nil {
		return
	}
	c.ok = true
	regs := map[ssa.Value]int32{}
	alloc := func(v ssa.Value) int32 {
		i := int32(c.nregs)
		c.nregs++
		regs[v] = i
		return i
	}
	for _, q := range f.Params {
		alloc(q)
	}
	c.nparams = len(f.Params)
	for _, q := range f.FreeVars {
		alloc(q)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				c.hasDefer = true
			}
		}
	}
	op := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil && isAgg(v.Type()) {
				return opnd{k: 3, v: Value{p: v.Type()}}
			}
			return opnd{k: 1, v: p.constVal(v)}
		case *ssa.Global:
			return opnd{k: 2, i: int32(p.globalIdx(v))}
		case *ssa.Function:
			return opnd{k: 1, v: Value{p: &Closure{fn: p.fnL(v)}}}
		case *ssa.Builtin:
			return opnd{k: 1, v: Value{p: v}}
		}
		i, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %s in %s", v, f))
		}
		return opnd{k: 0, i: i}
	}
	c.blocks = make([]*cblock, len(f.Blocks))
	for i := range f.Blocks {
		c.blocks[i] = &cblock{idx: i}
	}
	for i, b := range f.Blocks {
		cb := c.blocks[i]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, c.blocks[s.Index])
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, c.blocks[s.Index])
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				k, w, _ := kindOf(ph.Type())
				cp := cphi{dst: regs[ph], in: ph, t: ph.Type(), w: w, scal: k == kInt || k == kBool}
				for _, e := range ph.Edges {
					cp.ops = append(cp.ops, op(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1, pos: in.Pos()}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			p.compileInstr(&ci, in, op)
			cb.code = append(cb.code, ci)
		}
	}
	if f.Recover != nil {
		c.recover = c.blocks[f.Recover.Index]
	}
	c.findRegions()
}

func (p *Program) compileCall(cc *ssa.CallCommon, op func(ssa.Value) opnd, pos token.Pos) *ccall {
	c := &ccall{sig: cc.Signature(), pos: pos}
	for _, a := range cc.Args {
		c.args = append(c.args, op(a))
		c.argT = append(c.argT, a.Type())
	}
	if cc.IsInvoke() {
		c.invoke = true
		c.method = cc.Method
		c.recv = op(cc.Value)
		return c
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		c.builtin = b
		return c
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		c.static = p.fnL(f)
		return c
	}
	c.fn = op(cc.Value)
	return c
}

func (p *Program) compileInstr(ci *cinstr, in ssa.Instruction, op func(ssa.Value) opnd) {
	add := func(vs ...ssa.Value) {
		for _, v := range vs {
			ci.ops = append(ci.ops, op(v))
		}
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		ci.op = cAlloc
		ci.t = in.Type().Underlying().(*types.Pointer).Elem()
		ci.heap = in.Heap
	case *ssa.Call:
		ci.op = cCall
		ci.call = p.compileCall(&in.Call, op, in.Pos())
		ci.t = in.Type()
	case *ssa.Go:
		ci.op = cGo
		ci.call = p.compileCall(&in.Call, op, in.Pos())
	case *ssa.Defer:
		ci.op = cDefer
		ci.call = p.compileCall(&in.Call, op, in.Pos())
		if in.DeferStack != nil {
			add(in.DeferStack)
		}
	case *ssa.BinOp:
		ci.op = cBinOp
		ci.tok = in.Op
		add(in.X, in.Y)
		ci.kind, ci.w, ci.sg = kindOf(in.X.Type())
		ci.t = in.X.Type()
		ci.t2 = in.Y.Type()
		if in.Op == token.SHL || in.Op == token.SHR {
			_, ci.w2, ci.sg2 = kindOf(in.Y.Type())
		}
	case *ssa.UnOp:
		add(in.X)
		switch in.Op {
		case token.MUL:
			ci.op = cLoad
			ci.t = in.Type()
			_, ci.w, _ = kindOf(in.Type())
		case token.NOT:
			ci.op = cNot
		case token.SUB:
			ci.op = cNeg
			ci.kind, ci.w, ci.sg = kindOf(in.X.Type())
		case token.XOR:
			ci.op = cCompl
			ci.kind, ci.w, ci.sg = kindOf(in.X.Type())
		case token.ARROW:
			ci.op = cRecv
			ci.cm = in.CommaOk
			ci.t = in.X.Type().Underlying().(*types.Chan).Elem()
		}
	case *ssa.ChangeInterface:
		ci.op = cChangeInterface
		add(in.X)
	case *ssa.ChangeType:
		ci.op = cChangeType
		add(in.X)
	case *ssa.Convert:
		ci.op = cConvert
		add(in.X)
		ci.t, ci.t2 = in.X.Type(), in.Type()
	case *ssa.MultiConvert:
		ci.op = cConvert
		add(in.X)
		ci.t, ci.t2 = in.X.Type(), in.Type()
	case *ssa.SliceToArrayPointer:
		ci.op = cSliceToArrayPtr
		add(in.X)
		ci.n = int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case *ssa.MakeInterface:
		ci.op = cMakeInterface
		add(in.X)
		ci.rt = p.rtypeL(in.X.Type())
	case *ssa.MakeClosure:
		ci.op = cMakeClosure
		ci.ops = append(ci.ops, op(in.Fn))
		add(in.Bindings...)
	case *ssa.MakeMap:
		ci.op = cMakeMap
	case *ssa.MakeChan:
		ci.op = cMakeChan
		add(in.Size)
	case *ssa.MakeSlice:
		ci.op = cMakeSlice
		add(in.Len, in.Cap)
		ci.t = in.Type().Underlying().(*types.Slice).Elem()
		_, ci.w, ci.sg = kindOf(in.Len.Type())
		_, ci.w2, ci.sg2 = kindOf(in.Cap.Type())
		ci.n = int(p.sizes.Sizeof(ci.t))
	case *ssa.Slice:
		ci.op = cSlice
		add(in.X)
		for _, v := range []ssa.Value{in.Low, in.High, in.Max} {
			if v != nil {
				ci.ops = append(ci.ops, op(v))
			} else {
				ci.ops = append(ci.ops, opnd{k: 9})
			}
		}
		ci.t = in.X.Type()
	case *ssa.FieldAddr:
		ci.op = cFieldAddr
		add(in.X)
		ci.n = in.Field
	case *ssa.Field:
		ci.op = cField
		add(in.X)
		ci.n = in.Field
	case *ssa.IndexAddr:
		ci.op = cIndexAddr
		add(in.X, in.Index)
		_, ci.w, ci.sg = kindOf(in.Index.Type())
		ci.t = in.Type().Underlying().(*types.Pointer).Elem()
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			ci.n = int(pt.Elem().Underlying().(*types.Array).Len())
			ci.cm = true // array pointer
		}
	case *ssa.Index:
		ci.op = cIndex
		add(in.X, in.Index)
		_, ci.w, ci.sg = kindOf(in.Index.Type())
		ci.t = in.X.Type()
		ci.t2 = in.Type()
	case *ssa.Lookup:
		ci.op = cLookup
		add(in.X, in.Index)
		ci.cm = in.CommaOk
		ci.t = in.X.Type()
		ci.t2 = in.Index.Type()
		_, ci.w, ci.sg = kindOf(in.Index.Type())
	case *ssa.Select:
		ci.op = cSelect
		ci.cm = in.Blocking
		for _, st := range in.States {
			sc := selCase{ch: len(ci.ops), send: -1}
			add(st.Chan)
			if st.Dir == types.SendOnly {
				sc.send = len(ci.ops)
				add(st.Send)
			} else {
				sc.t = st.Chan.Type().Underlying().(*types.Chan).Elem()
			}
			ci.sel = append(ci.sel, sc)
		}
	case *ssa.Range:
		ci.op = cRange
		add(in.X)
		ci.t = in.X.Type()
	case *ssa.Next:
		ci.op = cNext
		add(in.Iter)
		ci.cm = in.IsString
		ci.t = in.Type()
	case *ssa.TypeAssert:
		ci.op = cTypeAssert
		add(in.X)
		ci.cm = in.CommaOk
		ci.rt = p.rtypeL(in.AssertedType)
		ci.t = in.AssertedType
	case *ssa.Extract:
		ci.op = cExtract
		add(in.Tuple)
		ci.n = in.Index
	case *ssa.Jump:
		ci.op = cJump
	case *ssa.If:
		ci.op = cIf
		add(in.Cond)
	case *ssa.Return:
		ci.op = cReturn
		add(in.Results...)
	case *ssa.RunDefers:
		ci.op = cRunDefers
	case *ssa.Panic:
		ci.op = cPanic
		add(in.X)
	case *ssa.Send:
		ci.op = cSend
		add(in.Chan, in.X)
	case *ssa.Store:
		ci.op = cStore
		add(in.Addr, in.Val)
		_, ci.w, _ = kindOf(in.Val.Type())
		ci.t = in.Val.Type()
	case *ssa.MapUpdate:
		ci.op = cMapUpdate
		add(in.Map, in.Key, in.Value)
		ci.t = in.Map.Type().Underlying().(*types.Map).Key()
	default:
		panic(fmt.Sprintf("unsupported instruction %T", in))
	}
}

// method finds the implementation of m for concrete type t.
func (p *Program) method(t *rtype, m *types.Func) *cfn {
	k := methKey{t, m}
	p.methMu.RLock()
	c := p.meth[k]
	p.methMu.RUnlock()
	if c != nil {
		return c
	}
	f := p.prog.LookupMethod(t.t, m.Pkg(), m.Name())
	if f == nil {
		return nil
	}
	c = p.fn(f)
	p.methMu.Lock()
	p.meth[k] = c
	p.methMu.Unlock()
	return c
}

func trackPkg(p string) bool {
	return (p == modPath || strings.HasPrefix(p, modPath+"/")) && !strings.Contains(p, "/zzverif")
}

const modPath = "github.com/bodgit/sevenzip"
