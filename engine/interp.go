package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type operand struct {
	kind uint8 // 0 reg, 1 const value
	idx  int
	val  Value
}

type cinstr struct {
	ins ssa.Instruction
	dst int
	ops []operand
	typ types.Type // result / operand type
	aux any
}

type cfunc struct {
	fn      *ssa.Function
	nregs   int
	blocks  [][]cinstr
	params  []int
	free    []int
	hasDfr  bool
	intr    intrinsic
	hasIntr bool
	name    string
}

type trailEnt struct {
	p   *Value
	old Value
	f   func()
}

type intrinsic func(in *Interp, fr *frame, args []Value) Value

type frame struct {
	cf        *cfunc
	regs      []Value
	caller    *frame
	defers    []deferred
	result    Value
	panicking bool
	panic     any
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
}

type deferred struct {
	fn   Value
	args []Value
}

type Interp struct {
	prog     *Program
	globals  map[*ssa.Global]*Value
	funcs    map[*ssa.Function]*cfunc
	trail    []trailEnt
	trailOn  bool
	steps    int64
	maxSteps int64
	path     *Path
	methodC  map[methKey]*ssa.Function
	implC    map[implKey]bool
	inited   map[*ssa.Package]bool
	depth    int
	used     map[string]bool // repo functions executed under symbolic exploration
	fldMode  bool
	syncOnce map[*Value]bool
	locks    map[*Value]int
}

type methKey struct {
	t    int
	name string
}
type implKey struct{ a, b types.Type }

func (in *Interp) store(addr *Value, v Value) {
	if addr == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch nv := v.(type) {
	case Struct:
		if ov, ok := (*addr).(Struct); ok && len(ov) == len(nv) {
			for i := range nv {
				in.store(&ov[i], nv[i])
			}
			return
		}
		v = copyVal(v)
	case Array:
		if ov, ok := (*addr).(Array); ok && len(ov) == len(nv) {
			for i := range nv {
				in.store(&ov[i], nv[i])
			}
			return
		}
		v = copyVal(v)
	}
	in.set(addr, v)
}

func (in *Interp) set(addr *Value, v Value) {
	if in.trailOn {
		in.trail = append(in.trail, trailEnt{p: addr, old: *addr})
	}
	*addr = v
}

func (in *Interp) undoLog(f func()) {
	if in.trailOn {
		in.trail = append(in.trail, trailEnt{f: f})
	}
}

func (in *Interp) undoAll() {
	for i := len(in.trail) - 1; i >= 0; i-- {
		e := &in.trail[i]
		if e.f != nil {
			e.f()
		} else {
			*e.p = e.old
		}
	}
	in.trail = in.trail[:0]
}

func (in *Interp) load(addr *Value) Value {
	if addr == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	return copyVal(*addr)
}

func (in *Interp) rtPanic(msg string) {
	panic(targetPanic{in.mkError("runtime error: " + msg)})
}

// mkError builds an *errors.errorString interface value.
func (in *Interp) mkError(msg string) Value {
	var cell Value = Struct{msg}
	return Iface{t: in.prog.errStringPtr, v: &cell}
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(t)
			if signed {
				x, _ := constant.Int64Val(constant.ToInt(c.Value))
				return uint64(x) & mask(w)
			}
			x, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return x & mask(w)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			x, _ := constant.Int64Val(c.Value)
			return string(rune(x))
		case b.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	}
	// type parameter constants and the like
	unsup("const %v of type %v", c, t)
	return nil
}

func (in *Interp) compile(fn *ssa.Function) *cfunc {
	if cf, ok := in.funcs[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	cf.name = name
	in.funcs[fn] = cf
	if f, ok := in.findIntrinsic(name, fn); ok {
		cf.intr, cf.hasIntr = f, true
		return cf
	}
	if fn.Blocks == nil {
		return cf
	}
	reg := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) int { reg[v] = n; n++; return n - 1 }
	for _, p := range fn.Params {
		cf.params = append(cf.params, add(p))
	}
	for _, p := range fn.FreeVars {
		cf.free = append(cf.free, add(p))
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
			if _, ok := ins.(*ssa.Defer); ok {
				cf.hasDfr = true
			}
		}
	}
	if fn.Recover != nil {
		cf.hasDfr = true
	}
	mkop := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{kind: 1, val: nil}
		case *ssa.Const:
			return operand{kind: 1, val: in.constVal(v)}
		case *ssa.Global:
			return operand{kind: 1, val: in.global(v)}
		case *ssa.Function:
			return operand{kind: 1, val: v}
		case *ssa.Builtin:
			return operand{kind: 1, val: v}
		}
		i, ok := reg[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v %T in %s", v, v, fn))
		}
		return operand{kind: 0, idx: i}
	}
	cf.blocks = make([][]cinstr, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			for _, o := range ins.Operands(nil) {
				if o == nil {
					ci.ops = append(ci.ops, operand{kind: 1})
					continue
				}
				ci.ops = append(ci.ops, mkop(*o))
			}
			switch x := ins.(type) {
			case *ssa.BinOp:
				ci.typ = x.X.Type()
			case *ssa.UnOp:
				ci.typ = x.X.Type()
			case *ssa.Alloc:
				ci.typ = x.Type().Underlying().(*types.Pointer).Elem()
			}
			cf.blocks[bi] = append(cf.blocks[bi], ci)
		}
	}
	cf.nregs = n
	return cf
}

func (in *Interp) global(g *ssa.Global) *Value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	v := zero(g.Type().Underlying().(*types.Pointer).Elem())
	p := &v
	in.globals[g] = p
	return p
}

// initPackage runs the initialiser of pkg (dependencies first) concretely.
func (in *Interp) initPackage(pkg *ssa.Package) {
	if in.inited[pkg] {
		return
	}
	in.inited[pkg] = true
	if f := pkg.Func("init"); f != nil {
		in.call(f, nil, nil)
	}
}

func (in *Interp) callValue(fv Value, args []Value, caller *frame) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.call(f, args, caller)
	case *Closure:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.callEnv(f.fn, args, f.env, caller)
	case *nativeFn:
		return f.f(in, args)
	case *ssa.Builtin:
		return in.builtin(f, args, nil, caller)
	}
	unsup("call of %T", fv)
	return nil
}

func (in *Interp) call(fn *ssa.Function, args []Value, caller *frame) Value {
	return in.callEnv(fn, args, nil, caller)
}

func (in *Interp) callEnv(fn *ssa.Function, args []Value, env []Value, caller *frame) Value {
	cf := in.compile(fn)
	if cf.hasIntr {
		return cf.intr(in, caller, args)
	}
	if p := in.path; p != nil && p.h != nil && p.h.repl != nil && p.concrete == nil {
		if r := p.h.repl[cf.name]; r != nil && (caller == nil || caller.cf.fn != r) {
			p.h.noteRepl(cf.name)
			p.ghostSeq++
			return in.callEnv(r, args, nil, caller)
		}
	}
	if cf.blocks == nil {
		unsup("no body for %s", cf.name)
	}
	// package initialisers are only run for supported packages
	if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic == "package initializer" {
		if !in.prog.runsInit(fn.Pkg.Pkg.Path()) {
			return nil
		}
		in.inited[fn.Pkg] = true
	} else if fn.Pkg != nil && fn.Synthetic == "" {
		p := fn.Pkg.Pkg.Path()
		if !in.prog.mayInterpret(p) {
			unsup("function %s is outside the interpreted packages", cf.name)
		}
	}
	in.depth++
	if in.depth > 4000 {
		unsup("call depth")
	}
	defer func() { in.depth-- }()
	if in.trailOn && !in.used[cf.name] && in.prog.isRepo(fn) {
		in.used[cf.name] = true
	}
	fr := &frame{cf: cf, regs: make([]Value, cf.nregs), caller: caller}
	for i, p := range cf.params {
		fr.regs[p] = args[i]
	}
	for i, p := range cf.free {
		fr.regs[p] = env[i]
	}
	fr.block = fn.Blocks[0]
	if !cf.hasDfr {
		in.runBlocks(fr)
		return fr.result
	}
	for fr.block != nil {
		in.runFrame(fr)
	}
	return fr.result
}

func (in *Interp) runFrame(fr *frame) {
	depth := in.depth
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		in.depth = depth
		switch r := r.(type) {
		case targetPanic:
			fr.panicking = true
			fr.panic = r
		default:
			panic(r) // engine-level control flow
		}
		in.runDefers(fr)
		fr.block = fr.cf.fn.Recover
		if fr.block == nil {
			// recovered in a function without named results
			fr.result = in.zeroResult(fr.cf.fn)
		}
	}()
	in.runBlocks(fr)
}

func (in *Interp) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			depth := in.depth
			defer func() {
				if !ok {
					r := recover()
					in.depth = depth
					if tp, is := r.(targetPanic); is {
						fr.panicking = true
						fr.panic = tp
						return
					}
					panic(r)
				}
			}()
			in.callValue(d.fn, d.args, fr)
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (in *Interp) get(fr *frame, o *operand) Value {
	if o.kind == 0 {
		return fr.regs[o.idx]
	}
	return o.val
}

func (in *Interp) runBlocks(fr *frame) {
	for {
		blk := fr.block
		code := fr.cf.blocks[blk.Index]
		// phis first (parallel assignment)
		i := 0
		if len(code) > 0 {
			if _, ok := code[0].ins.(*ssa.Phi); ok {
				pi := -1
				for k, p := range blk.Preds {
					if p == fr.prev {
						pi = k
						break
					}
				}
				var tmp [8]Value
				vals := tmp[:0]
				n := 0
				for n < len(code) {
					if _, ok := code[n].ins.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, in.get(fr, &code[n].ops[pi]))
					n++
				}
				for k := 0; k < n; k++ {
					fr.regs[code[k].dst] = vals[k]
				}
				i = n
			}
		}
		if p := in.path; p != nil && p.h != nil && p.h.cuts != nil && p.concrete == nil && len(blk.Preds) > 1 {
			if c := p.h.cuts[fr.cf.name]; c != nil && isLoopHead(blk) {
				in.cutLoop(fr, blk, c)
			}
		}
		next := (*ssa.BasicBlock)(nil)
		for ; i < len(code); i++ {
			ci := &code[i]
			in.steps++
			if in.steps > in.maxSteps {
				panic(pathAbort{"step limit"})
			}
			switch ins := ci.ins.(type) {
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.If:
				c := in.get(fr, &ci.ops[0])
				if in.cond(c) {
					next = blk.Succs[0]
				} else {
					next = blk.Succs[1]
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = in.get(fr, &ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = in.get(fr, &ci.ops[k])
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Panic:
				v := in.get(fr, &ci.ops[0])
				panic(targetPanic{v})
			case *ssa.RunDefers:
				in.runDefers(fr)
			default:
				in.exec(fr, ci, ins)
			}
		}
		if next == nil {
			panic("block without terminator in " + fr.cf.name)
		}
		fr.prev = blk
		fr.block = next
	}
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// cutLoop calls the contract of a loop. A parameter of type *T is bound to a local variable of type T
// (in memory, or carried by a phi of the loop head): one of the same name if there is one, else - for
// variables in memory - the next one of that type. Other parameters are bound to parameters of the
// function of the same name and type.
func (in *Interp) cutLoop(fr *frame, blk *ssa.BasicBlock, c *ssa.Function) {
	var args []Value
	used := map[ssa.Value]bool{}
	type back struct {
		dst int
		p   *Value
	}
	var backs []back
	elem := func(t types.Type) types.Type {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return pt.Elem().Underlying()
		}
		return nil
	}
	find := func(prm *ssa.Parameter) bool {
		pe := elem(prm.Type())
		for pass := 0; pass < 2; pass++ { // by name, then by type
			if pe != nil {
				for bi := range fr.cf.fn.Blocks {
					for _, ci := range fr.cf.blocks[bi] {
						al, ok := ci.ins.(*ssa.Alloc)
						if !ok || used[al] || !types.Identical(elem(al.Type()), pe) || pass == 0 && al.Comment != prm.Name() {
							continue
						}
						if pv, ok := fr.regs[ci.dst].(*Value); ok && pv != nil {
							used[al] = true
							args = append(args, pv)
							return true
						}
					}
				}
			}
			if pass == 1 {
				break
			}
			if pe != nil {
				for _, ci := range fr.cf.blocks[blk.Index] {
					ph, ok := ci.ins.(*ssa.Phi)
					if !ok {
						break
					}
					if used[ph] || ph.Comment != prm.Name() || !types.Identical(ph.Type().Underlying(), pe) {
						continue
					}
					used[ph] = true
					v := fr.regs[ci.dst]
					pv := &v
					backs = append(backs, back{ci.dst, pv})
					args = append(args, pv)
					return true
				}
			}
			for k, fp := range fr.cf.fn.Params {
				if fp.Name() == prm.Name() && types.Identical(fp.Type(), prm.Type()) {
					args = append(args, fr.regs[fr.cf.params[k]])
					return true
				}
			}
		}
		return false
	}
	for _, prm := range c.Params {
		if !find(prm) {
			return // the loop is written differently: no abstraction
		}
	}
	in.path.ghostSeq++
	in.path.h.noteRepl("loop in " + fr.cf.name)
	in.call(c, args, fr)
	for _, b := range backs {
		fr.regs[b.dst] = *b.p
	}
}

// cond decides a boolean value, forking when symbolic.
func (in *Interp) cond(v Value) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *Term:
		return in.path.branch(b)
	}
	unsup("cond %T", v)
	return false
}

func (in *Interp) exec(fr *frame, ci *cinstr, ii ssa.Instruction) {
	switch ins := ii.(type) {
	case *ssa.Alloc:
		v := zero(ci.typ)
		fr.regs[ci.dst] = &v
	case *ssa.BinOp:
		fr.regs[ci.dst] = in.binop(ins.Op, ci.typ, in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]), ins.Y.Type())
	case *ssa.UnOp:
		x := in.get(fr, &ci.ops[0])
		switch ins.Op {
		case token.MUL:
			p, ok := x.(*Value)
			if !ok {
				unsup("load through %T", x)
			}
			fr.regs[ci.dst] = in.load(p)
		case token.NOT:
			switch b := x.(type) {
			case bool:
				fr.regs[ci.dst] = !b
			case *Term:
				fr.regs[ci.dst] = in.unwrapBool(in.path.c.not(b))
			}
		case token.SUB:
			if f, ok := x.(float64); ok {
				fr.regs[ci.dst] = -f
				return
			}
			w, _, _ := intInfo(ci.typ)
			if u, ok := x.(uint64); ok {
				fr.regs[ci.dst] = (-u) & mask(w)
			} else {
				fr.regs[ci.dst] = in.path.c.op(OSub, SBV, w, in.path.c.bv(w, 0), x.(*Term))
			}
		case token.XOR:
			w, _, _ := intInfo(ci.typ)
			if u, ok := x.(uint64); ok {
				fr.regs[ci.dst] = (^u) & mask(w)
			} else {
				fr.regs[ci.dst] = in.path.c.op(ONot, SBV, w, x.(*Term))
			}
		default:
			unsup("unop %v", ins.Op)
		}
	case *ssa.Call:
		fr.regs[ci.dst] = in.doCall(fr, ci, &ins.Call)
	case *ssa.Defer:
		fn, args := in.prepCall(fr, ci, &ins.Call)
		fr.defers = append(fr.defers, deferred{fn, args})
	case *ssa.Store:
		p, ok := in.get(fr, &ci.ops[0]).(*Value)
		if !ok {
			unsup("store through %T", in.get(fr, &ci.ops[0]))
		}
		in.store(p, in.get(fr, &ci.ops[1]))
	case *ssa.FieldAddr:
		p := in.get(fr, &ci.ops[0]).(*Value)
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			unsup("fieldaddr on %T in %s", *p, fr.cf.name)
		}
		fr.regs[ci.dst] = &s[ins.Field]
	case *ssa.Field:
		s, ok := in.get(fr, &ci.ops[0]).(Struct)
		if !ok {
			unsup("field of %T in %s", in.get(fr, &ci.ops[0]), fr.cf.name)
		}
		fr.regs[ci.dst] = copyVal(s[ins.Field])
	case *ssa.IndexAddr:
		x := in.get(fr, &ci.ops[0])
		idx := in.get(fr, &ci.ops[1])
		var arr []Value
		switch a := x.(type) {
		case Slice:
			arr = a
		case *Value:
			if a == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			arr = (*a).(Array)
		default:
			unsup("indexaddr %T", x)
		}
		i := in.index(idx, len(arr), ins.Index.Type())
		fr.regs[ci.dst] = &arr[i]
	case *ssa.Index:
		x := in.get(fr, &ci.ops[0])
		idx := in.get(fr, &ci.ops[1])
		switch a := x.(type) {
		case Array:
			fr.regs[ci.dst] = copyVal(a[in.index(idx, len(a), ins.Index.Type())])
		case string:
			fr.regs[ci.dst] = uint64(a[in.index(idx, len(a), ins.Index.Type())])
		case *SymStr:
			fr.regs[ci.dst] = a.b[in.index(idx, len(a.b), ins.Index.Type())]
		default:
			unsup("index %T", x)
		}
	case *ssa.Lookup:
		x := in.get(fr, &ci.ops[0])
		k := in.get(fr, &ci.ops[1])
		switch m := x.(type) {
		case string:
			fr.regs[ci.dst] = uint64(m[in.index(k, len(m), ins.Index.Type())])
		case *SymStr:
			fr.regs[ci.dst] = m.b[in.index(k, len(m.b), ins.Index.Type())]
		case *MapV:
			var v Value
			found := false
			if m != nil {
				if e := in.mapFind(m, k); e >= 0 {
					v, found = copyVal(m.ents[e].v), true
				}
			}
			if !found {
				v = zero(ins.X.Type().Underlying().(*types.Map).Elem())
			}
			if ins.CommaOk {
				fr.regs[ci.dst] = Tuple{v, found}
			} else {
				fr.regs[ci.dst] = v
			}
		default:
			unsup("lookup %T", x)
		}
	case *ssa.MapUpdate:
		m := in.get(fr, &ci.ops[0]).(*MapV)
		if m == nil {
			panic(targetPanic{in.mkError("assignment to entry in nil map")})
		}
		in.mapSet(m, in.get(fr, &ci.ops[1]), in.get(fr, &ci.ops[2]))
	case *ssa.MakeMap:
		mt := ins.Type().Underlying().(*types.Map)
		fr.regs[ci.dst] = &MapV{kt: mt.Key(), vt: mt.Elem(), idx: map[string]int{}}
	case *ssa.MakeSlice:
		n := in.intArg(in.get(fr, &ci.ops[0]), "makeslice: len out of range")
		c := in.intArg(in.get(fr, &ci.ops[1]), "makeslice: cap out of range")
		if n < 0 || n > 1<<24 {
			in.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			in.rtPanic("makeslice: cap out of range")
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		for i := range s {
			s[i] = zero(et)
		}
		fr.regs[ci.dst] = s[:n]
	case *ssa.MakeClosure:
		c := &Closure{fn: ins.Fn.(*ssa.Function)}
		for k := 1; k < len(ci.ops); k++ {
			c.env = append(c.env, in.get(fr, &ci.ops[k]))
		}
		fr.regs[ci.dst] = c
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{t: ins.X.Type(), v: in.get(fr, &ci.ops[0])}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = in.get(fr, &ci.ops[0])
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = in.convert(ins.Type(), ins.X.Type(), in.get(fr, &ci.ops[0]))
	case *ssa.Convert:
		fr.regs[ci.dst] = in.convert(ins.Type(), ins.X.Type(), in.get(fr, &ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, &ci.ops[0]).(Slice)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			in.rtPanic("cannot convert slice to array pointer: length too short")
		}
		if s == nil {
			fr.regs[ci.dst] = (*Value)(nil)
			return
		}
		var v Value = Array(s[:n:n])
		fr.regs[ci.dst] = &v
	case *ssa.Slice:
		fr.regs[ci.dst] = in.slice(fr, ci, ins)
	case *ssa.Extract:
		fr.regs[ci.dst] = in.get(fr, &ci.ops[0]).(Tuple)[ins.Index]
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = in.typeAssert(ins, in.get(fr, &ci.ops[0]).(Iface))
	case *ssa.Range:
		switch x := in.get(fr, &ci.ops[0]).(type) {
		case *MapV:
			fr.regs[ci.dst] = &mapIter{m: x}
		default:
			fr.regs[ci.dst] = &strIter{b: strBytes(x)}
		}
	case *ssa.Next:
		switch it := in.get(fr, &ci.ops[0]).(type) {
		case *mapIter:
			if it.m != nil {
				for it.i < len(it.m.ents) && it.m.ents[it.i].dead {
					it.i++
				}
			}
			if it.m == nil || it.i >= len(it.m.ents) {
				var kz, vz Value
				tt := ins.Type().(*types.Tuple)
				if basicOf(tt.At(1).Type()) == nil || basicOf(tt.At(1).Type()).Kind() != types.Invalid {
					kz = zero(tt.At(1).Type())
				}
				if basicOf(tt.At(2).Type()) == nil || basicOf(tt.At(2).Type()).Kind() != types.Invalid {
					vz = zero(tt.At(2).Type())
				}
				fr.regs[ci.dst] = Tuple{false, kz, vz}
				return
			}
			e := it.m.ents[it.i]
			it.i++
			fr.regs[ci.dst] = Tuple{true, e.k, copyVal(e.v)}
		case *strIter:
			if it.i >= len(it.b) {
				fr.regs[ci.dst] = Tuple{false, uint64(0), uint64(0)}
				return
			}
			pos := it.i
			r, n := in.decodeRune(it.b[it.i:])
			it.i += n
			fr.regs[ci.dst] = Tuple{true, uint64(pos), r}
		}
	case *ssa.DebugRef:
	case *ssa.Go:
		unsup("go statement")
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		unsup("channels")
	default:
		unsup("instruction %T", ii)
	}
}

// intArg turns an integer value into a concrete int (forking over its values when symbolic).
func (in *Interp) intArg(v Value, why string) int {
	switch u := v.(type) {
	case uint64:
		return int(int64(u))
	case *Term:
		return int(int64(in.path.concretize(u)))
	}
	unsup("intArg %T", v)
	return 0
}

func (in *Interp) index(idx Value, n int, t types.Type) int {
	w, signed, _ := intInfo(t)
	switch u := idx.(type) {
	case uint64:
		x := int64(u)
		if signed {
			x = sx(u, w)
		}
		if x < 0 || x >= int64(n) || (!signed && u >= uint64(n)) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	case *Term:
		c := in.path.c
		var inb *Term
		if w < 64 && uint64(n) > mask(w) {
			inb = c.bool(true)
		} else {
			inb = c.op(OUlt, SBool, 0, u, c.bv(w, uint64(n)))
		}
		if !in.cond(in.unwrapBool(inb)) {
			in.rtPanic("index out of range")
		}
		return int(in.path.concretize(u))
	}
	unsup("index %T", idx)
	return 0
}

func (in *Interp) unwrapBool(t *Term) Value {
	if t.isConst() {
		return t.u != 0
	}
	return t
}
func (in *Interp) unwrapBV(t *Term) Value {
	if t.isConst() {
		return t.u
	}
	return t
}

func (in *Interp) toTerm(v Value, w int) *Term {
	switch x := v.(type) {
	case uint64:
		return in.path.c.bv(w, x)
	case *Term:
		return x
	}
	unsup("toTerm %T", v)
	return nil
}

func (in *Interp) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return in.path.c.bool(x)
	case *Term:
		return x
	}
	unsup("boolTerm %T", v)
	return nil
}

func (in *Interp) bv(op Op, w int, args ...Value) Value {
	allc := true
	for _, a := range args {
		if _, ok := a.(uint64); !ok {
			allc = false
			break
		}
	}
	if allc {
		v := make([]uint64, len(args))
		for i, a := range args {
			v[i] = a.(uint64)
		}
		r, ok := evalBV(op, w, w, v)
		if ok {
			return r
		}
	}
	ts := make([]*Term, len(args))
	for i, a := range args {
		ts[i] = in.toTerm(a, w)
	}
	return in.unwrapBV(in.path.c.op(op, SBV, w, ts...))
}

func (in *Interp) cmp(op Op, w int, a, b Value) Value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		r, _ := evalBV(op, 0, w, []uint64{x, y})
		return r != 0
	}
	return in.unwrapBool(in.path.c.op(op, SBool, 0, in.toTerm(a, w), in.toTerm(b, w)))
}

func (in *Interp) notV(v Value) Value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Term:
		return in.unwrapBool(in.path.c.not(x))
	}
	unsup("notV %T", v)
	return nil
}

func (in *Interp) andV(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return in.unwrapBool(in.path.c.and(a.(*Term), b.(*Term)))
}

func (in *Interp) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isSym(x) && isSym(y) {
			x, y = in.forceBitLen(x), in.forceBitLen(y)
		}
	default:
		x, y = in.forceBitLen(x), in.forceBitLen(y)
	}
	switch op {
	case token.EQL:
		return in.eql(t, x, y)
	case token.NEQ:
		return in.notV(in.eql(t, x, y))
	}
	if w, signed, ok := intInfo(t); ok {
		if xu, ok := x.(uint64); ok {
			if yu, ok := y.(uint64); ok {
				m := mask(w)
				switch op {
				case token.ADD:
					return (xu + yu) & m
				case token.SUB:
					return (xu - yu) & m
				case token.MUL:
					return (xu * yu) & m
				case token.AND:
					return xu & yu
				case token.OR:
					return xu | yu
				case token.XOR:
					return xu ^ yu
				case token.AND_NOT:
					return xu &^ yu
				case token.LSS:
					if signed {
						return sx(xu, w) < sx(yu, w)
					}
					return xu < yu
				case token.LEQ:
					if signed {
						return sx(xu, w) <= sx(yu, w)
					}
					return xu <= yu
				case token.GTR:
					if signed {
						return sx(xu, w) > sx(yu, w)
					}
					return xu > yu
				case token.GEQ:
					if signed {
						return sx(xu, w) >= sx(yu, w)
					}
					return xu >= yu
				}
			}
		}
		switch op {
		case token.ADD:
			return in.bv(OAdd, w, x, y)
		case token.SUB:
			return in.bv(OSub, w, x, y)
		case token.MUL:
			return in.bv(OMul, w, x, y)
		case token.AND:
			return in.bv(OAnd, w, x, y)
		case token.OR:
			return in.bv(OOr, w, x, y)
		case token.XOR:
			return in.bv(OXor, w, x, y)
		case token.AND_NOT:
			return in.bv(OAnd, w, x, in.bv(ONot, w, y))
		case token.QUO, token.REM:
			if in.cond(in.cmp(OEq, w, y, uint64(0))) {
				in.rtPanic("integer divide by zero")
			}
			o := OUDiv
			if signed && op == token.QUO {
				o = OSDiv
			} else if signed {
				o = OSRem
			} else if op == token.REM {
				o = OURem
			}
			return in.bv(o, w, x, y)
		case token.SHL, token.SHR:
			yw, ysigned, _ := intInfo(yt)
			if ysigned {
				if in.cond(in.cmp(OSlt, yw, y, uint64(0))) {
					in.rtPanic("negative shift amount")
				}
			}
			// bring the shift amount to width w, saturating
			var amt Value
			if yu, ok := y.(uint64); ok {
				if yu >= uint64(w) {
					yu = uint64(w)
				}
				if uint64(w) > mask(w) {
					unsup("shift width")
				}
				amt = yu
			} else {
				yt := y.(*Term)
				if yw > w {
					c := in.path.c
					if in.cond(in.unwrapBool(c.op(OUlt, SBool, 0, yt, c.bv(yw, uint64(w))))) {
						amt = in.unwrapBV(c.op(OTrunc, SBV, w, yt))
					} else {
						amt = uint64(w)
					}
				} else if yw < w {
					amt = in.unwrapBV(in.path.c.op(OZExt, SBV, w, yt))
				} else {
					amt = yt
				}
			}
			if op == token.SHL {
				return in.bv(OShl, w, x, amt)
			}
			if signed {
				return in.bv(OAshr, w, x, amt)
			}
			return in.bv(OLshr, w, x, amt)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR {
				x, y, op = y, x, token.LSS
			} else if op == token.GEQ {
				x, y, op = y, x, token.LEQ
			}
			var o Op
			switch {
			case op == token.LSS && signed:
				o = OSlt
			case op == token.LSS:
				o = OUlt
			case signed:
				o = OSle
			default:
				o = OUle
			}
			return in.cmp(o, w, x, y)
		}
	}
	if xf, ok := x.(float64); ok {
		yf := y.(float64)
		switch op {
		case token.ADD:
			return xf + yf
		case token.SUB:
			return xf - yf
		case token.MUL:
			return xf * yf
		case token.QUO:
			return xf / yf
		case token.LSS:
			return xf < yf
		case token.LEQ:
			return xf <= yf
		case token.GTR:
			return xf > yf
		case token.GEQ:
			return xf >= yf
		}
	}
	b := basicOf(t)
	if b != nil && b.Info()&types.IsString != 0 {
		if op == token.ADD {
			if xs, ok := x.(string); ok {
				if ys, ok := y.(string); ok {
					return xs + ys
				}
			}
			xb, yb := strBytes(x), strBytes(y)
			r := make([]Value, 0, len(xb)+len(yb))
			r = append(append(r, xb...), yb...)
			return mkStr(r)
		}
		c := in.strCompare(x, y)
		switch op {
		case token.LSS:
			return c < 0
		case token.LEQ:
			return c <= 0
		case token.GTR:
			return c > 0
		case token.GEQ:
			return c >= 0
		}
	}
	unsup("binop %v on %v (%T,%T)", op, t, x, y)
	return nil
}

func (in *Interp) strCompare(x, y Value) int {
	if xs, ok := x.(string); ok {
		if ys, ok := y.(string); ok {
			return strings.Compare(xs, ys)
		}
	}
	a, b := strBytes(x), strBytes(y)
	for i := 0; i < len(a) && i < len(b); i++ {
		if in.cond(in.cmp(OEq, 8, a[i], b[i])) {
			continue
		}
		if in.cond(in.cmp(OUlt, 8, a[i], b[i])) {
			return -1
		}
		return 1
	}
	return len(a) - len(b)
}

func (in *Interp) eqBytes(a, b []Value) Value {
	if hasOpaque(a) || hasOpaque(b) {
		unsup("comparison of an uncomputed string")
	}
	if len(a) != len(b) {
		return false
	}
	var r Value = true
	for i := range a {
		r = in.andV(r, in.cmp(OEq, 8, a[i], b[i]))
		if r == false {
			return false
		}
	}
	return r
}

func comparable_(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !comparable_(u.Field(i).Type()) {
				return false
			}
		}
	case *types.Array:
		return comparable_(u.Elem())
	}
	return true
}

func (in *Interp) eql(t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case uint64, *Term:
		if isTermSort(x, SBool) || isTermSort(y, SBool) {
			return in.unwrapBool(in.path.c.op(OEq, SBool, 0, in.boolTerm(x), in.boolTerm(y)))
		}
		w, _, ok := intInfo(t)
		if !ok {
			unsup("eql ints of %v", t)
		}
		if isTermSort(x, SFld) || isTermSort(y, SFld) {
			unsup("comparison of field ghost values")
		}
		return in.cmp(OEq, w, x, y)
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return in.unwrapBool(in.path.c.op(OEq, SBool, 0, in.path.c.bool(a), y.(*Term)))
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return in.eqBytes(strBytes(x), strBytes(y))
	case *SymStr:
		return in.eqBytes(a.b, strBytes(y))
	case float64:
		return a == y.(float64)
	case *Value:
		b, ok := y.(*Value)
		return ok && a == b
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = in.andV(r, in.eql(st.Field(i).Type(), a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range a {
			r = in.andV(r, in.eql(et, a[i], b[i]))
			if r == false {
				return false
			}
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			unsup("iface compared to %T", y)
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		if !comparable_(a.t) {
			in.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return in.eql(a.t, a.v, b.v)
	case RType:
		b, ok := y.(RType)
		return ok && types.Identical(a.t, b.t)
	case Slice:
		b := y.(Slice)
		return a == nil && b == nil
	case *MapV:
		b := y.(*MapV)
		return a == b
	case *Closure:
		switch b := y.(type) {
		case *Closure:
			return a == nil && b == nil
		default:
			return false
		}
	case *ssa.Function, *ssa.Builtin, *nativeFn:
		return false
	case nil:
		return y == nil
	case BigV:
		unsup("comparison of big.Int structs")
	}
	unsup("eql %T %T", x, y)
	return nil
}

func isTermSort(v Value, s Sort) bool {
	t, ok := v.(*Term)
	return ok && t.sort == s
}

func (in *Interp) mapFind(m *MapV, k Value) int {
	in.checkHashable(m.kt, k)
	h, ok := keyHash(k)
	if ok && !m.sym {
		if i, ok := m.idx[h]; ok {
			return i
		}
		return -1
	}
	if ok {
		if i, found := m.idx[h]; found {
			return i
		}
	}
	for i := range m.ents {
		if m.ents[i].dead {
			continue
		}
		if in.cond(in.eql(m.kt, m.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (in *Interp) checkHashable(t types.Type, k Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !comparable_(i.t) {
		in.rtPanic("hash of unhashable type " + i.t.String())
	}
}

func (in *Interp) mapSet(m *MapV, k, v Value) {
	if i := in.mapFind(m, k); i >= 0 {
		old := m.ents[i].v
		in.undoLog(func() { m.ents[i].v = old })
		m.ents[i].v = copyVal(v)
		return
	}
	h, ok := keyHash(k)
	oldsym := m.sym
	n := len(m.ents)
	if ok {
		m.idx[h] = n
	} else {
		m.sym = true
	}
	m.ents = append(m.ents, mapEnt{k: k, v: copyVal(v)})
	m.n++
	in.undoLog(func() {
		m.ents = m.ents[:n]
		m.n--
		m.sym = oldsym
		if ok {
			delete(m.idx, h)
		}
	})
}

func (in *Interp) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	i := in.mapFind(m, k)
	if i < 0 {
		return
	}
	h, ok := keyHash(m.ents[i].k)
	if ok {
		delete(m.idx, h)
	}
	m.ents[i].dead = true
	m.n--
	in.undoLog(func() {
		m.ents[i].dead = false
		m.n++
		if ok {
			m.idx[h] = i
		}
	})
}

func (in *Interp) slice(fr *frame, ci *cinstr, ins *ssa.Slice) Value {
	x := in.get(fr, &ci.ops[0])
	bound := func(i int, def int) int {
		if i >= len(ci.ops) {
			return def
		}
		o := in.get(fr, &ci.ops[i])
		if o == nil {
			return def
		}
		return in.intArg(o, "slice bounds")
	}
	var lo, hi, mx ssa.Value = ins.Low, ins.High, ins.Max
	pos := 1
	l, h, m := 0, -1, -1
	if lo != nil {
		l = bound(pos, 0)
	}
	if len(ci.ops) == 4 { // operand list always has four slots
		if hi != nil {
			h = bound(2, -1)
			if h < 0 {
				in.rtPanic("slice bounds out of range")
			}
		}
		if mx != nil {
			m = bound(3, -1)
			if m < 0 {
				in.rtPanic("slice bounds out of range")
			}
		}
	} else {
		unsup("slice operands")
	}
	switch a := x.(type) {
	case string:
		if h < 0 {
			h = len(a)
		}
		if l < 0 || h > len(a) || l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return a[l:h]
	case *SymStr:
		strLen(a)
		if h < 0 {
			h = len(a.b)
		}
		if l < 0 || h > len(a.b) || l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return mkStr(a.b[l:h])
	}
	var s []Value
	isnil := false
	switch a := x.(type) {
	case Slice:
		s = a
		isnil = a == nil
	case *Value:
		if a == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr := (*a).(Array)
		s = arr
		if m < 0 {
			s = arr[:len(arr):len(arr)]
		}
	default:
		unsup("slice of %T", x)
	}
	if h < 0 {
		h = len(s)
	}
	if m < 0 {
		m = cap(s)
	}
	if l < 0 || l > h || h > m || m > cap(s) {
		in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(s)))
	}
	if isnil {
		return Slice(nil)
	}
	return Slice(s[l:h:m])
}

func (in *Interp) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := in.implC[k]; ok {
		return r
	}
	m, _ := types.MissingMethod(t, it, true)
	r := m == nil
	in.implC[k] = r
	return r
}

func (in *Interp) typeAssert(ins *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && in.implements(x.t, it) {
			ok = true
			v = x
		}
	} else if x.t != nil && types.Identical(x.t, ins.AssertedType) {
		ok = true
		v = x.v
	}
	if !ok {
		if !ins.CommaOk {
			d := "nil"
			if x.t != nil {
				d = x.t.String()
			}
			panic(targetPanic{in.mkError("interface conversion: interface is " + d + ", not " + ins.AssertedType.String())})
		}
		v = zero(ins.AssertedType)
	}
	if ins.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

func (in *Interp) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := methKey{typeID(t), name}
	if f, ok := in.methodC[k]; ok {
		return f
	}
	f := in.prog.lookupMethod(t, pkg, name)
	in.methodC[k] = f
	return f
}

func (in *Interp) prepCall(fr *frame, ci *cinstr, call *ssa.CallCommon) (Value, []Value) {
	if call.IsInvoke() {
		recv, ok := in.get(fr, &ci.ops[0]).(Iface)
		if !ok {
			unsup("invoke on %T", in.get(fr, &ci.ops[0]))
		}
		if recv.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		args := make([]Value, 0, len(ci.ops))
		args = append(args, recv.v)
		for k := 1; k < len(ci.ops); k++ {
			args = append(args, in.get(fr, &ci.ops[k]))
		}
		if rt, ok := recv.v.(RType); ok {
			name := call.Method.Name()
			return &nativeFn{name, func(in *Interp, a []Value) Value { return in.rtypeMethod(rt, name, a[1:]) }}, args
		}
		f := in.lookupMethod(recv.t, call.Method.Pkg(), call.Method.Name())
		if f == nil {
			unsup("no method %v on %v", call.Method, recv.t)
		}
		return f, args
	}
	args := make([]Value, 0, len(ci.ops))
	for k := 1; k < len(ci.ops); k++ {
		args = append(args, in.get(fr, &ci.ops[k]))
	}
	fv := in.get(fr, &ci.ops[0])
	if b, ok := fv.(*ssa.Builtin); ok {
		// remember static argument types for builtins
		return &nativeFn{b.Name(), func(in *Interp, a []Value) Value { return in.builtin(b, a, call, fr) }}, args
	}
	return fv, args
}

func (in *Interp) doCall(fr *frame, ci *cinstr, call *ssa.CallCommon) Value {
	fv, args := in.prepCall(fr, ci, call)
	return in.callValue(fv, args, fr)
}

func (in *Interp) builtin(b *ssa.Builtin, args []Value, call *ssa.CallCommon, fr *frame) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case *Value:
			return uint64(call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Value:
			return uint64(call.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		a := args[0].(Slice)
		if len(args) == 1 {
			return a
		}
		var add []Value
		switch s := args[1].(type) {
		case Slice:
			add = s
		default:
			add = strBytes(s)
		}
		if len(add) == 0 {
			return a
		}
		n := len(a)
		if n+len(add) <= cap(a) {
			r := a[:n+len(add)]
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			for i := range tmp {
				in.store(&r[n+i], tmp[i])
			}
			return r
		}
		nc := 2 * cap(a)
		if nc < n+len(add) {
			nc = n + len(add)
		}
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		r := make(Slice, nc)
		for i := 0; i < n; i++ {
			r[i] = copyVal(a[i])
		}
		for i := range add {
			r[n+i] = copyVal(add[i])
		}
		for i := n + len(add); i < nc; i++ {
			r[i] = zero(et)
		}
		return r[:n+len(add)]
	case "copy":
		d := args[0].(Slice)
		var s []Value
		switch x := args[1].(type) {
		case Slice:
			s = x
		default:
			s = strBytes(x)
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			in.store(&d[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		in.mapDelete(args[0].(*MapV), args[1])
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// called from a deferred function: fr is the deferred function's frame
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.panic.(targetPanic).v
			if i, ok := v.(Iface); ok {
				return i
			}
			return Iface{t: types.Typ[types.String], v: fmt.Sprint(v)}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := call.Args[0].Type()
		for _, a := range args[1:] {
			lt := in.binop(token.LSS, t, a, r, t)
			if b.Name() == "max" {
				lt = in.binop(token.LSS, t, r, a, t)
			}
			if in.cond(lt) {
				r = a
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for i := range x.ents {
					if !x.ents[i].dead {
						in.mapDelete(x, x.ents[i].k)
					}
				}
			}
		case Slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				in.store(&x[i], zero(et))
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (in *Interp) convert(dst, src types.Type, x Value) Value {
	dw, _, dok := intInfo(dst)
	sw, ssigned, sok := intInfo(src)
	if dok && sok {
		if isTermSort(x, SFld) {
			return x
		}
		switch u := x.(type) {
		case uint64:
			if ssigned {
				return uint64(sx(u, sw)) & mask(dw)
			}
			return u & mask(dw)
		case *Term:
			c := in.path.c
			switch {
			case dw == sw:
				return u
			case dw < sw:
				return in.unwrapBV(c.op(OTrunc, SBV, dw, u))
			case ssigned:
				return in.unwrapBV(c.op(OSExt, SBV, dw, u))
			default:
				return in.unwrapBV(c.op(OZExt, SBV, dw, u))
			}
		}
	}
	db, sb := basicOf(dst), basicOf(src)
	if db != nil && db.Info()&types.IsString != 0 {
		switch s := x.(type) {
		case string, *SymStr:
			return s
		case Slice:
			et := src.Underlying().(*types.Slice).Elem()
			if w, _, _ := intInfo(et); w == 8 {
				return mkStr(s)
			}
			var out []Value
			for _, r := range s {
				out = append(out, in.encodeRune(r)...)
			}
			return mkStr(out)
		case uint64:
			return string(rune(int32(s)))
		case *Term:
			if sok && sw == 32 {
				return mkStr(in.encodeRune(s))
			}
		}
	}
	if ds, ok := dst.Underlying().(*types.Slice); ok && sb != nil && sb.Info()&types.IsString != 0 {
		bs := strBytes(x)
		if w, _, _ := intInfo(ds.Elem()); w == 8 {
			r := make(Slice, len(bs))
			copy(r, bs)
			return r
		}
		r := Slice{}
		for len(bs) > 0 {
			rn, n := in.decodeRune(bs)
			r = append(r, rn)
			bs = bs[n:]
		}
		return r
	}
	if db != nil && db.Info()&types.IsFloat != 0 {
		switch u := x.(type) {
		case float64:
			if db.Kind() == types.Float32 {
				return float64(float32(u))
			}
			return u
		case uint64:
			if ssigned {
				return float64(sx(u, sw))
			}
			return float64(u)
		}
	}
	if f, ok := x.(float64); ok && dok {
		return uint64(int64(f)) & mask(dw)
	}
	switch dst.Underlying().(type) {
	case *types.Pointer:
		if _, ok := src.Underlying().(*types.Pointer); ok {
			return x
		}
	case *types.Slice, *types.Struct, *types.Array, *types.Map, *types.Signature, *types.Interface:
		return x
	}
	unsup("convert %v -> %v (%T)", src, dst, x)
	return nil
}

// decodeRune decodes one rune; symbolic bytes are forked on being ASCII.
func (in *Interp) decodeRune(b []Value) (Value, int) {
	if t, ok := b[0].(*Term); ok {
		if in.cond(in.cmp(OUlt, 8, t, uint64(0x80))) {
			return in.unwrapBV(in.path.c.op(OZExt, SBV, 32, t)), 1
		}
		b = append([]Value{in.path.concretize(t)}, b[1:]...)
	}
	b0 := b[0].(uint64)
	if b0 < 0x80 {
		return b0, 1
	}
	var buf []byte
	buf = append(buf, byte(b0))
	for i := 1; i < len(b) && i < 4; i++ {
		if t, ok := b[i].(*Term); ok {
			buf = append(buf, byte(in.path.concretize(t)))
		} else {
			buf = append(buf, byte(b[i].(uint64)))
		}
	}
	r, n := decodeRuneBytes(buf)
	return uint64(uint32(r)), n
}

func decodeRuneBytes(b []byte) (rune, int) {
	for _, r := range string(b) {
		n := len(string(r))
		if r == 0xFFFD && !(len(b) >= 3 && b[0] == 0xEF && b[1] == 0xBF && b[2] == 0xBD) {
			n = 1
		}
		return r, n
	}
	return 0xFFFD, 1
}

func (in *Interp) encodeRune(r Value) []Value {
	if t, ok := r.(*Term); ok {
		c := in.path.c
		if in.cond(in.cmp(OUlt, 32, t, uint64(0x80))) {
			return []Value{in.unwrapBV(c.op(OTrunc, SBV, 8, t))}
		}
		r = in.path.concretize(t)
	}
	return strBytes(string(rune(int32(r.(uint64)))))
}

func (in *Interp) bigOf(v Value) BigV {
	p, ok := v.(*Value)
	if !ok {
		unsup("bigOf %T", v)
	}
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	b, ok := (*p).(BigV)
	if !ok {
		unsup("bigOf cell %T", *p)
	}
	return b
}

func (in *Interp) bigTerm(b BigV) *Term {
	if b.t != nil {
		return b.t
	}
	return in.path.c.int(b.x)
}

func mkBig(t *Term) BigV {
	if t.isConst() {
		return BigV{x: t.k}
	}
	return BigV{t: t}
}

var _ = big.NewInt
