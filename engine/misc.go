package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- formatting

type fmtState struct {
	in    *Interp
	out   []Value
	flags string
	plus  bool
	sharp bool
	wid   string
	verb  rune
}

func (f *fmtState) str(s string) { f.out = append(f.out, strBytes(s)...) }
func (f *fmtState) val(v Value)  { f.out = append(f.out, strBytes(v)...) }

func (f *fmtState) spec() string { return "%" + f.flags + f.wid + string(f.verb) }

// native converts a concrete basic value to the Go value of the same kind.
func nativeBasic(t types.Type, v Value) (any, bool) {
	b := basicOf(t)
	if b == nil {
		return nil, false
	}
	switch x := v.(type) {
	case bool:
		return x, true
	case string:
		return x, true
	case float64:
		if b.Kind() == types.Float32 {
			return float32(x), true
		}
		return x, true
	case uint64:
		switch b.Kind() {
		case types.Int, types.UntypedInt:
			return int(x), true
		case types.Int8:
			return int8(x), true
		case types.Int16:
			return int16(x), true
		case types.Int32, types.UntypedRune:
			return int32(x), true
		case types.Int64:
			return int64(x), true
		case types.Uint:
			return uint(x), true
		case types.Uint8:
			return uint8(x), true
		case types.Uint16:
			return uint16(x), true
		case types.Uint32:
			return uint32(x), true
		case types.Uint64:
			return x, true
		case types.Uintptr:
			return uintptr(x), true
		}
	}
	return nil, false
}

func (f *fmtState) methodStr(t types.Type, v Value, name string) bool {
	fn := f.in.lookupMethod(t, nil, name)
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return false
	}
	if b := basicOf(fn.Signature.Results().At(0).Type()); b == nil || b.Kind() != types.String {
		return false
	}
	var s Value
	depth := f.in.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				f.in.depth = depth
				if isNilVal(v) {
					s = "<nil>"
					return
				}
				s = "%!" + string(f.verb) + "(PANIC=" + name + " method: " + f.in.panicText(tp) + ")"
			}
		}()
		s = f.in.call(fn, []Value{v}, nil)
	}()
	f.leafString(s)
	return true
}

func (f *fmtState) leafString(s Value) {
	if c, ok := s.(string); ok {
		f.str(fmt.Sprintf(f.spec(), c))
		return
	}
	if f.wid == "" && (f.verb == 'v' || f.verb == 's') && !f.sharp {
		f.val(s)
		return
	}
	f.val(opaqueStr())
}

func (in *Interp) panicText(tp targetPanic) string {
	i, ok := tp.v.(Iface)
	if !ok {
		return fmt.Sprint(tp.v)
	}
	if s, ok := i.v.(string); ok {
		return s
	}
	return in.fmtValue(i, 'v', false)
}

// value formats one operand. depth is the nesting level.
func (f *fmtState) value(t types.Type, v Value, depth int) {
	if t == nil {
		switch f.verb {
		case 'v', 's':
			f.str(fmt.Sprintf(f.spec(), nil))
		case 'T':
			f.str("<nil>")
		default:
			f.str("%!" + string(f.verb) + "(<nil>)")
		}
		return
	}
	if f.verb == 'T' {
		f.str(rtString(t))
		return
	}
	if f.verb == 'p' {
		f.val(opaqueStr())
		return
	}
	if rt, ok := v.(RType); ok {
		f.str(rtString(rt.t))
		return
	}
	if rv, ok := v.(RVal); ok {
		if rv.t == nil {
			f.str("<invalid reflect.Value>")
			return
		}
		f.value(rv.t, rv.get(), depth)
		return
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		i := v.(Iface)
		if i.t == nil {
			f.str("<nil>")
			return
		}
		f.value(i.t, i.v, depth)
		return
	}
	if f.in.lookupMethod(t, nil, "Format") != nil {
		switch namedPath(deref(t)) {
		case "math/big.Int":
			p, _ := v.(*Value)
			if p == nil {
				f.str("<nil>")
				return
			}
			b := f.in.bigOf(p)
			if b.t != nil {
				f.val(opaqueStr())
			} else {
				f.str(fmt.Sprintf(f.spec(), b.x))
			}
			return
		}
		f.val(opaqueStr())
		return
	}
	if !f.sharp {
		switch f.verb {
		case 'v', 's', 'x', 'X', 'q':
			if f.methodStr(t, v, "Error") {
				return
			}
			if f.methodStr(t, v, "String") {
				return
			}
		}
	}
	if f.sharp && f.verb == 'v' {
		if basicOf(t) == nil {
			f.val(opaqueStr())
			return
		}
		if _, named := types.Unalias(t).(*types.Named); named {
			f.val(opaqueStr())
			return
		}
	}
	if basicOf(t) != nil {
		if n, ok := nativeBasic(t, v); ok {
			f.str(fmt.Sprintf(f.spec(), n))
			return
		}
		if s, ok := v.(*SymStr); ok {
			f.leafString(s)
			return
		}
		f.val(opaqueStr())
		return
	}
	if f.verb != 'v' && f.verb != 's' && f.verb != 'd' && f.verb != 'x' && f.verb != 'X' {
		f.val(opaqueStr())
		return
	}
	switch x := v.(type) {
	case Struct:
		if _, ok := types.Unalias(t).(*types.Named); ok && namedPath(t) == "math/big.Int" {
			unsup("formatting big.Int struct")
		}
		st := t.Underlying().(*types.Struct)
		f.str("{")
		for i := range x {
			if i > 0 {
				f.str(" ")
			}
			if f.plus {
				f.str(st.Field(i).Name() + ":")
			}
			ft := st.Field(i).Type()
			if !st.Field(i).Exported() {
				f.noMethods(ft, x[i], depth+1)
			} else {
				f.value(ft, x[i], depth+1)
			}
		}
		f.str("}")
	case Slice, Array:
		var el []Value
		var et types.Type
		if s, ok := x.(Slice); ok {
			el, et = s, t.Underlying().(*types.Slice).Elem()
		} else {
			el, et = x.(Array), t.Underlying().(*types.Array).Elem()
		}
		if b := basicOf(et); b != nil && b.Kind() == types.Uint8 && f.verb != 'v' && f.verb != 'd' {
			bs, ok := concBytes(el)
			if !ok {
				f.val(opaqueStr())
				return
			}
			f.str(fmt.Sprintf(f.spec(), bs))
			return
		}
		f.str("[")
		for i := range el {
			if i > 0 {
				f.str(" ")
			}
			f.value(et, el[i], depth+1)
		}
		f.str("]")
	case *MapV:
		mt := t.Underlying().(*types.Map)
		f.str("map[")
		if x != nil {
			var es []mapEnt
			for _, e := range x.ents {
				if !e.dead {
					es = append(es, e)
				}
			}
			conc := true
			for _, e := range es {
				if _, ok := keyHash(e.k); !ok {
					conc = false
				}
			}
			if !conc && len(es) > 1 {
				f.val(opaqueStr())
				es = nil
			} else {
				sort.SliceStable(es, func(i, j int) bool {
					switch a := es[i].k.(type) {
					case uint64:
						return a < es[j].k.(uint64)
					case string:
						return a < es[j].k.(string)
					}
					return false
				})
			}
			for i, e := range es {
				if i > 0 {
					f.str(" ")
				}
				f.value(mt.Key(), e.k, depth+1)
				f.str(":")
				f.value(mt.Elem(), e.v, depth+1)
			}
		}
		f.str("]")
	case *Value:
		if x == nil {
			f.str(fmt.Sprintf(f.spec(), (*int)(nil)))
			return
		}
		if depth == 0 {
			et := deref(t)
			switch (*x).(type) {
			case Struct, Array, Slice, *MapV:
				f.str("&")
				f.value(et, copyVal(*x), depth+1)
				return
			}
		}
		f.val(opaqueStr())
	default:
		if isNilVal(v) {
			f.str("<nil>")
			return
		}
		f.val(opaqueStr())
	}
}

// noMethods formats an unexported field (fmt does not call methods on those).
func (f *fmtState) noMethods(t types.Type, v Value, depth int) {
	if basicOf(t) != nil {
		if n, ok := nativeBasic(t, v); ok {
			f.str(fmt.Sprintf(f.spec(), n))
			return
		}
		if s, ok := v.(*SymStr); ok {
			f.leafString(s)
			return
		}
		f.val(opaqueStr())
		return
	}
	if s, ok := v.(Struct); ok {
		st := t.Underlying().(*types.Struct)
		f.str("{")
		for i := range s {
			if i > 0 {
				f.str(" ")
			}
			if f.plus {
				f.str(st.Field(i).Name() + ":")
			}
			f.noMethods(st.Field(i).Type(), s[i], depth+1)
		}
		f.str("}")
		return
	}
	if i, ok := v.(Iface); ok && i.t == nil {
		f.str("<nil>")
		return
	}
	f.val(opaqueStr())
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fmtValue renders a value with %v (or another verb) as a concrete string.
func (in *Interp) fmtValue(i Iface, verb rune, plus bool) string {
	f := &fmtState{in: in, verb: verb}
	if plus {
		f.flags, f.plus = "+", true
	}
	f.value(i.t, i.v, 0)
	if b, ok := concBytes(f.out); ok {
		return string(b)
	}
	return "<uncomputed>"
}

// sprintf implements fmt.Sprintf; wrapped receives the operands of %w verbs.
func (in *Interp) sprintf(format Value, args Slice, wrapped *[]Iface, isErrorf bool) Value {
	var out []Value
	fb := strBytes(format)
	argNum := 0
	isC := func(i int, c byte) bool {
		if i >= len(fb) {
			return false
		}
		return in.cond(in.cmp(OEq, 8, fb[i], uint64(c)))
	}
	for i := 0; i < len(fb); {
		if !isC(i, '%') {
			out = append(out, fb[i])
			i++
			continue
		}
		i++
		f := &fmtState{in: in}
		// flags
	flags:
		for i < len(fb) {
			for _, c := range "+-# 0" {
				if isC(i, byte(c)) {
					f.flags += string(c)
					switch c {
					case '+':
						f.plus = true
					case '#':
						f.sharp = true
					}
					i++
					continue flags
				}
			}
			break
		}
		for i < len(fb) {
			u, ok := fb[i].(uint64)
			if !ok {
				if in.cond(in.andV(in.cmp(OUle, 8, uint64('0'), fb[i]), in.cmp(OUle, 8, fb[i], uint64('9')))) {
					fb = append([]Value{}, fb...)
					fb[i] = in.path.concretize(fb[i].(*Term))
					continue
				}
				if isC(i, '.') || isC(i, '*') || isC(i, '[') {
					unsup("symbolic precision in a format")
				}
				break
			}
			if u >= '0' && u <= '9' || u == '.' {
				f.wid += string(rune(u))
				i++
				continue
			}
			if u == '*' || u == '[' {
				unsup("format with * or argument index")
			}
			break
		}
		if i >= len(fb) {
			out = append(out, strBytes("%!(NOVERB)")...)
			break
		}
		var verb rune
		if u, ok := fb[i].(uint64); ok {
			if u >= utf8.RuneSelf {
				bs, ok := concBytes(fb[i:])
				if !ok {
					unsup("symbolic non-ASCII verb")
				}
				r, n := utf8.DecodeRune(bs)
				verb = r
				i += n
			} else {
				verb = rune(u)
				i++
			}
		} else {
			v := in.path.concretize(fb[i].(*Term))
			if v >= utf8.RuneSelf {
				unsup("symbolic non-ASCII verb")
			}
			verb = rune(v)
			i++
		}
		if verb == '%' {
			out = append(out, uint64('%'))
			continue
		}
		if argNum >= len(args) {
			out = append(out, strBytes("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		a := args[argNum].(Iface)
		argNum++
		f.verb = verb
		if verb == 'w' {
			if !isErrorf {
				f.str("%!w(")
				t := a.t
				if t == nil {
					f.str("<nil>)")
				} else {
					f.str(rtString(t) + "=")
					g := &fmtState{in: in, verb: 'v'}
					g.value(a.t, a.v, 0)
					f.out = append(f.out, g.out...)
					f.str(")")
				}
				out = append(out, f.out...)
				continue
			}
			if a.t != nil && in.implements(a.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
				*wrapped = append(*wrapped, a)
			} else {
				if a.t == nil {
					f.str("%!w(<nil>)")
				} else {
					f.val(opaqueStr())
				}
				*wrapped = append(*wrapped, Iface{})
				out = append(out, f.out...)
				continue
			}
			f.verb = 'v'
		}
		f.value(a.t, a.v, 0)
		out = append(out, f.out...)
	}
	if argNum < len(args) {
		out = append(out, strBytes("%!(EXTRA ")...)
		for k := argNum; k < len(args); k++ {
			if k > argNum {
				out = append(out, strBytes(", ")...)
			}
			a := args[k].(Iface)
			if a.t == nil {
				out = append(out, strBytes("<nil>")...)
			} else {
				out = append(out, strBytes(rtString(a.t)+"=")...)
				f := &fmtState{in: in, verb: 'v'}
				f.value(a.t, a.v, 0)
				out = append(out, f.out...)
			}
		}
		out = append(out, uint64(')'))
	}
	return mkStr(out)
}

func (in *Interp) mkErrorV(msg Value) Value {
	var cell Value = Struct{msg}
	return Iface{t: in.prog.errStringPtr, v: &cell}
}

func (in *Interp) sprint(args Slice, ln bool) Value {
	var out []Value
	prevString := false
	for i, x := range args {
		a := x.(Iface)
		isString := false
		if a.t != nil && basicOf(a.t) != nil && basicOf(a.t).Info()&types.IsString != 0 {
			isString = true
		}
		if i > 0 && (ln || !isString && !prevString) {
			out = append(out, uint64(' '))
		}
		f := &fmtState{in: in, verb: 'v'}
		f.value(a.t, a.v, 0)
		out = append(out, f.out...)
		prevString = isString
	}
	if ln {
		out = append(out, uint64('\n'))
	}
	return mkStr(out)
}

func sliceArg(v Value) Slice {
	s, _ := v.(Slice)
	return s
}

func regMisc(reg func(string, intrinsic)) {
	reg("fmt.Sprintf", func(in *Interp, fr *frame, a []Value) Value { return in.sprintf(a[0], sliceArg(a[1]), nil, false) })
	reg("fmt.Sprint", func(in *Interp, fr *frame, a []Value) Value { return in.sprint(sliceArg(a[0]), false) })
	reg("fmt.Sprintln", func(in *Interp, fr *frame, a []Value) Value { return in.sprint(sliceArg(a[0]), true) })
	reg("fmt.Errorf", func(in *Interp, fr *frame, a []Value) Value {
		var w []Iface
		s := in.sprintf(a[0], sliceArg(a[1]), &w, true)
		switch len(w) {
		case 0:
			return in.mkErrorV(s)
		case 1:
			t := types.NewPointer(in.prog.pkgs["fmt"].Type("wrapError").Type())
			var cell Value = Struct{s, w[0]}
			return Iface{t: t, v: &cell}
		}
		t := types.NewPointer(in.prog.pkgs["fmt"].Type("wrapErrors").Type())
		es := Slice{}
		for _, e := range w {
			if e.t != nil {
				es = append(es, e)
			}
		}
		var cell Value = Struct{s, es}
		return Iface{t: t, v: &cell}
	})
	fpr := func(f func(in *Interp, a []Value) Value) intrinsic {
		return func(in *Interp, fr *frame, a []Value) Value {
			s := f(in, a)
			w := a[0].(Iface)
			if w.t == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := in.lookupMethod(w.t, nil, "Write")
			return in.callValue(fn, []Value{w.v, Slice(append([]Value(nil), strBytes(s)...))}, fr)
		}
	}
	reg("fmt.Fprintf", fpr(func(in *Interp, a []Value) Value { return in.sprintf(a[1], sliceArg(a[2]), nil, false) }))
	reg("fmt.Fprint", fpr(func(in *Interp, a []Value) Value { return in.sprint(sliceArg(a[1]), false) }))
	reg("fmt.Fprintln", fpr(func(in *Interp, a []Value) Value { return in.sprint(sliceArg(a[1]), true) }))
	for _, n := range []string{"Printf", "Print", "Println"} {
		reg("fmt."+n, func(in *Interp, fr *frame, a []Value) Value { return Tuple{uint64(0), Iface{}} })
	}

	reg("errors.Is", func(in *Interp, fr *frame, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil || t.t == nil {
			return e.t == nil && t.t == nil
		}
		fn := in.prog.pkgs["errors"].Func("is")
		return in.call(fn, []Value{e, t, comparable_(t.t)}, fr)
	})

	// sync: single-threaded exploration; lock state is tracked so that a
	// self-deadlock or an unlock of an unlocked mutex is visible.
	lock := func(name string, f func(in *Interp, st *Value)) {
		reg(name, func(in *Interp, fr *frame, a []Value) Value {
			p := a[0].(*Value)
			if p == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			f(in, p)
			return nil
		})
	}
	setn := func(in *Interp, p *Value, d int) {
		old := in.locks[p]
		in.locks[p] = old + d
		in.undoLog(func() { in.locks[p] = old })
	}
	const W = 1 << 20
	lock("(*sync.Mutex).Lock", func(in *Interp, p *Value) {
		if in.locks[p] != 0 {
			panic(targetPanic{in.mkError("all goroutines are asleep - deadlock! (Lock of a locked mutex)")})
		}
		setn(in, p, W)
	})
	lock("(*sync.Mutex).Unlock", func(in *Interp, p *Value) {
		if in.locks[p] < W {
			panic(targetPanic{in.mkError("fatal error: sync: unlock of unlocked mutex")})
		}
		setn(in, p, -W)
	})
	intrTab["(*sync.RWMutex).Lock"] = intrTab["(*sync.Mutex).Lock"]
	intrTab["(*sync.RWMutex).Unlock"] = intrTab["(*sync.Mutex).Unlock"]
	lock("(*sync.RWMutex).RLock", func(in *Interp, p *Value) {
		if in.locks[p] >= W {
			panic(targetPanic{in.mkError("all goroutines are asleep - deadlock! (RLock of a locked mutex)")})
		}
		setn(in, p, 1)
	})
	lock("(*sync.RWMutex).RUnlock", func(in *Interp, p *Value) {
		if in.locks[p] == 0 || in.locks[p] >= W {
			panic(targetPanic{in.mkError("fatal error: sync: RUnlock of unlocked RWMutex")})
		}
		setn(in, p, -1)
	})
	lock("(*sync.Mutex).TryLock", func(in *Interp, p *Value) { unsup("TryLock") })
	reg("(*sync.Once).Do", func(in *Interp, fr *frame, a []Value) Value {
		p := a[0].(*Value)
		if in.syncOnce[p] {
			return nil
		}
		in.syncOnce[p] = true
		in.undoLog(func() { in.syncOnce[p] = false })
		in.callValue(a[1], nil, fr)
		return nil
	})

	reg("sort.Slice", func(in *Interp, fr *frame, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		// insertion sort through the given less function (same result for every
		// sorting algorithm up to the order of equal elements)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !in.cond(in.callValue(a[1], []Value{uint64(j), uint64(j - 1)}, fr)) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				in.store(&s[j], y)
				in.store(&s[j-1], x)
			}
		}
		return nil
	})
	reg("os.Exit", func(in *Interp, fr *frame, a []Value) Value { unsup("os.Exit"); return nil })
	_ = strings.Compare
	_ = (*ssa.Function)(nil)
}
