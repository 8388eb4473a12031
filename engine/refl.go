package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	unsup("kind of %v", t)
	return 0
}

// rtString renders a type the way reflect.Type.String does.
func rtString(t types.Type) string {
	t = types.Unalias(t)
	q := func(p *types.Package) string { return p.Name() }
	switch u := t.(type) {
	case *types.Named:
		s := types.TypeString(types.NewPointer(u), q)[1:]
		return strings.ReplaceAll(s, "[any]", "[interface {}]")
	case *types.Pointer:
		return "*" + rtString(u.Elem())
	case *types.Slice:
		return "[]" + rtString(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), rtString(u.Elem()))
	case *types.Map:
		return "map[" + rtString(u.Key()) + "]" + rtString(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
		var ms []string
		for i := 0; i < u.NumMethods(); i++ {
			m := u.Method(i)
			ms = append(ms, m.Name()+sigString(m.Type().(*types.Signature)))
		}
		return "interface { " + strings.Join(ms, "; ") + " }"
	case *types.Signature:
		return "func" + sigString(u)
	case *types.Struct:
		if u.NumFields() == 0 {
			return "struct {}"
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s := f.Name() + " " + rtString(f.Type())
			if f.Anonymous() {
				s = rtString(f.Type())
			}
			fs = append(fs, s)
		}
		return "struct { " + strings.Join(fs, "; ") + " }"
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return u.Name()
	}
	return types.TypeString(t, q)
}

func sigString(s *types.Signature) string {
	var ps []string
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		if s.Variadic() && i == s.Params().Len()-1 {
			ps = append(ps, "..."+rtString(t.(*types.Slice).Elem()))
		} else {
			ps = append(ps, rtString(t))
		}
	}
	r := "(" + strings.Join(ps, ", ") + ")"
	switch s.Results().Len() {
	case 0:
	case 1:
		r += " " + rtString(s.Results().At(0).Type())
	default:
		var rs []string
		for i := 0; i < s.Results().Len(); i++ {
			rs = append(rs, rtString(s.Results().At(i).Type()))
		}
		r += " (" + strings.Join(rs, ", ") + ")"
	}
	return r
}

func (in *Interp) rtype(t types.Type) Value { return Iface{t: in.prog.rtypePtr, v: RType{t}} }

func (in *Interp) rpanic(f string, a ...any) {
	panic(targetPanic{Iface{t: types.Typ[types.String], v: fmt.Sprintf(f, a...)}})
}

func (rv RVal) get() Value {
	if rv.addr != nil {
		return copyVal(*rv.addr)
	}
	return rv.v
}

func typeArg(v Value) types.Type {
	i, ok := v.(Iface)
	if ok {
		if r, ok := i.v.(RType); ok {
			return r.t
		}
		if i.t == nil {
			return nil
		}
	}
	unsup("reflect.Type argument %T", v)
	return nil
}

func (in *Interp) structField(t types.Type, i int) Struct {
	st := t.Underlying().(*types.Struct)
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	// Name, PkgPath, Type, Tag, Offset, Index, Anonymous
	return Struct{f.Name(), pkg, in.rtype(f.Type()), st.Tag(i), uint64(0), Slice{uint64(i)}, f.Anonymous()}
}

func (in *Interp) visibleFields(t types.Type) Slice {
	type fld struct {
		s     Struct
		index []int
		name  string
		dead  bool
	}
	var fields []fld
	byName := map[string]int{}
	visiting := map[int]bool{}
	var index []int
	var walk func(t types.Type)
	walk = func(t types.Type) {
		key := typeID(t)
		if visiting[key] {
			return
		}
		visiting[key] = true
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			index = append(index, i)
			add := true
			if oi, ok := byName[f.Name()]; ok {
				old := &fields[oi]
				if len(index) == len(old.index) {
					old.dead = true
					add = false
				} else if len(index) < len(old.index) {
					old.dead = true
				} else {
					add = false
				}
			}
			if add {
				s := in.structField(t, i)
				ix := append([]int(nil), index...)
				is := Slice{}
				for _, x := range ix {
					is = append(is, uint64(x))
				}
				s[5] = is
				byName[f.Name()] = len(fields)
				fields = append(fields, fld{s: s, index: ix, name: f.Name()})
			}
			if f.Anonymous() {
				ft := f.Type()
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					ft = p.Elem()
				}
				if kindOf(ft) == reflect.Struct {
					walk(ft)
				}
			}
			index = index[:len(index)-1]
		}
		delete(visiting, key)
	}
	walk(t)
	out := Slice{}
	for _, f := range fields {
		if !f.dead {
			out = append(out, f.s)
		}
	}
	return out
}

func (in *Interp) methodType(t types.Type, sel *types.Selection, withRecv bool) types.Type {
	s := sel.Type().(*types.Signature)
	var ps []*types.Var
	if withRecv {
		ps = append(ps, types.NewVar(token.NoPos, nil, "", t))
	}
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, s.Params().At(i))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), s.Results(), s.Variadic())
}

func (in *Interp) exportedMethods(t types.Type) []*types.Selection {
	ms := in.prog.prog.MethodSets.MethodSet(t)
	var r []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			r = append(r, ms.At(i))
		}
	}
	return r
}

func (in *Interp) rtypeMethod(rt RType, name string, a []Value) Value {
	t := rt.t
	if t == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch name {
	case "Kind":
		return uint64(kindOf(t))
	case "String":
		return rtString(t)
	case "Name":
		switch u := types.Unalias(t).(type) {
		case *types.Named:
			s := rtString(u)
			if i := strings.Index(s, "["); i >= 0 {
				return s[strings.LastIndex(s[:i], ".")+1:]
			}
			return s[strings.LastIndex(s, ".")+1:]
		case *types.Basic:
			return rtString(u)
		}
		return ""
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return in.rtype(u.Elem())
		case *types.Slice:
			return in.rtype(u.Elem())
		case *types.Array:
			return in.rtype(u.Elem())
		case *types.Map:
			return in.rtype(u.Elem())
		case *types.Chan:
			return in.rtype(u.Elem())
		}
		in.rpanic("reflect: Elem of invalid type %s", rtString(t))
	case "Key":
		return in.rtype(t.Underlying().(*types.Map).Key())
	case "Len":
		return uint64(t.Underlying().(*types.Array).Len())
	case "NumField":
		if kindOf(t) != reflect.Struct {
			in.rpanic("reflect: NumField of non-struct type %s", rtString(t))
		}
		return uint64(t.Underlying().(*types.Struct).NumFields())
	case "Field":
		if kindOf(t) != reflect.Struct {
			in.rpanic("reflect: Field of non-struct type %s", rtString(t))
		}
		return in.structField(t, int(asInt64(a[0])))
	case "FieldByName":
		n := strArg(a[0])
		for _, f := range in.visibleFields(t) {
			if f.(Struct)[0] == Value(n) {
				return Tuple{f, true}
			}
		}
		return Tuple{Struct{"", "", Iface{}, "", uint64(0), Slice(nil), false}, false}
	case "NumIn", "NumOut", "In", "Out", "IsVariadic":
		s, ok := t.Underlying().(*types.Signature)
		if !ok {
			in.rpanic("reflect: %s of non-func type %s", name, rtString(t))
		}
		tup := s.Params()
		if name == "Out" || name == "NumOut" {
			tup = s.Results()
		}
		switch name {
		case "IsVariadic":
			return s.Variadic()
		case "NumIn", "NumOut":
			return uint64(tup.Len())
		}
		i := int(asInt64(a[0]))
		if i < 0 || i >= tup.Len() {
			in.rtPanic("index out of range")
		}
		return in.rtype(tup.At(i).Type())
	case "AssignableTo":
		return types.AssignableTo(t, typeArg(a[0]))
	case "ConvertibleTo":
		return types.ConvertibleTo(t, typeArg(a[0]))
	case "Implements":
		it := typeArg(a[0])
		if it == nil {
			in.rpanic("reflect: nil type passed to Type.Implements")
		}
		u, ok := it.Underlying().(*types.Interface)
		if !ok {
			in.rpanic("reflect: non-interface type passed to Type.Implements")
		}
		return in.implements(t, u)
	case "Comparable":
		return comparable_(t)
	case "NumMethod":
		return uint64(len(in.exportedMethods(t)))
	case "MethodByName", "Method":
		var sel *types.Selection
		idx := 0
		for i, s := range in.exportedMethods(t) {
			if name == "MethodByName" && s.Obj().Name() == strArg(a[0]) || name == "Method" && uint64(i) == a[0] {
				sel, idx = s, i
			}
		}
		_, isI := t.Underlying().(*types.Interface)
		if sel == nil {
			return Tuple{Struct{"", "", Iface{}, RVal{}, uint64(0)}, false}
		}
		mt := in.methodType(t, sel, !isI)
		fv := RVal{}
		if !isI {
			fv = RVal{t: mt, v: in.prog.prog.MethodValue(sel)}
		}
		m := Struct{sel.Obj().Name(), "", in.rtype(mt), fv, uint64(idx)}
		if name == "Method" {
			return m
		}
		return Tuple{m, true}
	}
	unsup("reflect.Type.%s", name)
	return nil
}

// coerce converts a value of type from for storage in a location of type to.
func coerce(v Value, from, to types.Type) Value {
	if _, ok := to.Underlying().(*types.Interface); ok {
		if _, ok := from.Underlying().(*types.Interface); ok {
			return v
		}
		return Iface{t: from, v: v}
	}
	return v
}

func (in *Interp) callReflect(f RVal, args Slice, spread bool, fr *frame) Value {
	if f.t == nil {
		in.rpanic("reflect: call of reflect.Value.Call on zero Value")
	}
	s, ok := f.t.Underlying().(*types.Signature)
	if !ok {
		in.rpanic("reflect: call of Call on %s Value", kindOf(f.t))
	}
	fv := f.get()
	switch x := fv.(type) {
	case *Closure:
		if x == nil {
			in.rpanic("reflect: call of nil function")
		}
	}
	n := s.Params().Len()
	var vals []Value
	conv := func(v Value, to types.Type) Value {
		rv := v.(RVal)
		if rv.t == nil {
			in.rpanic("reflect: Call using zero Value argument")
		}
		if !types.AssignableTo(rv.t, to) {
			in.rpanic("reflect: Call using %s as type %s", rtString(rv.t), rtString(to))
		}
		return coerce(rv.get(), rv.t, to)
	}
	if s.Variadic() && !spread {
		if len(args) < n-1 {
			in.rpanic("reflect: Call with too few input arguments")
		}
		for i := 0; i < n-1; i++ {
			vals = append(vals, conv(args[i], s.Params().At(i).Type()))
		}
		et := s.Params().At(n - 1).Type().(*types.Slice).Elem()
		var rest Slice = Slice{}
		for i := n - 1; i < len(args); i++ {
			rest = append(rest, conv(args[i], et))
		}
		vals = append(vals, rest)
	} else {
		if len(args) < n {
			in.rpanic("reflect: Call with too few input arguments")
		}
		if len(args) > n {
			in.rpanic("reflect: Call with too many input arguments")
		}
		for i := 0; i < n; i++ {
			vals = append(vals, conv(args[i], s.Params().At(i).Type()))
		}
	}
	r := in.callValue(fv, vals, fr)
	out := Slice{}
	switch s.Results().Len() {
	case 0:
	case 1:
		out = append(out, RVal{t: s.Results().At(0).Type(), v: r})
	default:
		for i, v := range r.(Tuple) {
			out = append(out, RVal{t: s.Results().At(i).Type(), v: v})
		}
	}
	return out
}

func isNilVal(v Value) bool {
	switch x := v.(type) {
	case *Value:
		return x == nil
	case Slice:
		return x == nil
	case *MapV:
		return x == nil
	case *Closure:
		return x == nil
	case Iface:
		return x.t == nil
	case nil:
		return true
	case *ssa.Function:
		return x == nil
	}
	return false
}

func (in *Interp) isZeroVal(t types.Type, v Value) Value {
	switch x := v.(type) {
	case uint64, *Term, bool, float64, string, *SymStr:
		return in.eql(t, v, zero(t))
	case Struct:
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range x {
			r = in.andV(r, in.isZeroVal(st.Field(i).Type(), x[i]))
		}
		return r
	case Array:
		var r Value = true
		for i := range x {
			r = in.andV(r, in.isZeroVal(t.Underlying().(*types.Array).Elem(), x[i]))
		}
		return r
	}
	return isNilVal(v)
}

func regReflect(reg func(string, intrinsic)) {
	for _, P := range []string{"reflect", "internal/reflectlite"} {
		regReflectPkg(reg, P)
	}
	reg("(reflect.Kind).String", func(in *Interp, fr *frame, a []Value) Value {
		return reflect.Kind(asInt64(a[0])).String()
	})
	reg("(reflect.StructField).IsExported", func(in *Interp, fr *frame, a []Value) Value {
		return a[0].(Struct)[1] == Value("")
	})
	reg("(reflect.Method).IsExported", func(in *Interp, fr *frame, a []Value) Value {
		return a[0].(Struct)[1] == Value("")
	})
}

func regReflectPkg(reg func(string, intrinsic), P string) {
	reg(P+".TypeOf", func(in *Interp, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return in.rtype(i.t)
	})
	typeFor := func(in *Interp, fr *frame, a []Value) Value { unsup("reflect.TypeFor"); return nil }
	reg(P+".TypeFor", typeFor)
	reg(P+".ValueOf", func(in *Interp, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	})
	reg(P+".Zero", func(in *Interp, fr *frame, a []Value) Value {
		t := typeArg(a[0])
		if t == nil {
			in.rpanic("reflect: Zero(nil)")
		}
		return RVal{t: t, v: zero(t)}
	})
	reg(P+".New", func(in *Interp, fr *frame, a []Value) Value {
		t := typeArg(a[0])
		if t == nil {
			in.rpanic("reflect: New(nil)")
		}
		return RVal{t: types.NewPointer(t), v: in.newCell(zero(t))}
	})
	ptrTo := func(in *Interp, fr *frame, a []Value) Value { return in.rtype(types.NewPointer(typeArg(a[0]))) }
	reg(P+".PointerTo", ptrTo)
	reg(P+".PtrTo", ptrTo)
	reg(P+".SliceOf", func(in *Interp, fr *frame, a []Value) Value { return in.rtype(types.NewSlice(typeArg(a[0]))) })
	reg(P+".ArrayOf", func(in *Interp, fr *frame, a []Value) Value {
		return in.rtype(types.NewArray(typeArg(a[1]), asInt64(a[0])))
	})
	reg(P+".MakeSlice", func(in *Interp, fr *frame, a []Value) Value {
		t := typeArg(a[0])
		n, c := in.intArg(a[1], ""), in.intArg(a[2], "")
		if n < 0 || c < n {
			in.rpanic("reflect.MakeSlice: bad len or cap")
		}
		et := t.Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		for i := range s {
			s[i] = zero(et)
		}
		return RVal{t: t, v: s[:n]}
	})
	reg(P+".VisibleFields", func(in *Interp, fr *frame, a []Value) Value {
		t := typeArg(a[0])
		if t == nil {
			in.rpanic("reflect: VisibleFields(nil)")
		}
		if kindOf(t) != reflect.Struct {
			in.rpanic("reflect.VisibleFields of non-struct type")
		}
		return in.visibleFields(t)
	})
	reg(P+".Indirect", func(in *Interp, fr *frame, a []Value) Value {
		rv := a[0].(RVal)
		if kindOf(rv.t) != reflect.Pointer {
			return rv
		}
		return in.rvElem(rv)
	})
	V := "(" + P + ".Value)."
	m := func(name string, f func(in *Interp, rv RVal, a []Value, fr *frame) Value) {
		reg(V+name, func(in *Interp, fr *frame, a []Value) Value { return f(in, a[0].(RVal), a[1:], fr) })
	}
	need := func(in *Interp, rv RVal, name string) {
		if rv.t == nil {
			in.rpanic("reflect: call of reflect.Value.%s on zero Value", name)
		}
	}
	m("Kind", func(in *Interp, rv RVal, a []Value, fr *frame) Value { return uint64(kindOf(rv.t)) })
	m("IsValid", func(in *Interp, rv RVal, a []Value, fr *frame) Value { return rv.t != nil })
	m("Type", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		need(in, rv, "Type")
		return in.rtype(rv.t)
	})
	m("Elem", func(in *Interp, rv RVal, a []Value, fr *frame) Value { return in.rvElem(rv) })
	field := func(in *Interp, rv RVal, i int) RVal {
		if kindOf(rv.t) != reflect.Struct {
			in.rpanic("reflect: call of reflect.Value.Field on %s Value", kindOf(rv.t))
		}
		st := rv.t.Underlying().(*types.Struct)
		if i < 0 || i >= st.NumFields() {
			in.rpanic("reflect: Field index out of range")
		}
		sticky := rv.ro && !rv.emb
		r := RVal{t: st.Field(i).Type(), ro: sticky || !st.Field(i).Exported()}
		r.emb = r.ro && !sticky && st.Field(i).Embedded()
		if rv.addr != nil {
			r.addr = &(*rv.addr).(Struct)[i]
		} else {
			r.v = copyVal(rv.v.(Struct)[i])
		}
		return r
	}
	m("Field", func(in *Interp, rv RVal, a []Value, fr *frame) Value { return field(in, rv, int(asInt64(a[0]))) })
	m("NumField", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		return uint64(rv.t.Underlying().(*types.Struct).NumFields())
	})
	byIndex := func(in *Interp, rv RVal, idx Slice) RVal {
		for k, x := range idx {
			if k > 0 && kindOf(rv.t) == reflect.Pointer {
				if isNilVal(rv.get()) {
					in.rpanic("reflect: indirection through nil pointer to embedded struct")
				}
				rv = in.rvElem(rv)
			}
			rv = field(in, rv, int(asInt64(x)))
		}
		return rv
	}
	m("FieldByIndex", func(in *Interp, rv RVal, a []Value, fr *frame) Value { return byIndex(in, rv, a[0].(Slice)) })
	m("FieldByName", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		n := strArg(a[0])
		for _, f := range in.visibleFields(rv.t) {
			if f.(Struct)[0] == Value(n) {
				return byIndex(in, rv, f.(Struct)[5].(Slice))
			}
		}
		return RVal{}
	})
	m("CanAddr", func(in *Interp, rv RVal, a []Value, fr *frame) Value { return rv.addr != nil })
	m("CanSet", func(in *Interp, rv RVal, a []Value, fr *frame) Value { return rv.addr != nil && !rv.ro })
	m("CanInterface", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		need(in, rv, "CanInterface")
		return !rv.ro
	})
	m("Addr", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		if rv.addr == nil {
			in.rpanic("reflect.Value.Addr of unaddressable value")
		}
		return RVal{t: types.NewPointer(rv.t), v: rv.addr, ro: rv.ro}
	})
	m("Set", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		x := a[0].(RVal)
		if rv.t == nil || rv.addr == nil {
			in.rpanic("reflect: reflect.Value.Set using unaddressable value")
		}
		if rv.ro || x.ro {
			in.rpanic("reflect: reflect.Value.Set using value obtained using unexported field")
		}
		need(in, x, "Set")
		if !types.AssignableTo(x.t, rv.t) {
			in.rpanic("reflect.Set: value of type %s is not assignable to type %s", rtString(x.t), rtString(rv.t))
		}
		in.store(rv.addr, coerce(x.get(), x.t, rv.t))
		return nil
	})
	m("Interface", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		need(in, rv, "Interface")
		if rv.ro {
			in.rpanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		if _, ok := rv.t.Underlying().(*types.Interface); ok {
			return rv.get()
		}
		return Iface{t: rv.t, v: rv.get()}
	})
	m("IsNil", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		switch kindOf(rv.t) {
		case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Func, reflect.Interface, reflect.Chan:
			return isNilVal(rv.get())
		}
		in.rpanic("reflect: call of reflect.Value.IsNil on %s Value", kindOf(rv.t))
		return nil
	})
	m("IsZero", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		need(in, rv, "IsZero")
		return in.isZeroVal(rv.t, rv.get())
	})
	m("Len", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		switch x := rv.get().(type) {
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *MapV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.n)
		case string, *SymStr:
			return uint64(strLen(x))
		}
		in.rpanic("reflect: call of reflect.Value.Len on %s Value", kindOf(rv.t))
		return nil
	})
	m("Index", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		i := int(asInt64(a[0]))
		chk := func(n int) {
			if i < 0 || i >= n {
				in.rpanic("reflect: slice index out of range")
			}
		}
		switch u := rv.t.Underlying().(type) {
		case *types.Slice:
			s := rv.get().(Slice)
			chk(len(s))
			return RVal{t: u.Elem(), addr: &s[i], ro: rv.ro}
		case *types.Array:
			if rv.addr != nil {
				s := (*rv.addr).(Array)
				chk(len(s))
				return RVal{t: u.Elem(), addr: &s[i], ro: rv.ro}
			}
			s := rv.v.(Array)
			chk(len(s))
			return RVal{t: u.Elem(), v: copyVal(s[i]), ro: rv.ro}
		}
		in.rpanic("reflect: call of reflect.Value.Index on %s Value", kindOf(rv.t))
		return nil
	})
	m("Pointer", func(in *Interp, rv RVal, a []Value, fr *frame) Value { unsup("reflect.Value.Pointer"); return nil })
	m("Comparable", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		if rv.t == nil {
			return true
		}
		return in.valComparable(rv.t, rv.get())
	})
	m("Int", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		return in.convert(types.Typ[types.Int64], rv.t, rv.get())
	})
	m("Uint", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		return in.convert(types.Typ[types.Uint64], rv.t, rv.get())
	})
	m("Bool", func(in *Interp, rv RVal, a []Value, fr *frame) Value { return rv.get() })
	m("String", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		if kindOf(rv.t) == reflect.String {
			return rv.get()
		}
		if rv.t == nil {
			return "<invalid Value>"
		}
		return "<" + rtString(rv.t) + " Value>"
	})
	m("NumMethod", func(in *Interp, rv RVal, a []Value, fr *frame) Value { return uint64(len(in.exportedMethods(rv.t))) })
	m("MethodByName", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		need(in, rv, "MethodByName")
		n := strArg(a[0])
		t, v := rv.t, rv.get()
		var sel *types.Selection
		for _, s := range in.exportedMethods(t) {
			if s.Obj().Name() == n {
				sel = s
			}
		}
		if sel == nil {
			return RVal{}
		}
		mt := in.methodType(t, sel, false)
		if ifc, ok := v.(Iface); ok {
			if _, isI := t.Underlying().(*types.Interface); isI {
				if ifc.t == nil {
					in.rpanic("reflect: Method on nil interface value")
				}
				t, v = ifc.t, ifc.v
			}
		}
		fn := in.lookupMethod(t, nil, n)
		return RVal{t: mt, v: &nativeFn{n, func(in *Interp, args []Value) Value {
			return in.callValue(fn, append([]Value{copyVal(v)}, args...), fr)
		}}}
	})
	m("Call", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		return in.callReflect(rv, a[0].(Slice), false, fr)
	})
	m("CallSlice", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		return in.callReflect(rv, a[0].(Slice), true, fr)
	})
	m("Convert", func(in *Interp, rv RVal, a []Value, fr *frame) Value {
		t := typeArg(a[0])
		if !types.ConvertibleTo(rv.t, t) {
			in.rpanic("reflect.Value.Convert: value of type %s cannot be converted to type %s", rtString(rv.t), rtString(t))
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			return RVal{t: t, v: coerce(rv.get(), rv.t, t)}
		}
		return RVal{t: t, v: in.convert(t, rv.t, rv.get())}
	})
}

func (in *Interp) rvElem(rv RVal) RVal {
	switch u := typeUnder(rv.t).(type) {
	case *types.Interface:
		i := rv.get().(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v, ro: rv.ro}
	case *types.Pointer:
		p := rv.get().(*Value)
		if p == nil {
			return RVal{}
		}
		return RVal{t: u.Elem(), addr: p, ro: rv.ro, emb: rv.emb}
	}
	in.rpanic("reflect: call of reflect.Value.Elem on %s Value", kindOf(rv.t))
	return RVal{}
}

func typeUnder(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// valComparable is reflect.Value.Comparable.
func (in *Interp) valComparable(t types.Type, v Value) bool {
	switch x := v.(type) {
	case Iface:
		if _, ok := t.Underlying().(*types.Interface); ok {
			return x.t == nil || in.valComparable(x.t, x.v)
		}
	case Struct:
		st := t.Underlying().(*types.Struct)
		for i := range x {
			if !in.valComparable(st.Field(i).Type(), x[i]) {
				return false
			}
		}
		return true
	case Array:
		et := t.Underlying().(*types.Array).Elem()
		for i := range x {
			if !in.valComparable(et, x[i]) {
				return false
			}
		}
		return true
	}
	return comparable_(t)
}
