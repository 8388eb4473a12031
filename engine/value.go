package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/types/typeutil"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: uint64 (concrete integer, masked to its width), *Term
// (symbolic integer/bool), bool, float64, string, *SymStr, *Value (pointer),
// Struct, Array, Slice, *MapV, Iface, Tuple, *Closure, *ssa.Function,
// *ssa.Builtin, BigV, RType, RVal, iterators, nil for untyped zero of chan.
type Value interface{}

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type SymStr struct{ b []Value }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// nativeFn is a function value implemented by the engine.
type nativeFn struct {
	name string
	f    func(in *Interp, args []Value) Value
}

// BigV is the (value-semantics) content of a math/big.Int.
type BigV struct {
	x *big.Int
	t *Term
}

type RType struct{ t types.Type }
type RVal struct {
	t    types.Type
	v    Value
	addr *Value // addressable location, if any
	ro   bool   // read-only: reached through an unexported field
	emb  bool   // the field is embedded: its own exported fields are not read-only
}

// FldV is a symbolic field element stored inside a FieldElement (ghost value).
type BuilderV struct{ b []Value }

type mapEnt struct {
	k, v Value
	dead bool
}
type MapV struct {
	kt, vt types.Type
	ents   []mapEnt
	idx    map[string]int // concrete keys
	n      int
	sym    bool // contains symbolic keys
}

type mapIter struct {
	m *MapV
	i int
}
type strIter struct {
	b []Value
	i int
}

type unsupported struct{ msg string }
type pathAbort struct{ why string }
type targetPanic struct{ v Value }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func isSym(v Value) bool { _, ok := v.(*Term); return ok }

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func namedPath(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
	}
	return ""
}

func zero(t types.Type) Value {
	switch namedPath(t) {
	case "math/big.Int":
		return BigV{x: new(big.Int)}
	case "reflect.Value", "internal/reflectlite.Value":
		return RVal{}
	case "strings.Builder":
		return BuilderV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return nil
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		if n > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				a[0] = z
				for i := 1; i < n; i++ {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	unsup("zero of %v", t)
	return nil
}

// copyVal makes a copy of structs and arrays (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	}
	return v
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	unsup("strBytes %T", v)
	return nil
}

// mkStr builds a string value, concrete when possible.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, conc := x.(uint64); !conc {
			c := make([]Value, len(b))
			copy(c, b)
			return &SymStr{c}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(uint64))
	}
	return string(bs)
}

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		if hasOpaque(s.b) {
			unsup("length of an uncomputed string")
		}
		return len(s.b)
	}
	unsup("strLen %T", v)
	return 0
}

// keyHash returns a canonical string for a fully concrete map key.
func keyHash(v Value) (string, bool) {
	var sb strings.Builder
	ok := writeKey(&sb, v)
	return sb.String(), ok
}

func writeKey(sb *strings.Builder, v Value) bool {
	switch v := v.(type) {
	case uint64:
		fmt.Fprintf(sb, "i%d;", v)
	case bool:
		fmt.Fprintf(sb, "b%v;", v)
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(v), v)
	case float64:
		fmt.Fprintf(sb, "f%v;", v)
	case *Value:
		fmt.Fprintf(sb, "p%p;", v)
	case Struct:
		for _, x := range v {
			if !writeKey(sb, x) {
				return false
			}
		}
	case Array:
		for _, x := range v {
			if !writeKey(sb, x) {
				return false
			}
		}
	case Iface:
		if v.t == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "I%d:", typeID(v.t))
		return writeKey(sb, v.v)
	case RType:
		fmt.Fprintf(sb, "T%d;", typeID(v.t))
	default:
		return false
	}
	return true
}

// typeID numbers the types up to identity (the string of a type is ambiguous for local types and aliases).
func typeID(t types.Type) int {
	if i, ok := typeIDPtr.Load(t); ok {
		return i.(int)
	}
	typeIDMu.Lock()
	defer typeIDMu.Unlock()
	i, ok := typeIDs.At(t).(int)
	if !ok {
		i = typeIDs.Len() + 1
		typeIDs.Set(t, i)
	}
	typeIDPtr.Store(t, i)
	return i
}

var (
	typeIDPtr sync.Map // types.Type -> int
	typeIDMu  sync.Mutex
	typeIDs   typeutil.Map
)
