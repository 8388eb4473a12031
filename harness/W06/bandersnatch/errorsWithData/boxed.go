package errorsWithData

import (
	"errors"
	"fmt"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

type zzB struct{ A uint64 }

type zzMakeInc interface {
	ErrorWithData_any
	IncomparableMaker
}
type zzMakeIncS[T any] interface {
	ErrorWithData[T]
	IncomparableMaker
}

// zzErr creates an error with parameter A in one of several ways, and its boxed versions.
func zzErr(name string) (e error, boxes []error) {
	a := zz.U64(name)
	var base error
	switch zz.Choice(name+"_base", 3) {
	case 1:
		base = &zzBase{"B"}
	case 2:
		base = NewErrorWithData_any_params(nil, "inner", ReplacePreviousData)
	}
	if zz.Choice(name+"_kind", 2) == 0 {
		x := NewErrorWithData_any_params(base, "m", ReplacePreviousData, "A", a)
		y := x.(zzMakeInc)
		b := MakeErrorIncomparable_any(y)
		return x, []error{MakeErrorIncomparable(y), b, MakeErrorIncomparable_any(b), MakeErrorIncomparable(b)}
	}
	x := NewErrorWithData_struct(base, "m", &zzB{a})
	y := x.(zzMakeIncS[zzB])
	b := MakeErrorIncomparable_struct[zzB](y)
	return x, []error{MakeErrorIncomparable(y), MakeErrorIncomparable_any(y), b, MakeErrorIncomparable_struct[zzB](b), MakeErrorIncomparable_any(b), MakeErrorIncomparable(b)}
}

// Boxing changes nothing but comparability.
//
//zz:mode=bv bound=errors_of_both_kinds_over_3_bases_with_arbitrary_data,_all_ways_to_box_(twice) reach=plain,any,struct
func ZZ_Box() {
	e, boxes := zzErr("e")
	f, fboxes := zzErr("f")
	b := boxes[zz.Choice("box", len(boxes))]
	c := fboxes[zz.Choice("fbox", len(fboxes))]
	zz.Assert(UnboxError(b) == e && UnboxError(e) == e, "unboxing gives the original, whatever the number of boxings")
	zz.Assert(b.Error() == e.Error(), "same message")
	zz.Assert(errors.Is(b, e) && errors.Is(e, b) && errors.Is(b, b) && errors.Is(e, e), "errors.Is does not tell them apart")
	zz.Assert(!errors.Is(b, f) && !errors.Is(e, c) && !errors.Is(b, c) && !errors.Is(e, f), "but tells different errors apart")
	zz.Assert(errors.Unwrap(b) == errors.Unwrap(e), "same wrapped error")
	w := fmt.Errorf("w: %w", b)
	for _, x := range []error{e, b, w, fmt.Errorf("u: %w", w)} {
		v, ok := GetParameter(x, "A")
		u, _ := GetParameter(e, "A")
		m := GetData_map(x)
		zz.Assert(ok && v == u && len(m) == 1 && m["A"] == v && HasParameter(x, "A") && !HasParameter(x, "B") && HasData[zzB](x), "same data, also below plain wrapping")
	}
	zz.Assert(errors.Is(w, e) && errors.Is(w, b) && !errors.Is(w, f) && !errors.Is(w, c), "also through plain wrapping")
	n := NewErrorWithData_any_params(b, "n", ReplacePreviousData, "N", 1)
	zz.Assert(errors.Is(n, e) && errors.Is(n, b) && !errors.Is(n, f) && !errors.Is(n, c), "and as the base of a new error")
	zz.Assert(errors.Unwrap(n) == e, "no box within a chain")
	s := AddDataToError_struct(b, &zzB{5})
	zz.Assert(errors.Is(s, e) && errors.Unwrap(s) == e && s.Error() == "m", "also with the default message")
	d := DeleteParameterFromError_any(b, "A")
	zz.Assert(errors.Is(d, e) && errors.Unwrap(d) == e && !d.HasParameter("A"), "and after deletion")
	t := DeleteParameterFromError[struct{}](b, "A", EnsureDataIsPresent)
	zz.Assert(errors.Is(t, e) && errors.Unwrap(t) == e && !t.HasParameter("A"), "and after typed deletion")
	m := NewErrorWithData_map[zzB](b, "n", PreferPreviousData, MissingDataAsZero, ParamMap{})
	zz.Assert(errors.Is(m, e) && errors.Unwrap(m) == e, "and with a map")
	if x, ok := b.(ErrorWithData_any); ok {
		zzSame(x, e.(ErrorWithData_any))
		zz.Assert(UnboxError_any(b.(zzMakeInc)) == e, "UnboxError_any")
		zz.Reach("any")
	} else {
		zz.Reach("plain")
	}
	if x, ok := b.(ErrorWithData[zzB]); ok {
		zz.Assert(x.GetData_struct() == e.(ErrorWithData[zzB]).GetData_struct(), "struct data of a box")
		zz.Assert(UnboxError_struct[zzB](b.(zzMakeIncS[zzB])) == e, "UnboxError_struct")
		zz.Reach("struct")
	}
}

func zzSame(x, y ErrorWithData_any) {
	v, ok := x.GetParameter("A")
	w, ok2 := y.GetParameter("A")
	zz.Assert(ok && ok2 && v == w && x.HasParameter("A") && !x.HasParameter("B"), "data of a box")
	u, ok3 := GetParameter(x, "A")
	zz.Assert(ok3 && u == v && len(GetData_map(x)) == 1, "data of a box, by function")
	zz.Assert(x.Error_interpolate(ParamMap{}) == y.Error_interpolate(ParamMap{}), "message with parameters")
	zz.Assert((x.ValidateError_Final() == nil) == (y.ValidateError_Final() == nil) && (x.ValidateError_Base() == nil) == (y.ValidateError_Base() == nil) && (x.ValidateSyntax() == nil) == (y.ValidateSyntax() == nil), "validation")
}

// Boxing keeps the interface asked for.
//
//zz:mode=bv bound=errors_of_both_kinds_over_3_bases reach=end
func ZZ_Interfaces() {
	e, boxes := zzErr("e")
	_, typed := e.(ErrorWithData[zzB])
	_, p := boxes[0].(ErrorWithData_any)
	_, a := boxes[1].(ErrorWithData_any)
	zz.Assert(!p && a, "only the _any version is an error with data")
	if typed {
		_, s := boxes[2].(ErrorWithData[zzB])
		_, t := boxes[1].(ErrorWithData[zzB])
		zz.Assert(s && !t, "only the _struct version has the struct type")
	}
	for _, b := range boxes {
		_, m := b.(IncomparableMaker)
		c, u := b.(ComparableMaker)
		zz.Assert(m && u && error(c.AsComparable()) == e, "boxes can be unboxed")
		zz.Assert(zz.Panics(func() { _ = b == b }), "boxes cannot be compared")
	}
	zz.Assert(zz.Panics(func() { MakeErrorIncomparable(nil) }) && UnboxError(nil) == nil, "nil")
	zz.Reach("end")
}

// Different errors are different even if they wrap the same error and say the same.
//
//zz:mode=bv bound=two_errors_of_2_kinds_each_over_the_same_(or_no)_base,_with_and_without_data,_all_ways_to_box reach=end
func ZZ_SameBase() {
	type none = struct{}
	base := []error{nil, &zzBase{"B"}, NewErrorWithData_any_params(nil, "m", ReplacePreviousData)}[zz.Choice("base", 3)]
	kinds := zz.Choice("kinds", 4)
	data := zz.Choice("data", 2)
	mk := func(typed bool) (error, []error) {
		var kv []any
		if data == 1 {
			kv = []any{"A", zz.U64("A")}
		}
		if !typed {
			x := NewErrorWithData_any_params(base, "m", ReplacePreviousData, kv...)
			return x, []error{x, MakeErrorIncomparable(x.(zzMakeInc)), MakeErrorIncomparable_any(x.(zzMakeInc))}
		}
		x := NewErrorWithData_params[none](base, "m", ReplacePreviousData, EnsureDataIsPresent, kv...)
		y := x.(zzMakeIncS[none])
		return x, []error{x, MakeErrorIncomparable(y), MakeErrorIncomparable_any(y), MakeErrorIncomparable_struct[none](y)}
	}
	_, es := mk(kinds&1 == 1)
	_, fs := mk(kinds&2 == 2)
	e, f := es[zz.Choice("e", len(es))], fs[zz.Choice("f", len(fs))]
	zz.Assert(!errors.Is(e, f) && !errors.Is(f, e), "different errors")
	zz.Assert(!errors.Is(fmt.Errorf("w: %w", e), f), "different errors below plain wrapping")
	if base != nil {
		zz.Assert(errors.Is(e, base) && errors.Is(f, base) && !errors.Is(base, e), "both wrap the base, not the other way round")
	}
	zz.Reach("end")
}
