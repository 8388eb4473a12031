package errorsWithData

import (
	"errors"
	"fmt"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// zzPairs is a list of at most max (name, value) pairs with arbitrary, possibly coinciding one-letter names and arbitrary values.
type zzPair struct {
	k string
	v any
}

func zzPairs(name string, max int) []zzPair {
	n := zz.Choice(name+"_len", max+1)
	r := make([]zzPair, n)
	for i := range r {
		r[i].k = zz.String(name+"_key", 1, "")
		switch zz.Choice(name+"_kind", 3) {
		case 0:
			r[i].v = zz.U64(name + "_val")
		case 1:
			r[i].v = zz.Bool(name + "_val")
		} // or nil
	}
	return r
}

// zzLookup is the last value stored under k.
func zzLookup(p []zzPair, k string) (v any, ok bool) {
	for i := range p {
		if p[i].k == k {
			v, ok = p[i].v, true
		}
	}
	return
}

func zzMap(p []zzPair) ParamMap {
	m := make(ParamMap)
	for i := range p {
		m[p[i].k] = p[i].v
	}
	return m
}

func zzVariadic(p []zzPair) []any {
	r := make([]any, 0, 2*len(p))
	for i := range p {
		r = append(r, p[i].k, p[i].v)
	}
	return r
}

// zzBaseErr wraps p in one of several kinds of errors: the error itself, a plain wrapper around it, a boxed error.
func zzBaseErr(p []zzPair) error {
	if len(p) == 0 && zz.Choice("plain", 2) == 1 {
		return &zzBase{"B"}
	}
	e := NewErrorWithData_any_map(nil, "E", ReplacePreviousData, zzMap(p))
	switch zz.Choice("wrap", 4) {
	case 1:
		return fmt.Errorf("wrapped: %w", fmt.Errorf("twice: %w", e))
	case 2:
		return MakeErrorIncomparable_any(e.(ewd_MakeIncomparable_any))
	case 3:
		return fmt.Errorf("wrapped: %w", NewErrorWithData_any_params(&zzBase{"B"}, "E", ReplacePreviousData, zzVariadic(p)...))
	}
	return e
}

var zzModes = []PreviousDataTreatment{ReplacePreviousData, PreferPreviousData, AssertDataIsNotReplaced, {}}

func zzHas(err error, q string, v any, ok bool, msg string) {
	w, present := GetParameter(err, q)
	zz.Assert(present == ok && HasParameter(err, q) == ok, msg+": presence")
	if ok {
		zz.Assert(w == v, msg+": value")
	} else {
		zz.Assert(w == nil, msg+": nil when absent")
	}
	m := GetData_map(err)
	x, in := m[q]
	zz.Assert(m != nil && in == ok && (!ok || x == v), msg+": parameter map")
	m[q] = "changed"
	w, present = GetParameter(err, q)
	zz.Assert(present == ok && (!ok || w == v), msg+": the returned map is a copy")
}

// A new error has its base's parameters merged with its own, in each mode and for each way to create it.
//
//zz:mode=bv bound=up_to_2_old_and_1_new_parameters_with_arbitrary_one-byte_names_and_arbitrary_values,_6_kinds_of_base,_4_modes,_4_constructors reach=panic,replaced,kept,fresh
func ZZ_Merge21() { zzMerge(2, 1) }

//zz:mode=bv bound=1_old_and_up_to_2_new_parameters_with_arbitrary_one-byte_names_and_arbitrary_values,_6_kinds_of_base,_4_modes,_4_constructors reach=panic,replaced,kept,fresh
func ZZ_Merge12() { zzMerge(1, 2) }

//zz:mode=bv tier=thorough bound=up_to_2_old_and_2_new_parameters_with_arbitrary_one-byte_names_and_arbitrary_values,_6_kinds_of_base,_4_modes,_4_constructors reach=panic,replaced,kept,fresh
func ZZ_Merge22() { zzMerge(2, 2) }

func zzMerge(nold, nnew int) {
	old := zzPairs("old", nold)
	base := zzBaseErr(old)
	add := zzPairs("new", nnew)
	mode := zz.Choice("mode", 4)
	var e ErrorWithData_any
	src := zzMap(add)
	p := zz.Panics(func() {
		switch zz.Choice("ctor", 4) {
		case 0:
			e = NewErrorWithData_any_map(base, "new", zzModes[mode], src)
		case 1:
			e = AddDataToError_any_map(base, zzModes[mode], src)
		case 2:
			e = NewErrorWithData_any_params(base, "", zzModes[mode], zzVariadic(add)...)
		case 3:
			e = AddDataToError_any_params(base, zzModes[mode], zzVariadic(add)...)
		}
	})
	conflict := false
	for k, v := range src {
		w, ok := zzLookup(old, k)
		if ok && w != v {
			conflict = true
		}
	}
	zz.Assert(p == (mode == 3 || mode == 2 && conflict), "panics exactly for an invalid mode or, if asked to, for contradicting data")
	q := zz.String("q", 1, "")
	ov, ook := zzLookup(old, q)
	zzHas(base, q, ov, ook, "base")
	if p {
		zz.Reach("panic")
		return
	}
	src[q] = "changed" // the caller's map is not shared
	nv, nok := zzLookup(add, q)
	v, ok := ov, ook
	if nok && (!ook || mode == 0) {
		v, ok = nv, true
		if ook {
			zz.Reach("replaced")
		} else {
			zz.Reach("fresh")
		}
	} else if nok {
		zz.Reach("kept")
	}
	zzHas(e, q, v, ok, "new error")
	zz.Assert(errors.Is(e, base) && errors.Unwrap(e) == UnboxError(base), "the base is wrapped")
}

// Deleting a parameter hides it in the new error only.
//
//zz:mode=bv bound=up_to_2_parameters_with_arbitrary_one-byte_names_and_arbitrary_values,_6_kinds_of_base reach=deleted,other,readded
func ZZ_Delete() {
	old := zzPairs("old", 2)
	base := zzBaseErr(old)
	d := zz.String("d", 1, "")
	q := zz.String("q", 1, "")
	var e ErrorWithData_any
	if zz.Choice("typed", 2) == 0 {
		e = DeleteParameterFromError_any(base, d)
	} else {
		e = DeleteParameterFromError[struct{}](base, d, EnsureDataIsPresent)
	}
	ov, ook := zzLookup(old, q)
	zzHas(base, q, ov, ook, "base")
	if q == d {
		zzHas(e, q, nil, false, "deleted")
		zz.Reach("deleted")
	} else {
		zzHas(e, q, ov, ook, "not deleted")
		zz.Reach("other")
	}
	f := fmt.Errorf("outer %w", e)
	v, ok := GetParameter(f, q)
	zz.Assert(ok == (ook && q != d) && (!ok || v == ov), "deletion seen through wrapping")
	g := AddDataToError_any_params(f, PreferPreviousData, d, uint64(5))
	v, ok = GetParameter(g, d)
	zz.Assert(ok && v == uint64(5), "a deleted parameter can be added again")
	zz.Assert(errors.Is(g, base) && errors.Is(e, base), "the base is wrapped")
	zz.Assert(e.Error() == UnboxError(base).Error(), "same message")
	zz.Reach("readded")
}

// nil stays nil; constructors with nothing to say panic.
//
//zz:mode=bv bound=all_constructors_on_the_nil_error reach=end
func ZZ_Nil() {
	k := zz.String("k", 1, "")
	v := zz.U64("v")
	mode := zzModes[zz.Choice("mode", 3)]
	type S struct{ A uint64 }
	s := S{v}
	zz.Assert(AddDataToError_any_params(nil, mode, k, v) == nil, "AddDataToError_any_params")
	zz.Assert(AddDataToError_any_map(nil, mode, ParamMap{k: v}) == nil, "AddDataToError_any_map")
	zz.Assert(AddDataToError_params[S](nil, mode, EnsureDataIsPresent, k, v) == nil, "AddDataToError_params")
	zz.Assert(AddDataToError_map[S](nil, mode, EnsureDataIsPresent, ParamMap{k: v}) == nil, "AddDataToError_map")
	zz.Assert(AddDataToError_struct(nil, &s, mode) == nil, "AddDataToError_struct")
	zz.Assert(DeleteParameterFromError_any(nil, k) == nil, "DeleteParameterFromError_any")
	zz.Assert(DeleteParameterFromError[S](nil, k, EnsureDataIsPresent) == nil, "DeleteParameterFromError")
	c, ok := AsErrorWithData[S](nil, EnsureDataIsPresent)
	zz.Assert(c == nil && ok, "AsErrorWithData")
	zz.Assert(!HasParameter(nil, k) && len(GetData_map(nil)) == 0 && GetData_map(nil) != nil, "nil has no data")
	x, ok := GetParameter(nil, k)
	zz.Assert(x == nil && !ok, "nil has no parameter")
	zz.Assert(zz.Panics(func() { NewErrorWithData_any_params(nil, "", mode, k, v) }), "NewErrorWithData_any_params")
	zz.Assert(zz.Panics(func() { NewErrorWithData_any_map(nil, "", mode, ParamMap{k: v}) }), "NewErrorWithData_any_map")
	zz.Assert(zz.Panics(func() { NewErrorWithData_struct(nil, "", &s, mode) }), "NewErrorWithData_struct")
	zz.Assert(zz.Panics(func() { NewErrorWithData_any_params(nil, "x", mode, k) }), "odd number of arguments")
	zz.Assert(zz.Panics(func() { NewErrorWithData_any_params(nil, "x", mode, v, k) }), "names must be strings")
	zz.Assert(zz.Panics(func() { NewErrorWithData_any_params(nil, "x", mode, k, v, 1, 2) }), "all names must be strings")
	e := NewErrorWithData_any_map(nil, "x", mode, nil)
	zz.Assert(errors.Unwrap(e) == nil && len(e.GetData_map()) == 0, "no base, no data")
	zz.Reach("end")
}

// The methods of an error agree with the free functions, also for errors with a struct type.
//
//zz:mode=bv bound=up_to_2_parameters_with_arbitrary_one-byte_names_and_arbitrary_values reach=end
func ZZ_Methods() {
	p := zzPairs("p", 2)
	q := zz.String("q", 1, "")
	v, ok := zzLookup(p, q)
	e := NewErrorWithData_any_params(nil, "x", ReplacePreviousData, zzVariadic(p)...)
	t := NewErrorWithData_map[struct{}](nil, "x", ReplacePreviousData, EnsureDataIsPresent, zzMap(p))
	for _, x := range []ErrorWithData_any{e, t} {
		w, present := x.GetParameter(q)
		m := x.GetData_map()
		y, in := m[q]
		zz.Assert(present == ok && x.HasParameter(q) == ok && in == ok && (!ok || w == v && y == v), "methods")
		m[q] = 1
		w, present = x.GetParameter(q)
		zz.Assert(present == ok && (!ok || w == v), "the map is a copy")
		zzHas(x, q, v, ok, "functions")
	}
	zz.Reach("end")
}

type zzD struct{ A uint64 }

// Constructors for errors with a struct type: in each mode, with each kind of base and with or without a message.
//
//zz:mode=bv bound=up_to_1_old_parameter_with_arbitrary_one-byte_name_and_arbitrary_value,_an_arbitrary_new_value_of_the_struct,_6_kinds_of_base,_3_modes,_4_constructors,_2_messages reach=panic,ok
func ZZ_MergeStruct() {
	old := zzPairs("old", 1)
	base := zzBaseErr(old)
	a := zz.U64("a")
	mode := zz.Choice("mode", 3)
	msg := []string{"", "new"}[zz.Choice("msg", 2)]
	ov, ook := zzLookup(old, "A")
	v := any(a)
	_, fits := ov.(uint64)
	if ook && mode == 1 {
		v = ov
	}
	var e ErrorWithData[zzD]
	p := zz.Panics(func() {
		switch zz.Choice("ctor", 4) {
		case 0:
			e = NewErrorWithData_struct(base, msg, &zzD{a}, zzModes[mode])
		case 1:
			e = AddDataToError_struct(base, &zzD{a}, zzModes[mode])
		case 2:
			e = NewErrorWithData_map[zzD](base, msg, zzModes[mode], EnsureDataIsPresent, ParamMap{"A": a})
		case 3:
			e = NewErrorWithData_params[zzD](base, msg, zzModes[mode], EnsureDataIsPresent, "A", a)
		}
	})
	zz.Assert(p == (mode == 2 && ook && ov != any(a) || mode == 1 && ook && !fits), "panics exactly for contradicting data or data of the wrong type")
	q := zz.String("q", 1, "")
	bv, bok := zzLookup(old, q)
	zzHas(base, q, bv, bok, "base")
	if p {
		zz.Reach("panic")
		return
	}
	if q == "A" {
		bv, bok = v, true
	}
	zzHas(e, q, bv, bok, "new error")
	zz.Assert(any(e.GetData_struct().A) == v, "struct data")
	zz.Assert(errors.Is(e, base) && errors.Unwrap(e) == UnboxError(base), "the base is wrapped, unboxed")
	zz.Reach("ok")
}
