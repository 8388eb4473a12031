package errorsWithData

import (
	"errors"
	"fmt"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

type zzInnerS struct {
	A uint64
	B bool
}

type zzPtrT *uint64

// zzS has a promoted field A, a shadowed field B, fields of interface and pointer type.
type zzS struct {
	zzInnerS
	B string
	I fmt.Stringer
	P *uint64
	X any
}

type zzStr uint64

func (z zzStr) String() string { return "zzStr" }

type zzSub struct {
	A uint64
	B string
}

// Data written as a struct is read back as the same struct, as its fields and as any sub-struct.
//
//zz:mode=bv bound=all_values_of_a_struct_with_promoted,_shadowed,_interface_and_pointer_fields;_old_data_for_one_arbitrary_field,_4_modes reach=panic,kept,replaced,plain
func ZZ_RoundTrip() {
	w := zz.U64("pointee")
	s := zzS{zzInnerS: zzInnerS{A: zz.U64("A"), B: zz.Bool("shadowed")}, B: zz.String("B", 2, "")}
	switch zz.Choice("I", 2) {
	case 1:
		s.I = zzStr(zz.U64("I"))
	}
	if zz.Choice("P", 2) == 1 {
		s.P = &w
	}
	switch zz.Choice("X", 4) {
	case 1:
		s.X = zz.U64("X")
	case 2:
		s.X = s.P
	case 3:
		s.X = zz.String("X", 1, "")
	}
	base := error(&zzBase{"B"})
	mode := zz.Choice("mode", 4)
	name := ""
	var old any
	switch zz.Choice("old", 4) {
	case 1:
		name, old = "A", zz.U64("oldA")
	case 2:
		name, old = "B", zz.String("oldB", 2, "")
	case 3:
		name, old = "X", nil
	}
	if name != "" {
		base = NewErrorWithData_any_params(base, "", ReplacePreviousData, name, old, "Q", 7)
	}
	var new any
	switch name {
	case "A":
		new = s.A
	case "B":
		new = s.B
	case "X":
		new = s.X
	}
	var e ErrorWithData[zzS]
	ctor := zz.Choice("ctor", 3)
	p := zz.Panics(func() {
		m := []PreviousDataTreatment{ReplacePreviousData, PreferPreviousData, AssertDataIsNotReplaced, {}}[mode]
		switch ctor {
		case 0:
			e = NewErrorWithData_struct(base, "", &s, m)
		case 1:
			e = AddDataToError_struct(base, &s, m)
		case 2:
			e = NewErrorWithData_map[zzS](base, "n", m, EnsureDataIsPresent, ParamMap{"A": s.A, "B": s.B, "I": s.I, "P": s.P, "X": s.X})
		}
	})
	zz.Assert(p == (mode == 3 || mode == 2 && name != "" && old != new), "panics exactly for an invalid mode or, if asked to, for contradicting data")
	if p {
		zz.Reach("panic")
		return
	}
	x := s
	if name != "" && mode == 1 {
		switch name {
		case "A":
			x.A = old.(uint64)
		case "B":
			x.B = old.(string)
		case "X":
			x.X = nil
		}
		zz.Reach("kept")
	} else if name != "" {
		zz.Reach("replaced")
	} else {
		zz.Reach("plain")
	}
	d := e.GetData_struct()
	f := GetData_struct[zzS](fmt.Errorf("outer: %w", e), EnsureDataIsPresent)
	for _, g := range []zzS{d, f} {
		zz.Assert(g.A == x.A && g.B == x.B && g.I == x.I && g.P == x.P && g.X == x.X, "the struct is read back")
	}
	sub := GetData_struct[zzSub](e, EnsureDataIsPresent)
	zz.Assert(sub.A == x.A && sub.B == x.B && HasData[zzSub](e) && HasData[zzS](e), "and every sub-struct")
	m := e.GetData_map()
	n := 5
	if name != "" {
		n = 6
	}
	zz.Assert(len(m) == n && m["A"] == any(x.A) && m["B"] == any(x.B) && m["X"] == x.X && m["P"] == any(x.P), "and as a map")
	if s.I != nil {
		zz.Assert(m["I"] == any(s.I), "interface values keep their dynamic type")
	}
	zz.Assert(errors.Is(e, base), "the base is wrapped")
}

type zzT struct {
	A uint64
	I fmt.Stringer
	P *uint64
}

// zzValue is one of several values, of the right type for some of the fields only.
func zzValue(name string) (v any, okA, okI, okP bool) {
	switch zz.Choice(name, 8) {
	case 0:
		return zz.U64(name), true, false, false
	case 1:
		return zzStr(zz.U64(name)), false, true, false
	case 2:
		x := zz.U64(name)
		return &x, false, false, true
	case 3:
		return nil, false, true, true
	case 4:
		return zz.U32(name), false, false, false
	case 5:
		return zz.String(name, 1, ""), false, false, false
	case 6:
		return (*uint64)(nil), false, false, true
	}
	return zzPtrT(nil), false, false, false
}

// Data that does not fit is rejected, data that is missing is rejected or zero, as asked.
//
//zz:mode=bv bound=three_parameters,_each_missing_or_one_of_8_kinds_of_value,_both_treatments_of_missing_data reach=wrong,missing,zero,ok
func ZZ_FromMap() {
	m := ParamMap{}
	wrong, missing := false, false
	var want zzT
	var names = []string{"A", "I", "P"}
	for i, n := range names {
		if zz.Choice(n+"_present", 2) == 0 {
			missing = true
			continue
		}
		v, a, b, c := zzValue(n)
		m[n] = v
		if !([]bool{a, b, c})[i] {
			wrong = true
			continue
		}
		switch i {
		case 0:
			want.A = v.(uint64)
		case 1:
			want.I, _ = v.(fmt.Stringer)
		case 2:
			want.P, _ = v.(*uint64)
		}
	}
	e := NewErrorWithData_any_map(&zzBase{"B"}, "", ReplacePreviousData, m)
	zero := zz.Choice("zero", 2) == 1
	miss := EnsureDataIsPresent
	if zero {
		miss = MissingDataAsZero
	}
	bad := wrong || missing && !zero
	zz.Assert(HasData[zzT](e) == !(wrong || missing), "HasData tells whether all fields are there with the right types")
	var s1, s2, s3, s4 zzT
	var c1, c2 ErrorWithData[zzT]
	var c3 ErrorWithData[zzT]
	p1 := zz.Panics(func() { s1 = GetData_struct[zzT](e, miss) })
	p2 := zz.Panics(func() { c1 = NewErrorWithData_map[zzT](nil, "x", ReplacePreviousData, miss, m); s2 = c1.GetData_struct() })
	p3 := zz.Panics(func() { c2 = AddDataToError_params[zzT](e, PreferPreviousData, miss); s3 = c2.GetData_struct() })
	p4 := zz.Panics(func() { c3 = DeleteParameterFromError[zzT](e, "nosuchparameter", miss); s4 = c3.GetData_struct() })
	zz.Assert(p1 == bad && p2 == bad && p3 == bad && p4 == bad, "panics exactly if the data is wrong, or missing and required")
	if bad {
		if wrong {
			zz.Reach("wrong")
		} else {
			zz.Reach("missing")
		}
		return
	}
	c4, ok := AsErrorWithData[zzT](e, miss)
	zz.Assert(ok, "AsErrorWithData succeeds")
	s5 := c4.GetData_struct()
	for _, s := range []zzT{s1, s2, s3, s4, s5} {
		zz.Assert(s.A == want.A && s.I == want.I && s.P == want.P, "the fields have the values given, zero if missing")
	}
	for _, c := range []ErrorWithData[zzT]{c1, c2, c3, c4} {
		zz.Assert(c.HasParameter("A") && c.HasParameter("I") && c.HasParameter("P") && HasData[zzT](c), "all fields are now parameters")
	}
	_, in := m["A"]
	zz.Assert(e.HasParameter("A") == in, "the base is unchanged")
	zz.Assert(c2.Error() == "B" && c3.Error() == "B" && c4.Error() == "B", "same message")
	if missing {
		zz.Reach("zero")
	} else {
		zz.Reach("ok")
	}
}

// AsErrorWithData reports exactly the data that is wrong, or missing and required.
//
//zz:mode=bv bound=three_parameters,_each_missing_or_one_of_5_values,_both_treatments_of_missing_data reach=bad,ok,nil
func ZZ_As() {
	if zz.Choice("nil", 2) == 1 {
		c, ok := AsErrorWithData[zzT](nil, EnsureDataIsPresent)
		zz.Assert(ok && c == nil, "nil stays nil")
		zz.Reach("nil")
		return
	}
	m := ParamMap{}
	wrong, missing := false, false
	fits := [][]bool{{true, false, false}, {false, true, false}, {false, true, true}, {false, false, false}, {false, false, true}}
	for i, n := range []string{"A", "I", "P"} {
		c := zz.Choice(n, 6)
		if c == 5 {
			missing = true
			continue
		}
		m[n] = []any{uint64(3), zzStr(4), nil, uint32(5), (*uint64)(nil)}[c]
		wrong = wrong || !fits[c][i]
	}
	e := NewErrorWithData_any_map(&zzBase{"B"}, "", ReplacePreviousData, m)
	zero := zz.Choice("zero", 2) == 1
	miss := EnsureDataIsPresent
	if zero {
		miss = MissingDataAsZero
	}
	c, ok := AsErrorWithData[zzT](e, miss)
	zz.Assert(ok == !(wrong || missing && !zero), "success exactly if the data fits")
	if !ok {
		zz.Reach("bad")
		return
	}
	s := c.GetData_struct()
	a, _ := m["A"].(uint64)
	i, _ := m["I"].(fmt.Stringer)
	p, _ := m["P"].(*uint64)
	zz.Assert(s.A == a && s.I == i && s.P == p && c.Error() == "B" && HasData[zzT](c), "with the data")
	zz.Assert(len(e.GetData_map()) == len(m), "the argument is unchanged")
	zz.Reach("ok")
}

// Deleting a field that the struct type needs.
//
//zz:mode=bv bound=all_values_of_a_two-field_struct,_4_names reach=zeroed,panic,same
func ZZ_DeleteField() {
	s := zzSub{zz.U64("A"), zz.String("B", 1, "")}
	e := NewErrorWithData_struct(nil, "x", &s)
	name := []string{"A", "B", "C", ""}[zz.Choice("name", 4)]
	z := DeleteParameterFromError[zzSub](e, name, MissingDataAsZero)
	w := s
	if name == "A" {
		w.A = 0
	}
	if name == "B" {
		w.B = ""
	}
	zz.Assert(z.GetData_struct() == w && e.GetData_struct() == s, "the deleted field is zero, the others and the base unchanged")
	p := zz.Panics(func() { DeleteParameterFromError[zzSub](e, name, EnsureDataIsPresent) })
	zz.Assert(p == (name == "A" || name == "B"), "a required field cannot be deleted")
	switch {
	case p:
		zz.Reach("panic")
		zz.Reach("zeroed")
	default:
		zz.Reach("same")
	}
}

type (
	zzD1 struct{ A int }
	zzD2 struct{ zzD1 }
	zzD3 struct {
		zzD1
		zzD2
	} // A through two paths
	zzD4 struct {
		zzD1
		zzD2
		A string
	} // A of its own
	zzD5 struct{ a int }
	zzD6 struct {
		*zzD1
		B int
	}
	zzD7 struct {
		X struct{ a int }
	} // not embedded: the field's own fields do not matter
	zzD8 struct {
		A, B int
		zzE
	}
	zzE  struct{ zzE2 }
	zzE2 struct{ C, A bool }
	zzD9 struct {
		zzD1
		zzF
	} // A ambiguous at the same depth
	zzF struct{ A string }
	zzG1 struct {
		zzD1
		zzH1
	} // A ambiguous within an embedded struct only
	zzH1 struct{ zzH2 }
	zzH2 struct{ A int }
	zzG2 struct {
		B int
		zzG1
	}
	zzG3 struct {
		zzG1
		A string
	} // resolved further up
	zzG4 struct {
		zzG3
		zzI
	} // A on two incomparable paths although one is shallower
	zzI  struct{ zzI2 }
	zzI2 struct{ zzI3 }
	zzI3 struct{ A bool }
	zzG5 struct {
		zzJ
		C int
	}
	zzJ struct {
		zzK
		A, B int
	}
	zzK struct {
		B string
		D int
		zzL
	}
	zzL  struct{ A, D, E int }
	zzG6 struct{ *zzL }
	zzG7 struct{ zzG5; x int }
	zzG8 struct{ zzG5; error }
	zzG9 struct{ zzG5; fmt.Stringer }
)

func zzSuit[T any](ok bool, msg string, fields ...string) {
	for i := 0; i < 2; i++ { // the second time from the cache
		zz.Assert((StructSuitableForErrorsWithData[T]() == nil) == ok, msg)
	}
	zz.Assert(zz.Panics(func() { CheckParametersForStruct_all[T](fields) }) == !ok, msg+": exactly these fields")
	var d T
	if !ok {
		zz.Assert(zz.Panics(func() { NewErrorWithData_struct(nil, "x", &d) }), msg+": rejected as a struct type")
		return
	}
	if len(fields) > 0 {
		i := zz.Choice("field", len(fields))
		n := zz.String("name", len(fields[i]), "")
		found := false
		for _, f := range fields {
			if f == n {
				found = true
			}
		}
		zz.Assert(zz.Panics(func() { CheckParameterForStruct[T](n) }) == !found, msg+": field lookup")
		e := NewErrorWithData_struct(nil, "x", &d)
		zz.Assert(e.HasParameter(n) == found && len(e.GetData_map()) == len(fields), msg+": parameters")
		other := append([]string{}, fields...)
		other[i] = n
		zz.Assert(zz.Panics(func() { CheckParametersForStruct_all[T](other) }) == (n != fields[i]), msg+": any other list is rejected")
		zz.Assert(zz.Panics(func() { CheckParametersForStruct_all[T](append(append([]string{}, fields...), n)) }), msg+": a longer list is rejected")
		zz.Assert(zz.Panics(func() { CheckParametersForStruct_all[T](append(append([]string{}, fields[:i]...), fields[i+1:]...)) }), msg+": a shorter list is rejected")
	}
}

// Which types are allowed, and what their parameters are called.
//
//zz:mode=bv bound=30_types,_arbitrary_field_names_of_the_right_length reach=end
func ZZ_Suitable() {
	switch zz.Choice("type", 30) {
	case 0:
		zzSuit[zzD1](true, "plain", "A")
	case 1:
		zzSuit[zzD2](true, "promoted", "A")
	case 2:
		zzSuit[zzD3](false, "promoted along two paths", "A")
	case 3:
		zzSuit[zzD4](true, "shadowing everything", "A")
	case 4:
		zzSuit[zzD5](false, "unexported", "a")
	case 5:
		zzSuit[zzD6](false, "embedded pointer to struct", "A", "B")
	case 6:
		zzSuit[zzD7](true, "field of struct type", "X")
	case 7:
		zzSuit[zzD8](true, "shadowed deeply", "A", "B", "C")
	case 8:
		zzSuit[zzD9](false, "ambiguous", "A")
	case 9:
		zzSuit[int](false, "not a struct")
	case 10:
		zzSuit[*zzD1](false, "pointer", "A")
	case 11:
		zzSuit[struct{}](true, "empty")
	case 12:
		zzSuit[zzS](true, "everything", "A", "B", "I", "P", "X")
	case 13:
		zzSuit[zzG1](false, "two depths")
	case 14:
		zzSuit[zzG2](false, "two depths within an embedded struct", "A", "B")
	case 15:
		zzSuit[zzG3](true, "two depths, resolved", "A")
	case 16:
		zzSuit[zzG4](false, "resolved, but shadowing another path", "A")
	case 17:
		zzSuit[zzG5](true, "three levels", "A", "B", "C", "D", "E")
	case 18:
		zzSuit[zzG6](false, "embedded unexported pointer", "A", "D", "E")
	case 19:
		zzSuit[zzG7](false, "unexported beside promoted", "A", "B", "C", "D", "E")
	case 20:
		zzSuit[zzG8](false, "embedded unexported interface", "A", "B", "C", "D", "E")
	case 21:
		zzSuit[zzG9](true, "embedded interface", "A", "B", "C", "D", "E", "Stringer")
	case 22:
		zzSuit[zzJ1](false, "embedded exported pointer to struct", "B")
	case 23:
		zzSuit[zzJ2](false, "embedded exported pointer to struct within an embedded struct", "B", "C")
	case 24:
		zzSuit[zzJ3](true, "embedded pointer to something else", "C", "ZZNumber")
	case 25:
		zzSuit[zzJ4](false, "shadowed embedded pointer to struct", "C", "ZZExported")
	case 26:
		zzSuit[zzK5](false, "paths that separate late", "A")
	case 27:
		zzSuit[zzK6](true, "a deep path that stays together", "A", "B")
	case 28:
		zzSuit[zzK7](false, "embedded pointer beside an embedded struct", "A", "B")
	case 29:
		zzSuit[zzK9](false, "separated late, found in the other order", "A")
	}
	zz.Reach("end")
}

// CheckIsSubtype compares the names of the fields.
//
//zz:mode=bv bound=8_pairs_of_types reach=end
func ZZ_Subtype() {
	c := func(ok bool, f func(), msg string) { zz.Assert(zz.Panics(f) == !ok, msg) }
	c(true, CheckIsSubtype[zzSub, zzS], "fewer fields")
	c(false, CheckIsSubtype[zzS, zzSub], "more fields")
	c(true, CheckIsSubtype[zzD1, zzD8], "types do not matter")
	c(true, CheckIsSubtype[struct{}, zzS], "empty")
	c(true, CheckIsSubtype[zzS, zzS], "equal")
	c(false, CheckIsSubtype[zzT, zzSub], "partly different")
	c(false, CheckIsSubtype[zzD5, zzS], "invalid first")
	c(false, CheckIsSubtype[zzSub, zzD5], "invalid second")
	zz.Reach("end")
}

type zzNilable struct {
	A any
	E error
	F func(uint64) uint64
	L []uint64
	M map[string]uint64
	P *uint64
	T zzPtrT
}

type zzFixed struct {
	B bool
	U uint64
	S string
	Q zzSub
	R [2]uint64
}

// nil is a value for the fields that can be nil, whatever their kind, and for no others.
//
//zz:mode=bv bound=structs_with_7_fields_that_can_be_nil_and_5_that_cannot,_nil_for_any_one_of_them_(untyped_or_of_a_foreign_type) reach=ok,bad
func ZZ_NilFields() {
	u := zz.U64("u")
	m := ParamMap{"A": u, "E": &zzBase{"E"}, "F": func(x uint64) uint64 { return x + u }, "L": []uint64{u}, "M": map[string]uint64{"k": u}, "P": &u, "T": zzPtrT(&u)}
	names := []string{"A", "E", "F", "L", "M", "P", "T", ""}
	n := names[zz.Choice("name", 8)]
	foreign := zz.Choice("foreign", 2) == 1
	if n != "" {
		m[n] = nil
		if foreign {
			m[n] = (*bool)(nil)
		}
	}
	bad := foreign && n != "" && n != "A"
	var s zzNilable
	e := NewErrorWithData_any_map(nil, "x", ReplacePreviousData, m)
	p := zz.Panics(func() { s = GetData_struct[zzNilable](e, EnsureDataIsPresent) })
	q := zz.Panics(func() { NewErrorWithData_map[zzNilable](nil, "x", ReplacePreviousData, EnsureDataIsPresent, m) })
	zz.Assert(p == bad && q == bad && HasData[zzNilable](e) == !bad, "nil fits exactly the fields that can be nil")
	if !bad {
		zz.Assert((s.A == nil) == (n == "A" && !foreign) && (s.E == nil) == (n == "E") && (s.F == nil) == (n == "F") && (s.L == nil) == (n == "L") && (s.M == nil) == (n == "M") && (s.P == nil) == (n == "P") && (s.T == nil) == (n == "T"), "nil where given, the values elsewhere")
		zz.Assert((n == "F" || s.F(1) == u+1) && (n == "L" || len(s.L) == 1 && s.L[0] == u) && (n == "M" || s.M["k"] == u) && (n == "P" || s.P == &u), "values of the other fields")
	}
	f := ParamMap{"B": zz.Bool("b"), "U": u, "S": zz.String("s", 1, ""), "Q": zzSub{A: u}, "R": [2]uint64{u, 1}}
	fn := []string{"B", "U", "S", "Q", "R", ""}[zz.Choice("fixed", 6)]
	if fn != "" {
		f[fn] = nil
	}
	e = NewErrorWithData_any_map(nil, "x", ReplacePreviousData, f)
	var t zzFixed
	zero := zz.Choice("zero", 2) == 1
	miss := EnsureDataIsPresent
	if zero {
		miss = MissingDataAsZero
	}
	p = zz.Panics(func() { t = GetData_struct[zzFixed](e, miss) })
	zz.Assert(p == (fn != "") && HasData[zzFixed](e) == !p, "nil does not fit other fields, even if missing data was fine")
	if p {
		zz.Reach("bad")
		return
	}
	zz.Assert(t.U == u && t.Q.A == u && t.R == [2]uint64{u, 1} && any(t.B) == f["B"] && any(t.S) == f["S"], "values")
	zz.Reach("ok")
}

type ZZExported struct{ A int }
type ZZNumber int
type zzJ1 struct {
	*ZZExported
	B int
}
type zzJ2 struct {
	zzJ1
	C int
}
type zzJ3 struct {
	*ZZNumber
	C int
}
type zzJ4 struct {
	zzJ5
	ZZExported int
}
type zzJ5 struct{ *ZZExported }

type ZZK1 struct{ A int }
type ZZK2 struct{ ZZK1 }
type ZZK3 struct{ ZZK2 }
type zzK4 struct {
	ZZK1
	ZZK3
}
type zzK5a struct{ zzK4 }
type zzK5b struct{ zzK5a }
type zzK5 struct{ zzK5b }
type zzK6a struct {
	A int
	ZZK3
}
type zzK6b struct{ zzK6a }
type zzK6 struct {
	zzK6b
	B int
}
type zzK7 struct {
	*ZZK1
	ZZExported2
}
type ZZExported2 struct{ B int }
type zzK8 struct {
	ZZK3
	ZZK1
}
type zzK9a struct{ zzK8 }
type zzK9b struct{ zzK9a }
type zzK9c struct{ zzK9b }
type zzK9 struct{ zzK9c }
