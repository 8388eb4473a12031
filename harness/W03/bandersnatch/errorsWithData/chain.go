package errorsWithData

import (
	"errors"
	"fmt"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// zzMake creates an error wrapping base and its description.
func zzMake(base error, spec *zzSpec, s string, kv []any) (ErrorWithData_any, *zzSpec) {
	e := NewErrorWithData_any_params(base, s, ReplacePreviousData, kv...)
	n := &zzSpec{s: s, base: base, spec: spec, params: map[string]any{}}
	if spec != nil {
		for k, v := range spec.params {
			n.params[k] = v
		}
	}
	for i := 0; i < len(kv); i += 2 {
		n.params[kv[i].(string)] = kv[i+1]
	}
	if s == "" {
		n.s = "%w"
		if spec != nil {
			n.s = "$w"
		}
	}
	return e, n
}

// zzVerify compares message and validations of an error with the reference reading of its whole chain.
func zzVerify(e ErrorWithData_any, n *zzSpec) {
	r := zzRef{s: n.s, direct: n.params, passed: n.params, base: n.base, spec: n.spec}
	r.seq(0, true)
	zz.Assert((e.ValidateSyntax() != nil) == (r.perr || r.serr), "ValidateSyntax is about the error's own string")
	fin, bas := e.ValidateError_Final(), e.ValidateError_Base()
	zz.Assert((e.ValidateError_Params(nil) != nil) == (fin != nil), "nil parameters are the error's own")
	zz.Assert((e.ValidateError_Params(e.GetData_map()) != nil) == (fin != nil), "and so are the error's own parameters passed explicitly")
	zz.Assert(errors.Unwrap(e) == n.base, "the base is wrapped")
	bad := r.perr || r.serr || r.subsyn
	zz.Assert((fin != nil) == (bad || r.missing), "ValidateError_Final reports exactly the errors whose message cannot be rendered")
	if bad || r.mdirect {
		// a syntax error anywhere in the chain the message is made of
		zz.Assert(bas != nil, "ValidateError_Base reports what no passed parameter can repair")
	} else if !r.dcond {
		zz.Assert(bas == nil, "ValidateError_Base accepts what a passed parameter can repair")
	}
	out := e.Error()
	if bad {
		zz.Reach("bad")
		return
	}
	if r.missing {
		zz.Reach("missing")
		return
	}
	zz.Assert(out == r.out, "the message of the chain")
	zz.Reach("ok")
}

func zzKV(name string) []any {
	switch zz.Choice(name, 3) {
	case 1:
		return []any{"F", zz.String(name+"_v", 1, "vw%")}
	case 2:
		return []any{"G", "g"}
	}
	return nil
}

var zzInner = []string{"", "%{F}", "${F}", "a$!m>0{%{G}}", "%!m>0{${G}}", "$!m=0{n}%w", "${!m}", "%{0}", "$w", "{"}
var zzOuter = []string{"", "%w", "$w", "%{F}-$w", "%!m>0{$w}", "$!m=0{%w}", "%!m=0{$w}%{G}", "$w|%w"}

//zz:mode=bv bound=chains_of_2_errors_over_a_plain_one,_10x8_interpolation_strings,_3x3_parameter_sets reach=bad,missing,ok
func ZZ_Chain2() {
	b := &zzBase{"B"}
	e1, n1 := zzMake(b, nil, zzInner[zz.Choice("inner", len(zzInner))], zzKV("p1"))
	e2, n2 := zzMake(e1, n1, zzOuter[zz.Choice("outer", len(zzOuter))], zzKV("p2"))
	zzVerify(e2, n2)
	zzVerify(e1, n1) // the base is unaffected by having been wrapped
}

// As above with something between the two errors: a plain wrapper, a box or a deleted parameter.
//
//zz:mode=bv bound=chains_of_2_errors_with_a_plain_wrapper,_one_of_3_boxes_or_the_deletion_of_a_parameter_in_between,_10x8_interpolation_strings,_3x3_parameter_sets reach=bad,missing,ok
func ZZ_ChainMixed() {
	b := &zzBase{"B"}
	e1, n1 := zzMake(b, nil, zzInner[zz.Choice("inner", len(zzInner))], zzKV("p1"))
	between := zz.Choice("between", 5)
	outer := zzOuter[zz.Choice("outer", len(zzOuter))]
	kv := zzKV("p2")
	var mid error
	var e2 ErrorWithData_any
	var n2 *zzSpec
	switch between {
	case 0:
		mid = fmt.Errorf("p(%w)", e1)
		e2, n2 = zzMake(mid, nil, outer, kv)
		for k, v := range n1.params {
			if _, ok := n2.params[k]; !ok {
				n2.params[k] = v
			}
		}
	case 1, 2, 3:
		// wrapping a box is wrapping what is in it
		switch between {
		case 1:
			mid = MakeErrorIncomparable(e1.(ewd_MakeIncomparable_any))
		case 2:
			mid = MakeErrorIncomparable_any(e1.(ewd_MakeIncomparable_any))
		case 3:
			mid = MakeErrorIncomparable(MakeErrorIncomparable_any(e1.(ewd_MakeIncomparable_any)))
		}
		e2, n2 = zzMake(mid, n1, outer, kv)
		n2.base = e1
	case 4:
		x := DeleteParameterFromError_any(e1, "F")
		n := &zzSpec{s: "$w", base: e1, spec: n1, params: map[string]any{}}
		for k, v := range n1.params {
			if k != "F" {
				n.params[k] = v
			}
		}
		zzVerify(x, n)
		mid = x
		e2, n2 = zzMake(x, n, outer, kv)
	}
	zzVerify(e2, n2)
	zzVerify(e1, n1)
}

//zz:mode=bv bound=chains_of_3_errors_over_a_plain_one reach=bad,missing,ok
func ZZ_Chain3() {
	b := &zzBase{"B"}
	e1, n1 := zzMake(b, nil, zzInner[zz.Choice("inner", len(zzInner))], zzKV("p1"))
	e2, n2 := zzMake(e1, n1, zzOuter[zz.Choice("middle", len(zzOuter))], zzKV("p2"))
	e3, n3 := zzMake(e2, n2, zzOuter[zz.Choice("outer", len(zzOuter))], zzKV("p3"))
	zzVerify(e3, n3)
}

//zz:mode=bv bound=outer_strings_of_3_arbitrary_bytes_of_the_alphabet_over_an_inner_error_with_a_$-reference reach=bad,missing,ok
func ZZ_Outer3() {
	e1, n1 := zzMake(nil, nil, "i${F}", nil)
	e2, n2 := zzMake(e1, n1, zz.String("s", 3, "%$w!{}x"), zzKV("p2"))
	zzVerify(e2, n2)
}

//zz:mode=bv bound=inner_strings_of_4_arbitrary_bytes_of_the_alphabet_under_$w_or_%w reach=bad,missing,ok
func ZZ_Inner4() {
	e1, n1 := zzMake(nil, nil, zz.String("s", 4, "%$w!{}F"), nil)
	e2, n2 := zzMake(e1, n1, zzOuter[1+zz.Choice("outer", 2)], []any{"F", "v"})
	zzVerify(e2, n2)
}

// Parameters passed explicitly replace the error's own in $-references only.
//
//zz:mode=bv bound=10_interpolation_strings,_3x3_parameter_sets reach=missing,ok
func ZZ_Passed() {
	b := &zzBase{"B"}
	e, n := zzMake(b, nil, zzInner[zz.Choice("inner", len(zzInner))], zzKV("own"))
	m := ParamMap{}
	kv := zzKV("passed")
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	r := zzRef{s: n.s, direct: n.params, passed: m, base: n.base, spec: n.spec}
	r.seq(0, true)
	v := e.ValidateError_Params(m)
	bad := r.perr || r.serr || r.subsyn
	zz.Assert((v != nil) == (bad || r.missing), "ValidateError_Params with explicit parameters")
	out := e.Error_interpolate(m)
	if bad {
		return
	}
	if r.missing {
		zz.Reach("missing")
		return
	}
	zz.Assert(out == r.out, "message with explicit parameters")
	zz.Reach("ok")
}

// Guards for startup code.
//
//zz:mode=bv bound=two_errors_out_of_10_interpolation_strings reach=panic,ok
func ZZ_Ensure() {
	b := &zzBase{"B"}
	e1, _ := zzMake(b, nil, zzInner[zz.Choice("s1", len(zzInner))], zzKV("p1"))
	e2, _ := zzMake(e1, nil, zzInner[zz.Choice("s2", len(zzInner))], nil)
	pf := zz.Panics(func() { EnsureErrorsValid_Final(e1, e2) })
	pb := zz.Panics(func() { EnsureErrorsValid_Base(e1, e2) })
	ps := zz.Panics(func() { EnsureErrorsValid_Syntax(e1, e2) })
	zz.Assert(pf == (e1.ValidateError_Final() != nil || e2.ValidateError_Final() != nil), "final guard")
	zz.Assert(pb == (e1.ValidateError_Base() != nil || e2.ValidateError_Base() != nil), "base guard")
	zz.Assert(ps == (e1.ValidateSyntax() != nil || e2.ValidateSyntax() != nil), "syntax guard")
	if pf && pb && ps {
		zz.Reach("panic")
	}
	if !pf {
		zz.Reach("ok")
	}
}
