package curvePoints

import (
	"errors"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

func zzSameF(a, b FieldElement) bool { return zzIsZero(zzSub(a, b)) }

func zzTrust(t bool) IsInputTrusted {
	if t {
		return common.TrustedInput
	}
	return common.UntrustedInput
}

// zzYY is the square of y for the given x.
func zzYY(x FieldElement) FieldElement {
	one := zzK(1)
	zzNS(one, x, zzD)
	xx := zzSq(x)
	return zzDiv(zzAdd(zzK(1), zzMul(zzK(5), xx)), zzSub(zzK(1), zzMul(zzD, xx)))
}

// zzYYFacts: y^2 is what it has to be.
func zzYYFacts(x, y FieldElement) {
	if zz.IsSymbolic() {
		v := zzYY(x)
		zz.FldRoot(&v, &y)
	}
}

// zzXXFacts: x^2 is what it has to be.
func zzXXFacts(x, y FieldElement) {
	if zz.IsSymbolic() && !zzIsZero(x) {
		yy := zzSq(y)
		v := zzDiv(zzSub(yy, zzK(1)), zzSub(zzMul(zzD, yy), zzA))
		zz.FldRoot(&v, &x)
	}
}

// Affine coordinates to point of the curve
//
//zz:mode=fld bound=all affine points; all pairs of coordinates outside of the curve
func ZZ_FromXY() {
	t := zz.Choice("trusted", 2) == 1
	if zz.Choice("k", 2) == 0 {
		x, y := zzAffine("P", false)
		p, err := CurvePointFromXYAffine_full(&x, &y, zzTrust(t))
		zz.Assert(err == nil, "accepted")
		zzIs(&p, zzPt{x, y, zzMul(x, y), zzK(1)}, false, "the point")
		good := zzInSubgroup(zzPt{x, y, zzMul(x, y), zzK(1)})
		if t {
			zz.Assume(good)
		}
		s, err := CurvePointFromXYAffine_subgroup(&x, &y, zzTrust(t))
		if good {
			zz.Assert(err == nil, "accepted in the subgroup")
			zzIs(&s, zzPt{x, y, zzMul(x, y), zzK(1)}, true, "the point of the subgroup")
			zz.Reach("good")
		} else {
			zz.Assert(err != nil && errors.Is(err, bandersnatchErrors.ErrNotInSubgroup), "not in the subgroup")
			d := err.GetData_struct()
			zz.Assert(zzSameF(d.X, x) && zzSameF(d.Y, y), "data of the error")
			zz.Reach("bad")
		}
		return
	}
	x, y := zzVar("x"), zzVar("y")
	zzNonZero(zzOnCurve(x, y))
	nap := zzIsZero(x) && zzIsZero(y)
	_, err := CurvePointFromXYAffine_full(&x, &y, common.UntrustedInput)
	_, err2 := CurvePointFromXYAffine_subgroup(&x, &y, common.UntrustedInput)
	zz.Assert(err != nil && err2 != nil, "rejected")
	d, d2 := err.GetData_struct(), err2.GetData_struct()
	zz.Assert(zzSameF(d.X, x) && zzSameF(d.Y, y) && zzSameF(d2.X, x) && zzSameF(d2.Y, y), "data of the error")
	if nap {
		zz.Assert(errors.Is(err, bandersnatchErrors.ErrCannotDeserializeXYAllZero) && errors.Is(err2, bandersnatchErrors.ErrCannotDeserializeXYAllZero), "both zero")
		zz.Assert(errors.Is(err, bandersnatchErrors.ErrCannotDeserializeNaP), "NaP")
	} else {
		zz.Assert(errors.Is(err, bandersnatchErrors.ErrNotOnCurve) && errors.Is(err2, bandersnatchErrors.ErrNotOnCurve), "not on the curve")
	}
	zz.Reach("reject")
}

// X and the sign of Y
//
//zz:mode=fld bound=all affine points
func ZZ_FromXSignY() {
	t := zz.Choice("trusted", 2) == 1
	x, y := zzAffine("P", false)
	zzYYFacts(x, y)
	s := y.Sign()
	p, err := CurvePointFromXAndSignY_full(&x, s, zzTrust(t))
	zz.Assert(err == nil, "accepted")
	zzIs(&p, zzPt{x, y, zzMul(x, y), zzK(1)}, false, "the point")
	zz.Reach("done")
}

// X and the sign of Y in the subgroup
//
//zz:mode=fld bound=all affine points
func ZZ_FromXSignYSub() {
	t := zz.Choice("trusted", 2) == 1
	x, y := zzAffine("P", false)
	zzYYFacts(x, y)
	good := zzInSubgroup(zzPt{x, y, zzMul(x, y), zzK(1)})
	if t {
		zz.Assume(good)
	}
	s := y.Sign()
	p, err := CurvePointFromXAndSignY_subgroup(&x, s, zzTrust(t))
	if good {
		zz.Assert(err == nil, "accepted")
		zzIs(&p, zzPt{x, y, zzMul(x, y), zzK(1)}, true, "the point")
		zz.Reach("good")
	} else {
		zz.Assert(err != nil && errors.Is(err, bandersnatchErrors.ErrNotInSubgroup), "not in the subgroup")
		d := err.GetData_struct()
		zz.Assert(zzSameF(d.X, x) && d.SignY == s, "data of the error")
		zz.Reach("bad")
	}
}

// X coordinates without a point
//
//zz:mode=fld bound=all X without a point; invalid signs
func ZZ_FromXReject() {
	x := zzVar("x")
	s := zz.Choice("sign", 6) - 3
	bad := s != 1 && s != -1
	if !bad {
		v := zzYY(x)
		zz.Assume(v.Jacobi() == -1)
	}
	_, err := CurvePointFromXAndSignY_full(&x, s, common.UntrustedInput)
	_, err2 := CurvePointFromXAndSignY_subgroup(&x, s, common.UntrustedInput)
	zz.Assert(err != nil && err2 != nil, "rejected")
	d, d2 := err.GetData_struct(), err2.GetData_struct()
	zz.Assert(zzSameF(d.X, x) && d.SignY == s && zzSameF(d2.X, x) && d2.SignY == s, "data of the error")
	e := bandersnatchErrors.ErrXNotOnCurve
	if bad {
		e = bandersnatchErrors.ErrInvalidSign
	}
	zz.Assert(errors.Is(err, e) && errors.Is(err2, e), "kind of error")
	zz.Assert(err.ValidateError_Final() == nil && err2.ValidateError_Final() == nil, "error with a valid message")
	zz.Reach("done")
}

// Y and the sign of X
//
//zz:mode=fld bound=all affine points, all signs of X = 0
func ZZ_FromYSignX() {
	t := zz.Choice("trusted", 2) == 1
	x, y := zzAffine("P", false)
	zzXXFacts(x, y)
	s := x.Sign()
	if s == 0 {
		s = zz.Choice("sign", 3) - 1
	}
	p, err := CurvePointFromYAndSignX_full(&y, s, zzTrust(t))
	zz.Assert(err == nil, "accepted")
	zzIs(&p, zzPt{x, y, zzMul(x, y), zzK(1)}, false, "the point")
	zz.Reach("done")
}

// Y and the sign of X in the subgroup
//
//zz:mode=fld bound=all affine points
func ZZ_FromYSignXSub() {
	t := zz.Choice("trusted", 2) == 1
	x, y := zzAffine("P", false)
	zzXXFacts(x, y)
	good := zzInSubgroup(zzPt{x, y, zzMul(x, y), zzK(1)})
	if t {
		zz.Assume(good)
	}
	s := x.Sign()
	if s == 0 {
		s = zz.Choice("sign", 3) - 1
	}
	p, err := CurvePointFromYAndSignX_subgroup(&y, s, zzTrust(t))
	if good {
		zz.Assert(err == nil, "accepted")
		zzIs(&p, zzPt{x, y, zzMul(x, y), zzK(1)}, true, "the point")
		zz.Reach("good")
	} else {
		zz.Assert(err != nil && errors.Is(err, bandersnatchErrors.ErrNotInSubgroup), "not in the subgroup")
		d := err.GetData_struct()
		zz.Assert(zzSameF(d.Y, y) && d.SignX == s, "data of the error")
		zz.Reach("bad")
	}
}

// Y coordinates without a point
//
//zz:mode=fld bound=all Y without a finite point; invalid signs; X = 0 for other Y
func ZZ_FromYReject() {
	y := zzVar("y")
	s := zz.Choice("sign", 6) - 3
	var e error
	switch s {
	case 1, -1:
		yy := zzSq(y)
		den := zzSub(zzMul(zzD, yy), zzA)
		if !zzIsZero(den) { // points at infinity otherwise
			v := zzDiv(zzSub(yy, zzK(1)), den)
			zz.Assume(v.Jacobi() == -1)
		}
		e = bandersnatchErrors.ErrYNotOnCurve
	case 0:
		zzNonZero(zzSub(zzSq(y), zzK(1)))
		e = bandersnatchErrors.ErrInvalidZeroSignX
	default:
		e = bandersnatchErrors.ErrInvalidSign
	}
	_, err := CurvePointFromYAndSignX_full(&y, s, common.UntrustedInput)
	_, err2 := CurvePointFromYAndSignX_subgroup(&y, s, common.UntrustedInput)
	zz.Assert(err != nil && err2 != nil, "rejected")
	d, d2 := err.GetData_struct(), err2.GetData_struct()
	zz.Assert(zzSameF(d.Y, y) && d.SignX == s && zzSameF(d2.Y, y) && d2.SignX == s, "data of the error")
	zz.Assert(errors.Is(err, e) && errors.Is(err2, e), "kind of error")
	zz.Assert(err.ValidateError_Final() == nil && err2.ValidateError_Final() == nil, "error with a valid message")
	zz.Reach("done")
}

// X * Sign(Y)
//
//zz:mode=fld bound=all points of the subgroup, both representatives
func ZZ_FromXTimesSign() {
	t := zz.Choice("trusted", 2) == 1
	x, y := zzAffine("P", true)
	zzYYFacts(x, y)
	v := x
	if y.Sign() < 0 {
		v = zzNeg(x)
	}
	p, err := CurvePointFromXTimesSignY_subgroup(&v, zzTrust(t))
	zz.Assert(err == nil, "accepted")
	zzIs(&p, zzPt{x, y, zzMul(x, y), zzK(1)}, true, "the point")
	zz.Reach("done")
}

// X * Sign(Y) without a point of the subgroup
//
//zz:mode=fld bound=all X
func ZZ_FromXTimesSignReject() {
	x := zzVar("x")
	n := zzAdd(zzK(1), zzMul(zzK(5), zzSq(x)))
	d := zzSub(zzK(1), zzMul(zzD, zzSq(x)))
	jn, jd := n.Jacobi(), d.Jacobi()
	zz.Assume(jn != 0 && jd != 0 && !(jn == 1 && jd == 1))
	_, err := CurvePointFromXTimesSignY_subgroup(&x, common.UntrustedInput)
	zz.Assert(err != nil, "rejected")
	e := bandersnatchErrors.ErrXNotInSubgroup
	if jn*jd < 0 {
		e = bandersnatchErrors.ErrXNotOnCurve
	}
	zz.Assert(errors.Is(err, e), "kind of error")
	dx := err.GetData_struct().X
	zz.Assert(zzSameF(dx, x) || zzSameF(dx, zzNeg(x)), "data of the error")
	zz.Reach("done")
}

// X * Sign(Y), Y * Sign(Y)
//
//zz:mode=fld bound=all affine points; all coordinates outside of the curve
func ZZ_FromXYTimesSign() {
	t := zz.Choice("trusted", 2) == 1
	swap := zz.Choice("swap", 2) == 1
	from := func(x, y FieldElement) (Point_axtw_subgroup, error, zzPt) {
		if swap {
			p, err := CurvePointFromYXTimesSignY_subgroup(&y, &x, zzTrust(t))
			if err == nil {
				return p, nil, zzPt{}
			}
			d := err.GetData_struct()
			return p, err, zzPt{X: d.XSignY, Y: d.YSignY}
		}
		p, err := CurvePointFromXYTimesSignY_subgroup(&x, &y, zzTrust(t))
		if err == nil {
			return p, nil, zzPt{}
		}
		d := err.GetData_struct()
		return p, err, zzPt{X: d.XSignY, Y: d.YSignY}
	}
	var x, y FieldElement
	on := zz.Choice("k", 2) == 0
	if on {
		x, y = zzAffine("P", false)
	} else {
		x, y = zzVar("x"), zzVar("y")
		zzNonZero(zzOnCurve(x, y))
	}
	l := zzAdd(zzK(1), zzMul(zzK(5), zzSq(x)))
	s := y.Sign()
	good := on && s > 0 && l.Jacobi() >= 0
	if t {
		zz.Assume(good)
	}
	p, err, d := from(x, y)
	if good {
		zz.Assert(err == nil, "accepted")
		zzIs(&p, zzPt{x, y, zzMul(x, y), zzK(1)}, true, "the point")
		zz.Reach("good")
		return
	}
	zz.Assert(err != nil, "rejected")
	zz.Assert(zzSameF(d.X, x) && zzSameF(d.Y, y), "data of the error")
	switch {
	case s <= 0:
		zz.Assert(errors.Is(err, bandersnatchErrors.ErrWrongSignY), "sign")
	case !on:
		zz.Assert(errors.Is(err, bandersnatchErrors.ErrNotOnCurve), "curve")
	default:
		zz.Assert(errors.Is(err, bandersnatchErrors.ErrNotInSubgroup), "subgroup")
	}
	zz.Reach("bad")
}

// X/Y
//
//zz:mode=fld bound=all points in all representations, 6 types
func ZZ_MapToField() {
	in := zz.Choice("in", zzNTypes)
	a, p := zzPoint("P", in)
	if zzIsZero(p.Z) {
		zz.Assert(zz.Panics(func() { MapToFieldElement(a) }), "panics at infinity")
		return
	}
	v := MapToFieldElement(a)
	zz.Assert(zzSameF(v, zzDiv(p.X, p.Y)), "X/Y")
	zzIs(a, p, zzIsSub(in), "operand kept")
	zz.Reach("done")
}
