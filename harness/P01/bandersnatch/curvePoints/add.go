package curvePoints

import zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"

// Doubling of all kinds of points
//
//zz:mode=fld bound=all points in all representations, 6 x 6 types
func ZZ_Double() {
	out := zz.Choice("out", zzNTypes)
	in := zz.Choice("in", zzNTypes)
	a, p := zzPoint("P", in)
	r := zzNew(out)
	r.Double(a)
	zzIs(r, zzLaw(p, p), zzIsSub(out), "double")
	zzIs(a, p, zzIsSub(in), "operand kept")
	zz.Reach("done")
}

// Negation of all kinds of points
//
//zz:mode=fld bound=all points in all representations, 6 x 6 types
func ZZ_Neg() {
	out := zz.Choice("out", zzNTypes)
	in := zz.Choice("in", zzNTypes)
	if zzIsSub(out) && !zzIsSub(in) {
		zz.Assume(false)
	}
	a, p := zzPoint("P", in)
	s := p
	if zzIsSub(in) && !zzIsSub(out) {
		s = zzCanon(p)
	}
	s = zzMinus(s)
	r := zzNew(out)
	if zzIsAff(out) && zzIsZero(s.Z) {
		zz.Assert(zz.Panics(func() { r.Neg(a) }), "an infinite result does not fit")
		return
	}
	r.Neg(a)
	zzIs(r, s, zzIsSub(out), "negative")
	zzIs(a, p, zzIsSub(in), "operand kept")
	zz.Reach("done")
}

// The receiver is one of the operands
//
//zz:mode=fld bound=all points in all representations, 6 types; the other operand is a full (subgroup) point for full (subgroup) receivers
func ZZ_Alias() {
	typ := zz.Choice("typ", zzNTypes)
	sub := zzIsSub(typ)
	op := zz.Choice("op", 12)
	two := zzLaw
	if op >= 8 {
		in2 := zz.Choice("in2", 3)
		if sub {
			in2 += 3
		}
		minus := zz.Choice("minus", 2) == 1
		x, y, p, q, s := zzPairAny(typ, in2, !sub, minus)
		r, b, oth := x, y, q
		if op >= 10 {
			if typ != in2 {
				zz.Assume(false)
			}
			r, b, oth = y, x, p // the receiver is the second operand
		}
		f := r.Add
		switch {
		case minus && op%2 == 0:
			f = r.Sub
		case minus && op == 9:
			f = func(_, o CurvePointPtrInterfaceRead) { r.SubEq(o) }
		case op == 9:
			f = func(_, o CurvePointPtrInterfaceRead) { r.AddEq(o) }
		case op == 11:
			zz.Assume(false)
		}
		do := func() {
			if op >= 10 {
				f(b, r)
			} else {
				f(r, b)
			}
		}
		if zzIsAff(typ) && zzIsZero(s.Z) {
			zz.Assert(zz.Panics(do), "an infinite result does not fit")
			return
		}
		do()
		zzIs(r, s, sub, "sum")
		zzIs(b, oth, sub, "operand kept")
		zz.Reach("two operands")
		return
	}
	r, p := zzPoint("P", typ)
	n := zzPt{zzK(0), zzK(1), zzK(0), zzK(1)}
	var s zzPt
	switch op {
	case 0:
		r.DoubleEq()
		s = two(p, p)
	case 1:
		r.NegEq()
		s = zzMinus(p)
	case 2:
		r.Add(r, r)
		s = two(p, p)
	case 3:
		r.Sub(r, r)
		s = n
	case 4:
		r.Double(r)
		s = two(p, p)
	case 5:
		r.Neg(r)
		s = zzMinus(p)
	case 6:
		r.AddEq(r)
		s = two(p, p)
	case 7:
		r.SubEq(r)
		s = n
	}
	zzIs(r, s, sub, "result")
	zz.Reach("one operand")
}

// Both operands are the same variable
//
//zz:mode=fld bound=all points in all representations, 6 x 6 types
func ZZ_SameOperands() {
	out := zz.Choice("out", zzNTypes)
	in := zz.Choice("in", zzNTypes)
	if zzIsSub(out) && !zzIsSub(in) {
		zz.Assume(false)
	}
	a, p := zzPoint("P", in)
	if zzIsSub(in) && !zzIsSub(out) {
		zzSubFacts(p)
	}
	r := zzNew(out)
	if zz.Choice("minus", 2) == 0 {
		r.Add(a, a)
		zzIs(r, zzLaw(p, p), zzIsSub(out), "sum")
	} else {
		r.Sub(a, a)
		zzIs(r, zzPt{zzK(0), zzK(1), zzK(0), zzK(1)}, zzIsSub(out), "difference")
	}
	zzIs(a, p, zzIsSub(in), "operand kept")
	zz.Reach("done")
}

// Operations on a subgroup point with a full operand are refused
//
//zz:mode=fld bound=all points in all representations, 3 x 6 x 6 types
func ZZ_RefuseFull() {
	out := 3 + zz.Choice("out", 3)
	in1, in2 := zz.Choice("in1", zzNTypes), zz.Choice("in2", zzNTypes)
	if zzIsSub(in1) && zzIsSub(in2) {
		zz.Assume(false)
	}
	r := zzNew(out)
	x := zzMake("P", in1, zzPt{zzK(0), zzK(1), zzK(0), zzK(1)})
	y := zzMake("Q", in2, zzPt{zzK(0), zzK(1), zzK(0), zzK(1)})
	zz.Assert(zz.Panics(func() { r.Add(x, y) }), "sum refused")
	zz.Assert(zz.Panics(func() { r.Sub(x, y) }), "difference refused")
	if !zzIsSub(in1) {
		zz.Assert(zz.Panics(func() { r.Neg(x) }), "negative refused")
		zz.Assert(zz.Panics(func() { r.Endo(x) }), "endomorphism refused")
		zz.Assert(zz.Panics(func() { r.SetFrom(x) }), "conversion refused")
	}
	zz.Reach("done")
}

// Addition and subtraction, out of place
//
//zz:mode=fld bound=all pairs of points in all representations, 6 x 6 x 6 types
func ZZ_AddFull() { zzAddAny(zz.Choice("out", 3), zz.Choice("in1", zzNTypes), zz.Choice("in2", zzNTypes)) }

// Addition and subtraction in the subgroup
//
//zz:mode=fld bound=all pairs of points in all representations, 3 x 3 x 3 types
func ZZ_AddSub() {
	zzAddAny(3+zz.Choice("out", 3), 3+zz.Choice("in1", 3), 3+zz.Choice("in2", 3))
}

// zzAdd2 makes a pair of points, stored in a and b, and returns them together with their sum or difference.
func zzPairAny(in1, in2 int, full, minus bool) (a, b CurvePointPtrInterface, p, q, s zzPt) {
	s1, s2 := zzIsSub(in1), zzIsSub(in2)
	n1, n2 := 3, 5
	if s1 || zzIsAff(in1) {
		n1 = 1
	}
	c1 := zz.Choice("cls1", n1)
	c2 := zz.Choice("cls2", n2)
	if (c2 == zzE1 || c2 == zzE2) && (s2 || zzIsAff(in2)) {
		zz.Assume(false)
	}
	var p0, q0 zzPt // as stored
	if c2 > zzE2 {
		if c1 != zzFin || s1 && s2 {
			zz.Assume(false)
		}
		j := c2 - zzE2
		base := zzSpec("P", zzFin, s1 || s2)
		p = base
		if s1 || s2 {
			p = zzCanon(p)
		}
		q = zzPlusE(p, j)
		zzNonZero(p.X)
		s = zzPlusE(zzLaw(p, p), j)
		p0, q0 = base, q
		if s2 {
			p, q = q, p
			p0, q0 = p, base
		} else if !s1 {
			p0 = p
		}
	} else {
		p0, q0 = zzSpec("P", c1, s1), zzSpec("Q", c2, s2)
		p, q = p0, q0
		if s1 && full {
			p = zzCanon(p0)
		}
		if s2 && full {
			q = zzCanon(q0)
		}
		switch {
		case c1 != zzFin:
			s = zzPlusE(q, c1)
		case c2 != zzFin:
			s = zzPlusE(p, c2)
		default:
			zzPair(p, q, s1 && s2)
			s = zzLaw(p, q)
		}
	}
	if minus {
		q, q0 = zzMinus(q), zzMinus(q0)
	}
	return zzMake("P", in1, p0), zzMake("Q", in2, q0), p0, q0, s
}

func zzAddAny(out, in1, in2 int) {
	minus := zz.Choice("minus", 2) == 1
	a, b, p, q, s := zzPairAny(in1, in2, !zzIsSub(out), minus)
	r := zzNew(out)
	op := r.Add
	if minus {
		op = r.Sub
	}
	if zzIsAff(out) && zzIsZero(s.Z) {
		zz.Assert(zz.Panics(func() { op(a, b) }), "an infinite result does not fit")
		zz.Reach("infinite")
		return
	}
	op(a, b)
	zzIs(r, s, zzIsSub(out), "sum")
	zzIs(a, p, zzIsSub(in1), "first operand kept")
	zzIs(b, q, zzIsSub(in2), "second operand kept")
	zz.Reach("done")
}
