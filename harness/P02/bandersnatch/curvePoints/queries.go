package curvePoints

import zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"

// Equality of all kinds of points
//
//zz:mode=fld bound=all pairs of points in all representations, 6 x 6 types
func ZZ_IsEqual() {
	in1, in2 := zz.Choice("in1", zzNTypes), zz.Choice("in2", zzNTypes)
	s1, s2 := zzIsSub(in1), zzIsSub(in2)
	full := !s1 || !s2
	a, p := zzPoint("P", in1)
	var b CurvePointPtrInterface
	var q zzPt
	rel := zz.Choice("rel", 5)
	if rel == 0 {
		b, q = zzPoint("Q", in2)
		zzRatioFacts(p, q)
	} else {
		q = p
		if s1 && !s2 {
			q = zzCanon(p)
		}
		if rel%2 == 0 {
			q = zzMinus(q)
		}
		if rel >= 3 {
			q = zzPlusA(q)
		}
		if zzIsZero(q.Z) && (s2 || zzIsAff(in2)) || !s1 && s2 {
			zz.Assume(false)
		}
		b = zzMake("Q", in2, q)
	}
	p1, q1 := p, q
	if full && s1 {
		p1 = zzCanon(p)
	}
	if full && s2 {
		q1 = zzCanon(q)
	}
	want := zzSame(p1, q1)
	if !full {
		want = want || zzSame(p1, zzPlusA(q1))
	}
	got := a.IsEqual(b)
	zz.Assert(got == want, "equality")
	zzIs(a, p, s1, "operand kept")
	zzIs(b, q, s2, "operand kept")
	if got {
		zz.Reach("equal")
	} else {
		zz.Reach("different")
	}
}

// zzSame tells whether two points are equal.
func zzSame(p, q zzPt) bool {
	if zzIsZero(p.Z) || zzIsZero(q.Z) {
		return zzIsZero(p.Z) && zzIsZero(q.Z) && zzMinor(p.X, p.T, q.X, q.T)
	}
	return zzMinor(p.X, p.Z, q.X, q.Z) && zzMinor(p.Y, p.Z, q.Y, q.Z)
}

// Predicates on a single point
//
//zz:mode=fld bound=all points in all representations, 6 types
func ZZ_Queries() {
	in := zz.Choice("in", zzNTypes)
	sub := zzIsSub(in)
	a, p := zzPoint("P", in)
	inf := zzIsZero(p.Z)
	switch zz.Choice("query", 6) {
	case 0:
		zz.Assert(!a.IsNaP(), "a point")
	case 1:
		n := zzIsZero(p.X) && (sub || zzMinor(p.Y, p.Z, zzK(1), zzK(1)))
		zz.Assert(a.IsNeutralElement() == n, "neutral element")
		if n {
			zz.Reach("neutral")
		}
	case 2:
		zz.Assert(a.IsAtInfinity() == inf, "at infinity")
		if inf {
			zz.Reach("infinite")
		}
	case 3:
		if e, ok := a.(CurvePointPtrInterfaceDistinguishInfinity); ok {
			zz.Assert(e.IsE1() == (inf && zzMinor(p.X, p.T, zzR, zzK(1))), "E1")
			zz.Assert(e.IsE2() == (inf && zzMinor(p.X, p.T, zzNeg(zzR), zzK(1))), "E2")
		} else {
			zz.Assert(zzIsAff(in) || sub, "E1 and E2 can be told apart")
		}
	case 4:
		c := a.Clone()
		zzIs(c, p, sub, "copy")
		c.NegEq()
		zzIs(a, p, sub, "copies are independent")
	case 5:
		zz.Assert(a.CanOnlyRepresentSubgroup() == sub, "subgroup type")
		zz.Assert(a.CanRepresentInfinity() == (!sub && !zzIsAff(in)), "types with infinite points")
	}
	zzIs(a, p, sub, "operand kept")
	zz.Reach("done")
}

// Validation accepts exactly what is a point
//
//zz:mode=fld bound=arbitrary coordinates, 6 types; the ones with x = y = 0 aside
func ZZ_Validate() {
	in := zz.Choice("in", zzNTypes)
	x, y, t, z := zzVar("x"), zzVar("y"), zzVar("t"), zzVar("z")
	var a CurvePointPtrInterface
	if zz.Choice("real", 2) == 1 {
		r, p := zzPoint("P", in)
		zz.Assert(r.(interface{ Validate() bool }).Validate(), "points are valid")
		zzIs(r, p, zzIsSub(in), "operand kept")
		zz.Reach("valid")
		return
	}
	a = zzNew(in)
	one := zzK(1)
	switch a := a.(type) {
	case *Point_xtw_full:
		a.point_xtw_base = point_xtw_base{x: x, y: y, t: t, z: z}
	case *Point_xtw_subgroup:
		a.point_xtw_base = point_xtw_base{x: x, y: y, t: t, z: z}
	case *Point_axtw_full:
		a.point_axtw_base = point_axtw_base{x: x, y: y, t: t}
		z = one
	case *Point_axtw_subgroup:
		a.point_axtw_base = point_axtw_base{x: x, y: y, t: t}
		z = one
	case *Point_efgh_full:
		zzNonZero(y)
		zzNonZero(t)
		a.point_efgh_base = point_efgh_base{e: x, h: y, g: z, f: t}
		x, y, t, z = zzMul(x, t), zzMul(y, z), zzMul(x, y), zzMul(t, z)
	case *Point_efgh_subgroup:
		zzNonZero(y)
		zzNonZero(t)
		a.point_efgh_base = point_efgh_base{e: x, h: y, g: z, f: t}
		x, y, t, z = zzMul(x, t), zzMul(y, z), zzMul(x, y), zzMul(t, z)
	}
	got := a.(interface{ Validate() bool }).Validate()
	if zzIsZero(x) && zzIsZero(y) {
		zz.Assert(!got, "not a point")
		return
	}
	c := zzSub(zzAdd(zzSq(z), zzMul(zzD, zzSq(t))), zzAdd(zzMul(zzA, zzSq(x)), zzSq(y)))
	want := zzIsZero(c) && zzIsZero(zzSub(zzMul(x, y), zzMul(z, t)))
	if want && zzIsSub(in) {
		l := zzAdd(zzSq(z), zzMul(zzK(5), zzSq(x)))
		want = l.Jacobi() >= 0
	}
	zz.Assert(got == want, "validity")
	zz.Reach("invalid")
}

// zzRatioFacts: finite points with the same x/y agree up to A.
func zzRatioFacts(p, q zzPt) {
	if !zz.IsSymbolic() || zzIsZero(p.Z) || zzIsZero(q.Z) {
		return
	}
	zzNS(zzK(1), zzMul(p.X, q.Y), zzD)
	if zzIsZero(zzSub(zzMul(p.X, q.Y), zzMul(q.X, p.Y))) {
		w := zzMul(zzMul(zzSub(q.Y, p.Y), zzAdd(q.Y, p.Y)), zzMul(zzSq(p.Y), zzSub(zzK(1), zzMul(zzD, zzSq(zzMul(p.X, q.Y))))))
		zz.FldSplit(&w)
	}
}
