package curvePoints

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

var (
	zzB   = zzC(zzInt("0x52c9f28b828426a561f00d3a63511a882ea712770d9af4d6ee0f014d172510b4"))
	zzCc  = zzC(zzInt("0x6cc624cf865457c3a97c6efd6c17d1078456abcfff36f4e9515c806cdf650b3d"))
	zzLam = zzInt("0x13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05")
	zzOrd = zzInt("0x1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1")
)

// zzEndo is the map of the Bandersnatch paper (normalized input).
func zzEndo(p zzPt) zzPt {
	one, nul := zzK(1), zzK(0)
	if zzIsZero(p.Z) {
		return zzPt{nul, zzK(-1), nul, one}
	}
	if zzIsZero(p.X) {
		return zzPt{nul, one, nul, one}
	}
	zzEndoFacts(p.X, p.Y)
	yy := zzSq(p.Y)
	e := zzMul(zzCc, zzSub(one, yy))
	f := zzSub(yy, zzB)
	g := zzMul(p.X, p.Y)
	h := zzMul(zzB, zzAdd(yy, zzB))
	return zzPt{zzMul(e, f), zzMul(g, h), zzMul(e, h), zzMul(f, g)}
}

// zzEndoFacts: y^2 = b or y^2 = -b would make x^2 a non-square; y^2 = 1 only for x = 0.
func zzEndoFacts(x, y FieldElement) {
	one := zzK(1)
	for _, v := range []FieldElement{zzB, zzNeg(zzB)} {
		zzNS(x, one, zzDiv(zzSub(one, v), zzSub(zzA, zzMul(zzD, v))))
	}
	zzImpliedNZ(zzSub(zzSq(y), zzB))
	zzImpliedNZ(zzAdd(zzSq(y), zzB))
	zzImpliedNZ(zzSub(one, zzSq(y)))
}

// The endomorphism for all types
//
//zz:mode=fld bound=all points in all representations, 6 x 6 types
func ZZ_Endo() {
	out, in := zz.Choice("out", zzNTypes), zz.Choice("in", zzNTypes)
	if zzIsSub(out) && !zzIsSub(in) {
		zz.Assume(false)
	}
	a, p := zzPoint("P", in)
	s := zzEndo(p)
	r := zzNew(out)
	r.Endo(a)
	zzIs(r, s, zzIsSub(out), "image")
	zzIs(a, p, zzIsSub(in), "operand kept")
	zz.Reach("done")
}

// In place
//
//zz:mode=fld bound=all points in all representations, 6 types
func ZZ_EndoAlias() {
	in := zz.Choice("in", zzNTypes)
	a, p := zzPoint("P", in)
	s := zzEndo(p)
	if zz.Choice("k", 2) == 0 {
		a.EndoEq()
	} else {
		a.Endo(a)
	}
	zzIs(a, s, zzIsSub(in), "image")
	zz.Reach("done")
}

// General points do not fit into subgroup types
//
//zz:mode=fld bound=3 x 3 types
func ZZ_EndoRefuse() {
	out, in := 3+zz.Choice("out", 3), zz.Choice("in", 3)
	a, _ := zzPoint("P", in)
	r := zzNew(out)
	zz.Assert(zz.Panics(func() { r.Endo(a) }), "refused")
	zz.Reach("done")
}

// The image is on the curve and twice applied is -2
//
//zz:mode=fld bound=all points
func ZZ_EndoSquare() {
	p := zzSpec("P", zz.Choice("class", 3), false)
	s := zzEndo(p)
	zz.Assert(!zzNaP(s), "valid")
	c := zzSub(zzAdd(zzMul(zzA, zzSq(s.X)), zzSq(s.Y)), zzAdd(zzSq(s.Z), zzMul(zzD, zzSq(s.T))))
	zz.Assert(zzIsZero(c), "on the curve")
	zz.Assert(zzIsZero(zzSub(zzMul(s.X, s.Y), zzMul(s.T, s.Z))), "xy = tz")
	if !zzIsZero(s.Z) {
		zz.Assert(!zzIsZero(s.Y), "finite")
		n := zzPt{zzDiv(s.X, s.Z), zzDiv(s.Y, s.Z), zzDiv(s.T, s.Z), zzK(1)}
		u := zzEndo(n)
		d := zzMinus(zzLaw(p, p))
		zz.Assert(!zzNaP(u) && !zzNaP(d), "valid images")
		zz.Assert(zzPar(u, d), "phi(phi(P)) = -2P")
		zz.Reach("done")
	} else {
		zz.Assert(false, "never at infinity")
	}
}

// The image is in the subgroup, up to A
//
//zz:mode=fld bound=all finite points
func ZZ_EndoSubgroup() {
	p := zzSpec("P", zzFin, false)
	s := zzEndo(p)
	l := zzAdd(zzSq(s.Z), zzMul(zzK(5), zzSq(s.X)))
	if zz.IsSymbolic() && !zzIsZero(p.X) {
		// g^2 + 5 e^2 = const x^2 (y^2 + k)^2
		one := zzK(1)
		f := zzSub(zzSq(p.Y), zzB)
		k := zzB
		w := zzMul3(f, p.X, zzAdd(zzSq(p.Y), k))
		// constant from the leading coefficient 5 c^2 d of y^4
		c := zzMul3(zzK(5), zzSq(zzCc), zzD)
		if zzIsZero(l) {
			v := zzMul3(c, w, w)
			zz.FldSplit(&v)
			zz.Assert(false, "not zero")
		}
		zz.FldChi(&l, &one, &w, &c)
	}
	zz.Assert(l.Jacobi() == 1, "in the subgroup up to A")
	zz.Reach("done")
}

// zzTimes is double-and-add with the operations of the package.
func zzTimes(k *big.Int, g CurvePointPtrInterfaceRead) *Point_xtw_subgroup {
	r := new(Point_xtw_subgroup)
	r.SetNeutral()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r.DoubleEq()
		if k.Bit(i) == 1 {
			r.AddEq(g)
		}
	}
	return r
}

// The subgroup's generator, order and the eigenvalue
//
//zz:mode=fld steps=400000000 bound=the generator
func ZZ_Eigenvalue() {
	g := new(Point_xtw_subgroup)
	x, y := zzGx, zzGy
	g.x, g.y, g.z = x, y, zzK(1)
	g.t = zzMul(x, y)
	zz.Assert(g.Validate(), "generator")
	n := zzTimes(zzOrd, g)
	zz.Assert(n.IsNeutralElement(), "order")
	l := zzTimes(zzLam, g)
	e := new(Point_xtw_subgroup)
	e.Endo(g)
	zz.Assert(e.IsEqual(l), "eigenvalue")
	zz.Assert(EndomorphismEigenvalue_Int.Cmp(zzLam) == 0 && GroupOrder_Int.Cmp(zzOrd) == 0, "constants")
	zz.Assert(zzOrd.ProbablyPrime(20), "prime order")
	z := new(big.Int).Mul(zzLam, zzLam)
	z.Add(z, big.NewInt(2))
	zz.Assert(z.Mod(z, zzOrd).Sign() == 0, "square root of -2")
	zz.Reach("done")
}
