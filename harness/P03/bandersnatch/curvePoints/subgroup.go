package curvePoints

import (
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// Doubles pass the subgroup test
//
//zz:mode=fld bound=2P for all points P in all representations, 3 full types
func ZZ_DoublesInSubgroup() {
	in := zz.Choice("in", 3)
	cls := zz.Choice("cls", 3)
	q := zzSpec("P", cls, false)
	p := zzLaw(q, q)
	if zz.IsSymbolic() && cls == zzFin {
		// z'^2 + 5 x'^2 = (F H)^2 and (z'-y')(z'-ry') = 2 a (1+r) (G x (1-r y^2))^2
		one := zzK(1)
		f := zzSub(one, zzMul3(zzD, q.T, q.T))
		g := zzAdd(one, zzMul3(zzD, q.T, q.T))
		h := zzSub(zzSq(q.Y), zzMul(zzA, zzSq(q.X)))
		l1 := zzAdd(zzSq(p.Z), zzMul(zzK(5), zzSq(p.X)))
		w1 := zzMul(f, h)
		zz.FldChi(&l1, &one, &w1, &one)
		l2 := zzCanonL(p)
		w2 := zzMul3(g, q.X, zzSub(one, zzMul(zzR, zzSq(q.Y))))
		c := zzMul3(zzK(2), zzA, zzAdd(one, zzR))
		zz.FldChi(&l2, &one, &w2, &c)
		zzExpandL(p)
		zz.Assert(c.Jacobi() == -1, "constant")
	}
	a := zzMake("Q", in, p)
	zz.Assert(a.IsInSubgroup(), "2P is in the subgroup")
	zzIs(a, p, false, "operand kept")
	zz.Reach("done")
}

// Exactly one of P, P+A, P+E1, P+E2 passes the subgroup test
//
//zz:mode=fld bound=all points P in all representations, 3 full types
func ZZ_CosetsOfSubgroup() {
	in := zz.Choice("in", 3)
	p := zzSpec("P", zzFin, false)
	one := zzK(1)
	n := 0
	if zzIsZero(p.X) { // P, P+A, P+E1, P+E2 are the points of order dividing two
		if zzIsAff(in) {
			zz.Assume(false)
		}
		for i, q := range []zzPt{{zzK(0), one, zzK(0), one}, {zzK(0), zzK(-1), zzK(0), one}, {zzR, zzK(0), one, zzK(0)}, {zzNeg(zzR), zzK(0), one, zzK(0)}} {
			a := zzMake(string(rune('a'+i)), in, q)
			if a.IsInSubgroup() {
				n++
				zz.Assert(i == 0, "only the neutral element")
			}
		}
		zz.Assert(n == 1, "exactly one")
		zz.Reach("torsion")
		return
	}
	for i := 0; i < 4; i++ {
		q := p
		if i >= 2 {
			q = zzPlusE(p, 1)
			zzCosetFacts(p, q)
		}
		if i == 0 || i == 2 {
			zzSubFactsProj(q)
		}
		if i%2 == 1 {
			q = zzPlusA(q)
		}
		a := zzMake(string(rune('a'+i)), in, q)
		if a.IsInSubgroup() {
			n++
		}
	}
	zz.Assert(n == 1, "exactly one")
	zz.Reach("done")
}

// zzCosetFacts: 1+5x^2 has opposite characters for P and q = P+E1.
func zzCosetFacts(p, q zzPt) {
	if !zz.IsSymbolic() {
		return
	}
	// z'^2 + 5 x'^2 = -d (1 + 5 x^2)
	c := zzNeg(zzD)
	l1 := zzAdd(zzK(1), zzMul(zzK(5), zzSq(p.X)))
	l2 := zzAdd(zzSq(q.Z), zzMul(zzK(5), zzSq(q.X)))
	zz.FldChi(&l1, &l2, &l1, &c)
	zz.Assert(c.Jacobi() == -1, "constant")
}

// zzSubFactsProj: exactly one of q, q+A passes the second test.
func zzSubFactsProj(q zzPt) {
	if !zz.IsSymbolic() {
		return
	}
	l1 := zzCanonL(q)
	l2 := zzCanonL(zzPlusA(q))
	w := zzDiv(zzMul(q.X, zzAdd(zzMul(zzK(5), zzSq(q.Z)), zzMul(zzD, zzSq(q.Y)))), q.Z)
	c := zzDiv(zzK(-1), zzK(5))
	zz.FldChi(&l1, &l2, &w, &c)
	zz.Assert(c.Jacobi() == -1, "constant")
	zzExpandL(q)
	zzExpandL(zzPlusA(q))
}

// zzExpandL: the product (z-y)(z-ry) and its expansion.
func zzExpandL(q zzPt) {
	one := zzK(1)
	l := zzCanonL(q)
	x := zzAdd(zzSub(zzSq(q.Z), zzMul3(zzAdd(one, zzR), q.Y, q.Z)), zzMul(zzR, zzSq(q.Y)))
	zz.FldChi(&x, &l, &l, &one)
}

// Subgroup types only hold subgroup points
//
//zz:mode=fld bound=all points in all representations, 3 types
func ZZ_SubgroupTypes() {
	in := 3 + zz.Choice("in", 3)
	a, p := zzPoint("P", in)
	zz.Assert(a.IsInSubgroup(), "in the subgroup")
	zzIs(a, p, true, "operand kept")
	zz.Reach("done")
}

// Conversion between types
//
//zz:mode=fld bound=all points in all representations, 6 x 6 types
func ZZ_SetFrom() {
	out, in := zz.Choice("out", zzNTypes), zz.Choice("in", zzNTypes)
	if zzIsSub(out) && !zzIsSub(in) {
		zz.Assume(false)
	}
	a, p := zzPoint("P", in)
	s := p
	if zzIsSub(in) && !zzIsSub(out) {
		s = zzCanon(p)
	}
	r := zzNew(out)
	if zzIsAff(out) && zzIsZero(s.Z) {
		zz.Assert(zz.Panics(func() { r.SetFrom(a) }), "an infinite point does not fit")
		return
	}
	r.SetFrom(a)
	zzIs(r, s, zzIsSub(out), "the same point")
	zzIs(a, p, zzIsSub(in), "operand kept")
	r.NegEq()
	zzIs(a, p, zzIsSub(in), "independent copies")
	zz.Reach("done")
}

// Conversion of points supposed to be in the subgroup
//
//zz:mode=fld bound=all points in all representations, 6 x 6 types; trusted ones in the subgroup
func ZZ_SetFromSubgroupPoint() {
	out, in := zz.Choice("out", zzNTypes), zz.Choice("in", zzNTypes)
	trusted := zz.Choice("trusted", 2) == 1
	a, p := zzPoint("P", in)
	s := p
	good := true
	if zzIsSub(in) {
		if !zzIsSub(out) {
			s = zzCanon(p)
		}
	} else {
		good = zzInSubgroup(p)
		if trusted {
			zz.Assume(good)
		}
	}
	r, q := zzNew(out), zzSpec("Q", zzFin, true)
	old := zzMake("R", out, q)
	r.SetFrom(old)
	q = zzGet(r)
	mode := common.TrustedInput
	if !trusted {
		mode = common.UntrustedInput
	}
	ok := r.SetFromSubgroupPoint(a, mode)
	zz.Assert(ok == good, "accepted exactly if in the subgroup")
	if ok {
		zzIs(r, s, zzIsSub(out), "the same point")
		zz.Reach("good")
	} else {
		c := zzGet(r)
		zz.Assert(zzIsZero(zzSub(c.X, q.X)) && zzIsZero(zzSub(c.Y, q.Y)) && zzIsZero(zzSub(c.T, q.T)) && zzIsZero(zzSub(c.Z, q.Z)), "receiver kept")
		zz.Reach("bad")
	}
	zzIs(a, p, zzIsSub(in), "operand kept")
}

// Adding points of order two
//
//zz:mode=fld bound=all points in all representations, 3 full types
func ZZ_Torsion() {
	in := zz.Choice("in", 3)
	a, p := zzPoint("P", in)
	k := zz.Choice("k", 3)
	var s zzPt
	if k == 0 {
		s = zzPlusA(p)
	} else {
		if zzIsZero(p.X) {
			if zzIsAff(in) {
				zz.Assume(false)
			}
		}
		s = zzPlusE(p, k)
	}
	t := a.(interface {
		torsionAddA()
		torsionAddE1()
		torsionAddE2()
	})
	switch k {
	case 0:
		t.torsionAddA()
	case 1:
		t.torsionAddE1()
	case 2:
		t.torsionAddE2()
	}
	zzIs(a, s, false, "sum with a point of order two")
	zz.Reach("done")
}

// Special points
//
//zz:mode=fld bound=6 types
func ZZ_Special() {
	in := zz.Choice("in", zzNTypes)
	a := zzNew(in)
	one, nul := zzK(1), zzK(0)
	switch zz.Choice("k", 4) {
	case 0:
		a.SetNeutral()
		zzIs(a, zzPt{nul, one, nul, one}, zzIsSub(in), "neutral element")
	case 1:
		if b, ok := a.(interface{ SetAffineTwoTorsion() }); ok {
			b.SetAffineTwoTorsion()
			zzIs(a, zzPt{nul, zzK(-1), nul, one}, false, "A")
		}
	case 2:
		if b, ok := a.(interface{ SetE1() }); ok {
			b.SetE1()
			zzIs(a, zzPt{zzR, nul, one, nul}, false, "E1")
		}
	case 3:
		if b, ok := a.(interface{ SetE2() }); ok {
			b.SetE2()
			zzIs(a, zzPt{zzNeg(zzR), nul, one, nul}, false, "E2")
		}
	}
	zz.Reach("done")
}
