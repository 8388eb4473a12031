package curvePoints

import (
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// zzNaPOf is an arbitrary NaP of the given type.
func zzNaPOf(name string, typ int) CurvePointPtrInterface {
	r := zzNew(typ)
	o := zzK(0)
	v := func(n string) FieldElement {
		if zz.Choice(name+n+"0", 2) == 0 {
			return zzK(0)
		}
		return zzUnit(name + n)
	}
	switch r := r.(type) {
	case *Point_xtw_full:
		r.point_xtw_base = point_xtw_base{x: o, y: o, t: v("t"), z: v("z")}
	case *Point_xtw_subgroup:
		r.point_xtw_base = point_xtw_base{x: o, y: o, t: v("t"), z: v("z")}
	case *Point_axtw_full:
		r.point_axtw_base = point_axtw_base{x: o, y: o, t: v("t")}
	case *Point_axtw_subgroup:
		r.point_axtw_base = point_axtw_base{x: o, y: o, t: v("t")}
	case *Point_efgh_full:
		r.point_efgh_base = zzNaPEfgh(name, v)
	case *Point_efgh_subgroup:
		r.point_efgh_base = zzNaPEfgh(name, v)
	}
	return r
}

func zzNaPEfgh(name string, v func(string) FieldElement) point_efgh_base {
	o := zzK(0)
	switch zz.Choice(name+".kind", 3) {
	case 0:
		return point_efgh_base{f: o, h: o, e: v("e"), g: v("g")}
	case 1:
		return point_efgh_base{e: o, g: o, f: v("f"), h: v("h")}
	default:
		return point_efgh_base{e: o, h: o, f: v("f"), g: v("g")}
	}
}

// zzCounting installs a handler that answers a comparison with ans, and counts the calls.
func zzCounting(ans bool) (n *int, done func()) {
	n = new(int)
	var pts int
	old := SetNaPErrorHandler(func(reason string, cmp bool, points ...CurvePointPtrInterfaceBaseRead) bool {
		*n++
		pts += len(points)
		return cmp && ans
	})
	return n, func() { SetNaPErrorHandler(old) }
}

// zzIsNaP tells whether p is one, by the documented conditions.
func zzIsNaP(p CurvePointPtrInterfaceRead) bool {
	c := zzGet(p)
	return zzNaP(c)
}

// Predicates of NaPs
//
//zz:mode=fld bound=all NaPs of 6 types, both answers of the handler
func ZZ_NaPQueries() {
	in := zz.Choice("in", zzNTypes)
	a := zzNaPOf("N", in)
	zz.Assert(a.IsNaP(), "recognized")
	zz.Assert(!a.(interface{ Validate() bool }).Validate(), "not valid")
	ans := zz.Choice("answer", 2) == 1
	n, done := zzCounting(ans)
	switch zz.Choice("query", 4) {
	case 0:
		zz.Assert(a.IsNeutralElement() == ans, "neutral element: answer of the handler")
	case 1:
		zz.Assert(!a.IsAtInfinity() || ans, "not at infinity")
	case 2:
		zz.Assert(!a.IsInSubgroup() || ans, "not in the subgroup")
	case 3:
		e, ok := a.(CurvePointPtrInterfaceDistinguishInfinity)
		zz.Assume(ok)
		zz.Assert(!e.IsE1() || ans, "not E1")
		zz.Assert(!e.IsE2() || ans, "not E2")
	}
	done()
	zz.Assert(*n > 0, "handler called")
	zz.Assert(zzIsNaP(a), "still a NaP")
	zz.Reach("done")
}

// Comparison with NaPs
//
//zz:mode=fld bound=all NaPs of 6 types against all points and NaPs of 6 types, both orders, both answers of the handler
func ZZ_NaPEqual() {
	a := zzNaPOf("N", zz.Choice("in", zzNTypes))
	var b CurvePointPtrInterface
	t := zz.Choice("other", zzNTypes)
	if zz.Choice("both", 2) == 1 {
		b = zzNaPOf("M", t)
	} else {
		b, _ = zzPoint("P", t)
	}
	ans := zz.Choice("answer", 2) == 1
	n, done := zzCounting(ans)
	var r bool
	if zz.Choice("order", 2) == 0 {
		r = a.IsEqual(b)
	} else {
		r = b.IsEqual(a)
	}
	done()
	zz.Assert(*n > 0, "handler called")
	zz.Assert(r == ans, "answer of the handler")
	zz.Reach("done")
}

// Addition and subtraction with NaPs
//
//zz:mode=fld bound=all NaPs of 6 types and all points of 6 types, 6 output types
func ZZ_NaPAdd() {
	a := zzNaPOf("N", zz.Choice("in", zzNTypes))
	t := zz.Choice("other", zzNTypes)
	var b CurvePointPtrInterface
	if zz.Choice("both", 2) == 1 {
		b = zzNaPOf("M", t)
	} else {
		b, _ = zzPoint("P", t)
	}
	r := zzNew(zz.Choice("out", zzNTypes))
	zz.Assume(!r.CanOnlyRepresentSubgroup() || a.CanOnlyRepresentSubgroup() && b.CanOnlyRepresentSubgroup())
	op := zz.Choice("op", 8)
	if op >= 4 {
		zz.Assume(zzIsSub(t) == a.CanOnlyRepresentSubgroup())
	}
	switch op {
	case 4:
		a.AddEq(b)
		r = a
	case 5:
		b.AddEq(a)
		r = b
	case 6:
		a.SubEq(b)
		r = a
	case 7:
		b.SubEq(a)
		r = b
	case 0:
		r.Add(a, b)
	case 1:
		r.Add(b, a)
	case 2:
		r.Sub(a, b)
	case 3:
		r.Sub(b, a)
	}
	zz.Assert(r.IsNaP() && zzIsNaP(r), "NaP")
	zz.Reach("done")
}

// Operations on a NaP
//
//zz:mode=fld bound=all NaPs of 6 types, 6 output types
func ZZ_NaPUnary() {
	a := zzNaPOf("N", zz.Choice("in", zzNTypes))
	r := zzNew(zz.Choice("out", zzNTypes))
	zz.Assume(!r.CanOnlyRepresentSubgroup() || a.CanOnlyRepresentSubgroup())
	switch zz.Choice("op", 7) {
	case 0:
		r.Double(a)
	case 1:
		r.Neg(a)
	case 2:
		r.Endo(a)
	case 3:
		r.SetFrom(a)
	case 4:
		r = a.Clone()
	case 5:
		a.DoubleEq()
		r = a
	case 6:
		a.NegEq()
		r = a
	}
	zz.Assert(r.IsNaP() && zzIsNaP(r), "NaP")
	zz.Reach("done")
}

// Conversion of a NaP fails and leaves the receiver as it was
//
//zz:mode=fld bound=all NaPs of 6 types, all points of 6 output types
func ZZ_NaPSubgroup() {
	a := zzNaPOf("N", zz.Choice("in", zzNTypes))
	out := zz.Choice("out", zzNTypes)
	r, p := zzPoint("P", out)
	n, done := zzCounting(false)
	ok := r.SetFromSubgroupPoint(a, common.UntrustedInput)
	done()
	zz.Assert(!ok, "refused")
	zz.Assert(*n > 0, "handler called")
	zzIs(r, p, zzIsSub(out), "receiver kept")
	zz.Assert(a.IsNaP(), "operand kept")
	zz.Reach("done")
}

// Normalization of a NaP fails
//
//zz:mode=fld bound=all NaPs of 6 types
func ZZ_NaPNormalize() {
	a := zzNaPOf("N", zz.Choice("in", zzNTypes))
	n, done := zzCounting(false)
	var ok bool
	if zz.Choice("coo", 2) == 0 {
		s, has := a.(NormalizerForZ)
		zz.Assume(has)
		ok = s.NormalizeForZ()
	} else {
		s, has := a.(NormalizerForY)
		zz.Assume(has)
		ok = s.NormalizeForY()
	}
	done()
	zz.Assert(!ok, "refused")
	zz.Assert(*n > 0, "handler called")
	zz.Assert(a.IsNaP() && zzIsNaP(a), "still a NaP")
	zz.Reach("done")
}
