package curvePoints

import zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"

// Formulas with results in extended coordinates, which the public operations do not use, in place as well.
//
//zz:mode=fld bound=all pairs of affine points whose difference is affine, extended and affine representations reach=done
func ZZ_Extended() {
	minus := zz.Choice("minus", 2) == 1
	kind := zz.Choice("kind", 6) // ttt, safe, tta, tat, taa, naive
	t1, t2 := zzXF, zzXF
	if kind == 2 || kind == 4 {
		t2 = zzAF
	}
	if kind == 3 || kind == 4 {
		t1 = zzAF
	}
	p, q := zzSpec("P", zzFin, false), zzSpec("Q", zzFin, false)
	zzPair(p, q, false)
	s := zzLaw(p, q)
	if minus {
		q = zzMinus(q)
	}
	a, b := zzMake("P", t1, p), zzMake("Q", t2, q)
	xt := func(c CurvePointPtrInterface) *point_xtw_base { return &c.(*Point_xtw_full).point_xtw_base }
	ax := func(c CurvePointPtrInterface) *point_axtw_base { return &c.(*Point_axtw_full).point_axtw_base }
	r := &Point_xtw_full{}
	switch alias := zz.Choice("alias", 3); {
	case alias == 1 && t1 == zzXF:
		r = a.(*Point_xtw_full)
	case alias == 2 && t2 == zzXF:
		r = b.(*Point_xtw_full)
	case alias != 0:
		zz.Assume(false)
	}
	out := &r.point_xtw_base
	switch {
	case kind == 0 && minus:
		out.sub_ttt(xt(a), xt(b))
	case kind == 0:
		out.add_ttt(xt(a), xt(b))
	case kind == 1 && minus:
		out.sub_safe_ttt(xt(a), xt(b))
	case kind == 1:
		out.add_safe_ttt(xt(a), xt(b))
	case kind == 2 && minus:
		out.sub_tta(xt(a), ax(b))
	case kind == 2:
		out.add_tta(xt(a), ax(b))
	case kind == 3 && minus:
		out.sub_tat(ax(a), xt(b))
	case kind == 3, kind == 5 && minus:
		zz.Assume(false)
	case kind == 5:
		out.addNaive_ttt(xt(a), xt(b))
	case kind == 4 && minus:
		out.sub_taa(ax(a), ax(b))
	case kind == 4:
		out.add_taa(ax(a), ax(b))
	}
	zzIs(r, s, false, "sum")
	if a != CurvePointPtrInterface(r) {
		zzIs(a, p, false, "first operand kept")
	}
	if b != CurvePointPtrInterface(r) {
		zzIs(b, q, false, "second operand kept")
	}
	zz.Reach("done")
}

// The formula without exceptions
//
//zz:mode=fld bound=all pairs of points in all extended representations reach=done
func ZZ_ExtendedSafe() {
	minus := zz.Choice("minus", 2) == 1
	a, b, p, q, s := zzPairAny(zzXF, zzXF, true, minus)
	x, y := &a.(*Point_xtw_full).point_xtw_base, &b.(*Point_xtw_full).point_xtw_base
	r := &Point_xtw_full{}
	if minus {
		r.point_xtw_base.sub_safe_ttt(x, y)
	} else {
		r.point_xtw_base.add_safe_ttt(x, y)
	}
	zzIs(r, s, false, "sum")
	zzIs(a, p, false, "first operand kept")
	zzIs(b, q, false, "second operand kept")
	zz.Reach("done")
}
