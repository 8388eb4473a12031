package curvePoints

import (
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

func zzEqF(a, b FieldElement) bool { return zzIsZero(zzSub(a, b)) }

// zzParNZ: proportional and not zero.
func zzParNZ(p, q zzPt, msg string) {
	zz.Assert(!zzNaP(p), msg+": valid")
	zz.Assert(zzPar(p, q), msg)
}

// Projective coordinates
//
//zz:mode=fld bound=all points in all representations, 6 types
func ZZ_Projective() {
	in := zz.Choice("in", zzNTypes)
	a, p := zzPoint("P", in)
	s := p
	if zzIsSub(in) {
		s = zzCanon(p)
	}
	x, y, z := a.X_projective(), a.Y_projective(), a.Z_projective()
	if e, ok := a.(CurvePointPtrInterfaceCooReadExtended); ok {
		t := e.T_projective()
		zzParNZ(zzPt{x, y, t, z}, s, "single coordinates")
		x1, y1, t1, z1 := e.XYTZ_projective()
		zzParNZ(zzPt{x1, y1, t1, z1}, s, "XYTZ")
		zz.Assert(zzEqF(zzMul(x1, y1), zzMul(t1, z1)), "xy = tz")
	} else {
		zzParNZ(zzPt{x, y, s.T, z}, zzPt{s.X, s.Y, s.T, s.Z}, "single coordinates")
	}
	x2, y2, z2 := a.XYZ_projective()
	zz.Assert(!(zzIsZero(x2) && zzIsZero(y2)), "XYZ valid")
	zz.Assert(zzMinor(x2, y2, s.X, s.Y) && zzMinor(x2, z2, s.X, s.Z) && zzMinor(y2, z2, s.Y, s.Z), "XYZ")
	zzIs(a, p, zzIsSub(in), "operand kept")
	zz.Reach("done")
}

// Projective coordinates of P or P+A
//
//zz:mode=fld bound=all points in all representations, 6 types
func ZZ_DecafProjective() {
	in := zz.Choice("in", zzNTypes)
	a, p := zzPoint("P", in)
	c := zzPt{a.X_decaf_projective(), a.Y_decaf_projective(), a.T_decaf_projective(), a.Z_decaf_projective()}
	zz.Assert(!zzNaP(c), "valid")
	zz.Assert(zzPar(c, p) || zzPar(c, zzPlusA(p)), "P or P+A")
	zz.Assert(zzEqF(zzMul(c.X, c.Y), zzMul(c.T, c.Z)), "xy = tz")
	zzIs(a, p, zzIsSub(in), "operand kept")
	zz.Reach("done")
}

// Affine coordinates
//
//zz:mode=fld bound=all finite points in all representations, 6 types
func ZZ_Affine() {
	in := zz.Choice("in", zzNTypes)
	p := zzSpec("P", zzFin, zzIsSub(in))
	a := zzMake("P", in, p)
	s := p
	if zzIsSub(in) {
		s = zzCanon(p)
	}
	switch zz.Choice("k", 6) {
	case 0:
		zz.Assert(zzEqF(a.X_affine(), s.X), "x")
	case 1:
		zz.Assert(zzEqF(a.Y_affine(), s.Y), "y")
	case 2:
		x, y := a.XY_affine()
		zz.Assert(zzEqF(x, s.X) && zzEqF(y, s.Y), "xy")
	case 3:
		if e, ok := a.(CurvePointPtrInterfaceCooReadExtended); ok {
			zz.Assert(zzEqF(e.T_affine(), s.T), "t")
		}
	case 4:
		if e, ok := a.(CurvePointPtrInterfaceCooReadExtended); ok {
			x, y, t := e.XYT_affine()
			zz.Assert(zzEqF(x, s.X) && zzEqF(y, s.Y) && zzEqF(t, s.T), "xyt")
		}
	case 5:
		x, y, t := a.X_decaf_affine(), a.Y_decaf_affine(), a.T_decaf_affine()
		zz.Assert(zzEqF(t, s.T), "decaf t")
		zz.Assert(zzEqF(x, s.X) && zzEqF(y, s.Y) || zzEqF(x, zzNeg(s.X)) && zzEqF(y, zzNeg(s.Y)), "decaf xy")
	}
	zzIs(a, p, zzIsSub(in), "operand kept")
	zz.Reach("done")
}

// Affine coordinates of infinite points
//
//zz:mode=fld bound=both infinite points in all representations, 2 types
func ZZ_AffineInfinite() {
	in := zz.Choice("in", 2)
	p := zzSpec("P", zzE1+zz.Choice("class", 2), false)
	a := zzMake("P", in, p)
	zz.Assert(zz.Panics(func() { a.X_affine() }), "X_affine panics")
	zz.Assert(zz.Panics(func() { a.Y_affine() }), "Y_affine panics")
	zz.Assert(zz.Panics(func() { a.XY_affine() }), "XY_affine panics")
	zz.Reach("done")
}

// Normalization
//
//zz:mode=fld bound=all points in all representations, 6 types
func ZZ_Normalize() {
	in := zz.Choice("in", zzNTypes)
	a, p := zzPoint("P", in)
	fin := !zzIsZero(p.Z)
	if zz.Choice("k", 2) == 0 {
		if n, ok := a.(NormalizerForZ); ok {
			zz.Assert(n.NormalizeForZ() == fin, "success exactly for finite points")
			if fin {
				zz.Assert(zzEqF(a.Z_decaf_projective(), zzK(1)), "Z = 1")
			}
			zz.Reach("z")
		}
	} else {
		if n, ok := a.(NormalizerForY); ok {
			zz.Assert(n.NormalizeForY() == fin, "success exactly for finite points")
			if fin {
				zz.Assert(zzEqF(a.Y_decaf_projective(), zzK(1)), "Y = 1")
			}
			zz.Reach("y")
		}
	}
	zzIs(a, p, zzIsSub(in), "operand kept")
}

// Normalization of several points
//
//zz:mode=fld bound=slices of up to 3 points, arbitrary ones or NaPs
func ZZ_BatchNormalize() {
	n := zz.Choice("n", 4)
	sub := zz.Choice("sub", 2) == 1
	forY := zz.Choice("y", 2) == 1
	full := make(CurvePointSlice_xtw_full, n)
	subg := make(CurvePointSlice_xtw_subgroup, n)
	ps := make([]zzPt, n)
	nap := make([]bool, n)
	var bad []int
	for i := 0; i < n; i++ {
		name := string(rune('a' + i))
		cls := 0
		if sub {
			cls = zz.Choice(name+".class", 2)
			if cls == 1 {
				cls = 3
			}
		} else {
			cls = zz.Choice(name+".class", 4)
		}
		if cls == 3 {
			nap[i] = true
			bad = append(bad, i)
			continue
		}
		ps[i] = zzSpec(name, cls, sub)
		if cls != zzFin {
			bad = append(bad, i)
		}
		if sub {
			subg[i] = *zzMake(name, zzXS, ps[i]).(*Point_xtw_subgroup)
		} else {
			full[i] = *zzMake(name, zzXF, ps[i]).(*Point_xtw_full)
		}
	}
	var got []int
	switch {
	case sub && forY:
		got = subg.BatchNormalizeForY()
	case sub:
		got = subg.BatchNormalizeForZ()
	case forY:
		got = full.BatchNormalizeForY()
	default:
		got = full.BatchNormalizeForZ()
	}
	zz.Assert(len(got) == len(bad), "number of failures")
	for i := range bad {
		zz.Assert(got[i] == bad[i], "indices of the failures")
	}
	j := 0
	for i := 0; i < n; i++ {
		var a CurvePointPtrInterface = &full[i]
		if sub {
			a = &subg[i]
		}
		if j < len(bad) && bad[j] == i {
			j++
		} else if forY {
			zz.Assert(zzEqF(a.Y_decaf_projective(), zzK(1)), "Y = 1")
		} else {
			zz.Assert(zzEqF(a.Z_decaf_projective(), zzK(1)), "Z = 1")
		}
		if nap[i] {
			zz.Assert(a.IsNaP(), "still a NaP")
		} else {
			zzIs(a, ps[i], sub, "still the same point")
		}
	}
	zz.Reach("done")
}

// Normalization of several points which are affine: there is nothing to do.
//
//zz:mode=fld bound=slices of up to 2 points reach=done
func ZZ_BatchNormalizeAffine() {
	n := zz.Choice("n", 3)
	full := make(CurvePointSlice_axtw_full, n)
	sub := make(CurvePointSlice_axtw_subgroup, n)
	isSub := zz.Choice("sub", 2) == 1
	ps := make([]zzPt, n)
	for i := range ps {
		name := string(rune('a' + i))
		ps[i] = zzSpec(name, zzFin, isSub)
		if isSub {
			sub[i] = *zzMake(name, zzAS, ps[i]).(*Point_axtw_subgroup)
		} else {
			full[i] = *zzMake(name, zzAF, ps[i]).(*Point_axtw_full)
		}
	}
	var s BatchNormalizerForZ = full
	if isSub {
		s = sub
	}
	zz.Assert(len(s.BatchNormalizeForZ()) == 0, "no failures")
	for i := range ps {
		a := s.GetByIndex(i)
		zz.Assert(zzEqF(a.Z_decaf_projective(), zzK(1)), "Z = 1")
		zzIs(a, ps[i], isSub, "still the same point")
	}
	zz.Reach("done")
}
