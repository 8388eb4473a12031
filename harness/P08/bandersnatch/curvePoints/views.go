package curvePoints

import (
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// zzOwn is a point type of a user.
type zzOwn struct{ Point_xtw_full }

type zzTyped[P any] interface{ GetByIndexTyped(int) P }

// zzView checks that view shows exactly the n points at.
func zzView(view CurvePointSlice, n int, at func(int) CurvePointPtrInterface, msg string) {
	zz.Assert(view.Len() == n, msg+": length")
	for i := 0; i < n; i++ {
		zz.Assert(view.GetByIndex(i) == at(i), msg+": the view shows the points themselves, in order")
	}
	zz.Assert(zz.Panics(func() { view.GetByIndex(n) }) && zz.Panics(func() { view.GetByIndex(-1) }), msg+": nothing else")
}

func zzViews[T any, P interface {
	*T
	CurvePointPtrInterface
}](n int) {
	backing := make([]T, n+1)
	v := backing[:n]
	view := AsCurvePointSlice[T, P](v)
	zzView(view, n, func(i int) CurvePointPtrInterface { return P(&backing[i]) }, "view of points")
	if t, ok := view.(zzTyped[P]); ok {
		for i := 0; i < n; i++ {
			zz.Assert(t.GetByIndexTyped(i) == P(&backing[i]), "typed access")
		}
		zz.Reach("typed")
	} else {
		_, ok := view.(zzTyped[*T])
		zz.Assert(ok, "typed access is possible")
	}
	ptrs := make([]P, n)
	gen := make(GenericPointSlice, n)
	for i := range ptrs {
		ptrs[i] = P(&backing[n-1-i]) // in reverse
		gen[i] = ptrs[i]
	}
	rev := func(i int) CurvePointPtrInterface { return P(&backing[n-1-i]) }
	pv := AsCurvePointPtrSlice(ptrs)
	zzView(pv, n, rev, "view of pointers")
	for i := 0; i < n; i++ {
		zz.Assert(pv.GetByIndexTyped(i) == ptrs[i], "typed access to pointers")
	}
	zzView(gen, n, rev, "slice of interfaces")
	zzView(AsCurvePointPtrSlice([]CurvePointPtrInterface(gen)), n, rev, "view of interfaces")
	// the pointers need not be different
	if n == 3 {
		k := [3]int{zz.Choice("k0", 3), zz.Choice("k1", 3), zz.Choice("k2", 3)}
		for i := range ptrs {
			ptrs[i] = P(&backing[k[i]])
			gen[i] = ptrs[i]
		}
		rep := func(i int) CurvePointPtrInterface { return P(&backing[k[i]]) }
		zzView(pv, n, rep, "view of pointers that may be equal")
		zzView(gen, n, rep, "slice of interfaces that may be equal")
	}
	zz.Reach("done")
}

// Slices made to access points show exactly these points, whatever their type.
//
//zz:mode=bv bound=slices_of_up_to_4_points_of_7_types_(one_of_them_not_of_this_package) reach=typed,done
func ZZ_Views() {
	n := zz.Choice("n", 5)
	switch zz.Choice("type", 7) {
	case 0:
		zzViews[Point_axtw_full](n)
	case 1:
		zzViews[Point_axtw_subgroup](n)
	case 2:
		zzViews[Point_xtw_full](n)
	case 3:
		zzViews[Point_xtw_subgroup](n)
	case 4:
		zzViews[Point_efgh_full](n)
	case 5:
		zzViews[Point_efgh_subgroup](n)
	case 6:
		zzViews[zzOwn](n)
	}
}
