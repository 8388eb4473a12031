package utils

import (
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// zzList is a list of at most max elements, nil, empty with capacity, or a view into a longer one.
func zzList(name string, max int) []uint64 {
	n := zz.Choice(name+"_len", max+2) - 1
	if n < 0 {
		return nil
	}
	r := make([]uint64, n, n+1)
	for i := range r {
		r[i] = zz.U64(name)
	}
	return r
}

func zzSame(x, y []uint64) bool {
	if (x == nil) != (y == nil) || len(x) != len(y) {
		return false
	}
	e := true
	for i := range x {
		if x[i] != y[i] {
			e = false
		}
	}
	return e
}

//zz:mode=bv bound=slices_up_to_length_4_of_words reach=eq,ne
func ZZ_CompareSlices() {
	x, y := zzList("x", 4), zzList("y", 4)
	r := CompareSlices(x, y)
	zz.Assert(r == zzSame(x, y), "same nilness, length and elements")
	p := zz.Panics(func() { AssertSliceEquals(x, y...) })
	zz.Assert(p == !(x != nil && len(x) == len(y) && (len(x) == 0 || zzSame(x, y))), "assertion of slice contents")
	if r {
		zz.Reach("eq")
	} else {
		zz.Reach("ne")
	}
}

type zzPair struct {
	a uint8
	b bool
}

//zz:mode=bv bound=slices_up_to_length_3_of_structs reach=eq,ne
func ZZ_CompareSlicesStruct() {
	n, m := zz.Choice("n", 4), zz.Choice("m", 4)
	x, y := make([]zzPair, n), make([]zzPair, m)
	for i := range x {
		x[i] = zzPair{zz.U8("xa"), zz.Bool("xb")}
	}
	for i := range y {
		y[i] = zzPair{zz.U8("ya"), zz.Bool("yb")}
	}
	e := n == m
	for i := 0; i < n && i < m; i++ {
		if x[i].a != y[i].a || x[i].b != y[i].b {
			e = false
		}
	}
	r := CompareSlices(x, y)
	zz.Assert(r == e, "same length and elements")
	if r {
		zz.Reach("eq")
	} else {
		zz.Reach("ne")
	}
}

// zzMap is nil or a map with at most max entries; the keys are distinct by construction of the choice.
func zzMap(name string, max int) map[uint8]uint64 {
	n := zz.Choice(name+"_len", max+2) - 1
	if n < 0 {
		return nil
	}
	m := make(map[uint8]uint64)
	for i := 0; i < n; i++ {
		m[zz.U8(name+"_key")] = zz.U64(name + "_val")
	}
	return m
}

//zz:mode=bv bound=maps_with_up_to_2_entries,_arbitrary_(possibly_coinciding)_keys reach=eq,ne
func ZZ_CompareMaps() {
	x, y := zzMap("x", 2), zzMap("y", 2)
	k := zz.U8("k")
	r := CompareMaps(x, y)
	vx, okx := x[k]
	vy, oky := y[k]
	if r {
		zz.Assert((x == nil) == (y == nil), "nil only equals nil")
		zz.Assert(okx == oky && (!okx || vx == vy), "equal maps agree on every key")
		zz.Reach("eq")
	} else {
		d := (x == nil) != (y == nil) || len(x) != len(y)
		for q, v := range x {
			w, ok := y[q]
			if !ok || w != v {
				d = true
			}
		}
		zz.Assert(d, "different maps differ in nilness, size or at some key")
		zz.Reach("ne")
	}
	var x2, y2 map[uint8]any
	if x != nil {
		x2 = map[uint8]any{}
		for q, v := range x {
			x2[q] = v
		}
	}
	if y != nil {
		y2 = map[uint8]any{}
		for q, v := range y {
			y2[q] = v
		}
	}
	zz.Assert(CompareParamMaps(x2, y2) == r, "the variant for interface values agrees")
}

//zz:mode=bv bound=maps_with_one_entry,_values_of_differing_dynamic_types reach=ok
func ZZ_CompareParamMapsTypes() {
	v := zz.U8("v")
	vals := []any{nil, v, uint16(v), v == 1, "a"}
	i, j := zz.Choice("i", len(vals)), zz.Choice("j", len(vals))
	r := CompareParamMaps(map[string]any{"k": vals[i]}, map[string]any{"k": vals[j]})
	zz.Assert(r == (i == j), "values of different types are different")
	zz.Assert(!CompareParamMaps(map[string]any{"k": nil}, map[string]any{"l": nil}), "a missing key is not a nil value")
	zz.Reach("ok")
}

// zzNorm is not idempotent, and normalized values may look like others that are not.
func zzNorm(x uint64) uint64 { return x >> 4 }

//zz:mode=bv bound=lists_up_to_length_4 reach=in,out
func ZZ_ElementInList() {
	l := zzList("l", 4)
	e := zz.U64("e")
	norm := zz.Bool("norm")
	want := false
	for i := range l {
		if l[i] == e || norm && l[i]>>4 == e>>4 {
			want = true
		}
	}
	old := append([]uint64{}, l...)
	var r bool
	if norm {
		r = ElementInList(e, l, zzNorm)
	} else {
		r = ElementInList(e, l)
	}
	zz.Assert(r == want, "containment")
	for i := range l {
		zz.Assert(l[i] == old[i], "list unchanged")
	}
	if r {
		zz.Reach("in")
	} else {
		zz.Reach("out")
	}
}

// The result is the duplicate-free list of the elements in order of first appearance.
//
//zz:mode=bv bound=lists_up_to_length_4,_together_up_to_length_6 reach=dup,nodup
func ZZ_Concatenate() { zzConcat(6) }

//zz:mode=bv tier=thorough bound=lists_up_to_length_4,_together_up_to_length_7 reach=dup,nodup
func ZZ_ConcatenateLong() { zzConcat(7) }

func zzConcat(max int) {
	x, y := zzList("x", 4), zzList("y", 4)
	zz.Assume(len(x)+len(y) <= max)
	norm := zz.Bool("norm")
	ox, oy := append([]uint64{}, x...), append([]uint64{}, y...)
	var r []uint64
	same := func(a, b uint64) bool { return a == b }
	if norm {
		same = func(a, b uint64) bool { return a>>4 == b>>4 }
		r = ConcatenateListsWithoutDuplicates(x, y, zzNorm)
	} else {
		r = ConcatenateListsWithoutDuplicates(x, y)
	}
	var want []uint64
	for _, l := range [][]uint64{ox, oy} {
		for _, v := range l {
			dup := false
			for _, w := range want {
				if same(v, w) {
					dup = true
				}
			}
			if !dup {
				want = append(want, v)
			}
		}
	}
	zz.Assert(len(r) == len(want), "length")
	for i := range want {
		zz.Assert(r[i] == want[i], "elements in order of first appearance")
	}
	for i := range x {
		zz.Assert(x[i] == ox[i], "first list unchanged")
	}
	for i := range y {
		zz.Assert(y[i] == oy[i], "second list unchanged")
	}
	if len(r) > 0 {
		// the result does not share memory with the inputs
		r[0]++
		for i := range x {
			zz.Assert(x[i] == ox[i], "no shared memory with the first list")
		}
		for i := range y {
			zz.Assert(y[i] == oy[i], "no shared memory with the second list")
		}
	}
	if len(want) < len(ox)+len(oy) {
		zz.Reach("dup")
	} else {
		zz.Reach("nodup")
	}
}

//zz:mode=bv bound=all_arguments reach=ok
func ZZ_Binders() {
	a, b, c, d, e := zz.U8("a"), zz.U16("b"), zz.U32("c"), zz.U64("d"), zz.U8("e")
	calls := 0
	Bind2(func(x uint8, y uint16) { calls++; zz.Assert(x == a && y == b, "arguments in place (2)") }, b)(a)
	Bind23(func(x uint8, y uint16, z uint32) { calls++; zz.Assert(x == a && y == b && z == c, "arguments in place (3)") }, b, c)(a)
	Bind234(func(x uint8, y uint16, z uint32, w uint64) {
		calls++
		zz.Assert(x == a && y == b && z == c && w == d, "arguments in place (4)")
	}, b, c, d)(a)
	Bind2345(func(x uint8, y uint16, z uint32, w uint64, v uint8) {
		calls++
		zz.Assert(x == a && y == b && z == c && w == d && v == e, "arguments in place (5)")
	}, b, c, d, e)(a)
	zz.Assert(calls == 4, "each called once")
	p := AddressOfCopy(d)
	zz.Assert(*p == d, "copied")
	q := AddressOfCopy(d)
	*p++
	zz.Assert(*q == d && p != q, "distinct copies")
	zz.Assert(Identity(c) == c, "identity")
	zz.Reach("ok")
}
