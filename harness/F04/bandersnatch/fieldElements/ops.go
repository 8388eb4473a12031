package fieldElements

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// zzFBinary runs a binary operation on field elements with every pattern of coinciding operands.
func zzFBinary(op func(z, x, y *FieldElement), check func(x, y, z *big.Int)) {
	x, y, z := zzFE("x"), zzFE("y"), zzFE("z")
	xv, yv := zzFV(&x), zzFV(&y)
	switch zz.Choice("alias", 5) {
	case 0:
		op(&z, &x, &y)
		check(xv, yv, zzFV(&z))
		zzValid(&z)
		zzSame(&x, xv, "operand keeps its value")
		zzSame(&y, yv, "operand keeps its value")
	case 1:
		op(&x, &x, &y)
		check(xv, yv, zzFV(&x))
		zzValid(&x)
		zzSame(&y, yv, "operand keeps its value")
	case 2:
		op(&y, &x, &y)
		check(xv, yv, zzFV(&y))
		zzValid(&y)
		zzSame(&x, xv, "operand keeps its value")
	case 3:
		op(&z, &x, &x)
		check(xv, xv, zzFV(&z))
		zzValid(&z)
		zzSame(&x, xv, "operand keeps its value")
	case 4:
		op(&x, &x, &x)
		check(xv, xv, zzFV(&x))
		zzValid(&x)
	}
}

func zzFUnary(op func(z, x *FieldElement), check func(x, z *big.Int)) {
	x, z := zzFE("x"), zzFE("z")
	xv := zzFV(&x)
	if zz.Bool("alias") {
		op(&x, &x)
		check(xv, zzFV(&x))
		zzValid(&x)
		return
	}
	op(&z, &x)
	check(xv, zzFV(&z))
	zzValid(&z)
	zzSame(&x, xv, "operand keeps its value")
}

//zz:mode=int sort=Int bound=all_pairs,all_representations,all_alias_patterns
func ZZ_FE_Add() {
	zzFBinary(func(z, x, y *FieldElement) { z.Add(x, y) }, func(x, y, z *big.Int) { zzCong(z, zzAdd(x, y), zzQ, "x+y") })
}

//zz:mode=int sort=Int bound=all_pairs,all_representations,all_alias_patterns
func ZZ_FE_Sub() {
	zzFBinary(func(z, x, y *FieldElement) { z.Sub(x, y) }, func(x, y, z *big.Int) { zzCong(z, zzSub(x, y), zzQ, "x-y") })
}

//zz:mode=int replace=(*Uint256).mulMontgomery_Unrolled_c:zzMulMontgomeryContract bound=all_pairs,all_representations,all_alias_patterns
func ZZ_FE_Mul() {
	zzFBinary(func(z, x, y *FieldElement) { z.Mul(x, y) }, zzCheckFMul)
}

func zzCheckFMul(x, y, z *big.Int) { zzCong(zzMul(z, zzR), zzMul(x, y), zzQ, "x*y") }

//zz:mode=int sort=Int bound=all,all_representations,all_alias_patterns
func ZZ_FE_Unary() {
	switch zz.Choice("op", 2) {
	case 0:
		zzFUnary(func(z, x *FieldElement) { z.Neg(x) }, func(x, z *big.Int) { zzCong(zzAdd(z, x), new(big.Int), zzQ, "-x") })
	case 1:
		zzFUnary(func(z, x *FieldElement) { z.Double(x) }, func(x, z *big.Int) { zzCong(z, zzAdd(x, x), zzQ, "2x") })
	}
}

//zz:mode=int replace=(*Uint256).mulMontgomery_Unrolled_c:zzMulMontgomeryContract bound=all,all_representations,all_alias_patterns
func ZZ_FE_Square() {
	zzFUnary(func(z, x *FieldElement) { z.Square(x) }, func(x, z *big.Int) { zzCheckFMul(x, x, z) })
}

//zz:mode=int bound=all,all_representations
func ZZ_FE_MulFive() {
	zzFUnary(func(z, x *FieldElement) { z.MulFive(x) }, func(x, z *big.Int) { zzCong(z, zzMul(x, big.NewInt(5)), zzQ, "5x") })
}

// The operations that overwrite their receiver.
//
//zz:mode=int replace=(*Uint256).mulMontgomery_Unrolled_c:zzMulMontgomeryContract bound=all_pairs,all_representations,all_alias_patterns
func ZZ_FE_EqForms() {
	x, y := zzFE("x"), zzFE("y")
	xv, yv := zzFV(&x), zzFV(&y)
	yp := &y
	if zz.Bool("alias") {
		yp, yv = &x, xv
	}
	var want *big.Int
	shift := false
	switch zz.Choice("op", 7) {
	case 0:
		x.AddEq(yp)
		want = zzAdd(xv, yv)
	case 1:
		x.SubEq(yp)
		want = zzSub(xv, yv)
	case 2:
		x.MulEq(yp)
		want, shift = zzMul(xv, yv), true
	case 3:
		x.SquareEq()
		want, shift = zzMul(xv, xv), true
	case 4:
		x.DoubleEq()
		want = zzAdd(xv, xv)
	case 5:
		x.NegEq()
		want = new(big.Int).Neg(xv)
	case 6:
		x.MulEqFive()
		want = zzMul(xv, big.NewInt(5))
	}
	got := zzFV(&x)
	if shift {
		got = zzMul(got, zzR)
	}
	zzCong(got, want, zzQ, "result")
	zzValid(&x)
	if yp != &x {
		zzSame(yp, yv, "operand keeps its value")
	}
}

// Equality is equality in the field, whatever the representations.
//
//zz:mode=int sort=Int bound=all_pairs,all_representations reach=same,different
func ZZ_FE_IsEqual() {
	x, y := zzFE("x"), zzFE("y")
	xv, yv := zzFV(&x), zzFV(&y)
	yp := &y
	if zz.Bool("alias") {
		yp, yv = &x, xv
	}
	r := x.IsEqual(yp)
	zz.Assert(r == (zzMod(zzSub(xv, yv), zzQ).Sign() == 0), "IsEqual iff same field element")
	zzSame(&x, xv, "operand keeps its value")
	zzSame(yp, yv, "operand keeps its value")
	if r {
		zz.Reach("same")
	} else {
		zz.Reach("different")
	}
}

//zz:mode=int sort=Int bound=all_pairs,all_representations reach=equal,negated,different
func ZZ_FE_CmpAbs() {
	x, y := zzFE("x"), zzFE("y")
	xv, yv := zzFV(&x), zzFV(&y)
	abs, exact := x.CmpAbs(&y)
	eq := zzMod(zzSub(xv, yv), zzQ).Sign() == 0
	neg := zzMod(zzAdd(xv, yv), zzQ).Sign() == 0
	zz.Assert(exact == eq, "exactly equal")
	zz.Assert(abs == (eq || neg), "equal up to sign")
	zzSame(&x, xv, "operand keeps its value")
	zzSame(&y, yv, "operand keeps its value")
	switch {
	case exact:
		zz.Reach("equal")
	case abs:
		zz.Reach("negated")
	default:
		zz.Reach("different")
	}
}

//zz:mode=int sort=Int bound=all,all_representations
func ZZ_FE_Predicates() {
	x := zzFE("x")
	v := zzFV(&x)
	x0 := x.words
	zz.Assert(x.IsZero() == (zzMod(v, zzQ).Sign() == 0), "IsZero")
	zz.Assert(x.IsOne() == (zzMod(zzSub(v, zzR), zzQ).Sign() == 0), "IsOne")
	zz.Assert(x.isNormalized() == (v.Cmp(zzQ) < 0), "isNormalized")
	zz.Assert(x.words == x0, "unchanged")
	switch zz.Choice("set", 3) {
	case 0:
		x.SetOne()
		zzSame(&x, zzR, "SetOne")
	case 1:
		x.SetZero()
		zzSame(&x, new(big.Int), "SetZero")
	case 2:
		x.Normalize()
		zzSame(&x, v, "Normalize keeps the value")
		zz.Assert(zzFV(&x).Cmp(zzQ) < 0, "Normalize makes the representation unique")
	}
	zz.Assert(!FieldElementOne.IsZero() && FieldElementOne.IsOne() && FieldElementZero.IsZero() && !FieldElementZero.IsOne(), "constants")
	zzCong(zzFV(&FieldElementMinusOne), new(big.Int).Neg(zzR), zzQ, "minus one")
}

// RerandomizeRepresentation keeps the value, and equal elements end up with equal representations.
//
//zz:mode=int sort=Int bound=all_pairs,all_representations
func ZZ_FE_Rerandomize() {
	x, y := zzFE("x"), zzFE("y")
	seed := zz.U64("seed")
	v, w := zzFV(&x), zzFV(&y)
	x.RerandomizeRepresentation(seed)
	y.RerandomizeRepresentation(seed)
	zzSame(&x, v, "value kept")
	zz.Assert((zzMod(zzSub(v, w), zzQ).Sign() != 0) || x.words == y.words, "same representation for the same element")
}
