package fieldElements

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// ---- the addition chain

var zzOdd = new(big.Int).Rsh(zzSub(zzQ, big.NewInt(1)), 32) // the odd part of q-1

// zzExpInt is e as words.
func zzExpInt(e *big.Int) (r Uint256) {
	zzPutInt(&r, e)
	return
}

// The candidate is the ((odd+1)/2)th and the root of unity the (odd)th power, whatever the element.
//
//zz:mode=bv replace=(*Uint256).mulMontgomery_Unrolled_c:zzPowMul,(*Uint256).SquareMontgomery_c:zzPowSquare,(*Uint256).Reduce_ca:zzPowKeep,(*Uint256).Reduce_fb:zzPowKeep bound=all_elements reach=ok
func ZZ_SqrtPowers() {
	half := new(big.Int).Rsh(zzAdd(zzOdd, big.NewInt(1)), 1)
	var x, c, r FieldElement
	// the receivers' old values do not matter
	c.words, r.words = zzU("oldc"), zzU("oldr")
	if zz.IsSymbolic() {
		x.words = Uint256{1}
	} else {
		c.words, r.words = Uint256{5}, Uint256{6}
		zzPutInt(&x.words, zzMod(zzMul(big.NewInt(7), zzR), zzQ))
	}
	x0 := x.words
	x.sqrtAlg_ComputeRelevantPowers(&c, &r)
	zz.Assert(x.words == x0, "argument unchanged")
	if zz.IsSymbolic() {
		zz.Assert(c.words == zzExpInt(half), "candidate")
		zz.Assert(r.words == zzExpInt(zzOdd), "root of unity")
	} else {
		zz.Assert(zzGet(&c.words).Cmp(new(big.Int).Exp(big.NewInt(7), half, zzQ)) == 0, "candidate")
		zz.Assert(zzGet(&r.words).Cmp(new(big.Int).Exp(big.NewInt(7), zzOdd, zzQ)) == 0, "root of unity")
	}
	zz.Reach("ok")
}

// ---- roots of unity, as exponents modulo 2^32 of the fixed primitive root

func zzRootExp(x *Uint256) uint32 {
	if x[3] != 0 && *x == twoTo256ModBaseField_uint256 { // constant one
		return 0
	}
	return uint32(x[0])
}

func zzRootMul(z, x, y *Uint256) { *z = Uint256{uint64(zzRootExp(x) + zzRootExp(y))} }
func zzRootSquare(z, x *Uint256) { zzRootMul(z, x, x) }

func zzRootTable(target *FieldElement, multiplier int, order uint) {
	zz.Assert(multiplier >= 0 && multiplier < 256 && order < 4, "index into the table")
	target.words = Uint256{uint64(uint32(multiplier) << (8 * order))}
}

func zzRootDlog(x *FieldElement) uint {
	e := zzRootExp(&x.words)
	zz.Assert(e&0xffffff == 0, "root of unity of order 2^8")
	return uint(-(e >> 24) & 0xff)
}

// zzRoot is g^a.
func zzRoot(a uint32) (z FieldElement) {
	if zz.IsSymbolic() {
		z.words = Uint256{uint64(a)}
		return
	}
	zzPutInt(&z.words, zzMod(zzMul(zzRootInt(a), zzR), zzQ))
	return
}

func zzRootInt(a uint32) *big.Int {
	g := zzCan(zzFV(&dyadicRootOfUnity_fe))
	return new(big.Int).Exp(g, big.NewInt(int64(a)), zzQ)
}

// Inverse square roots of all 2^32 roots of unity.
//
//zz:mode=bv replace=(*Uint256).mulMontgomery_Unrolled_c:zzRootMul,(*Uint256).SquareMontgomery_c:zzRootSquare,sqrtAlg_GetPrecomputedRootOfUnity:zzRootTable,sqrtAlg_NegDlogInSmallDyadicSubgroup:zzRootDlog bound=all_2^32_roots_of_unity reach=root,none
func ZZ_SqrtDyadic() {
	a := zz.U32("a")
	z := zzRoot(a)
	z0 := z.words
	ok := z.invSqrtEqDyadic()
	zz.Assert(ok == (a&1 == 0), "square roots exist for even powers")
	if !ok {
		zz.Assert(z.words == z0, "untouched")
		zz.Reach("none")
		return
	}
	if zz.IsSymbolic() {
		zz.Assert(2*zzRootExp(&z.words)+a == 0, "1/z^2 is the argument")
	} else {
		w := zzGet(&z.words)
		zz.Assert(zzMod(zzMul(zzMul(w, w), zzRootInt(a)), zzQ).Cmp(big.NewInt(1)) == 0, "1/z^2 is the argument")
	}
	zz.Reach("root")
}

// The tables and the lookup of small logarithms.
//
//zz:mode=bv bound=all_entries,_both_representations reach=ok
func ZZ_SqrtTables() {
	order := uint(zz.Choice("order", 4))
	g := zzRootInt(1)
	for i := uint(0); i < 8*order; i++ {
		g = zzMod(zzMul(g, g), zzQ)
	}
	n := big.NewInt(1)
	for j := 0; j < 256; j++ {
		var x FieldElement
		sqrtAlg_GetPrecomputedRootOfUnity(&x, j, order)
		zz.Assert(zzGet(&x.words).Cmp(n) == 0, "precomputed root of unity")
		if order == 3 {
			zz.Assert(sqrtAlg_NegDlogInSmallDyadicSubgroup(&x) == uint(256-j)%256, "small logarithm")
			if v := zzAdd(zzMod(zzMul(n, zzR), zzQ), zzQ); v.Cmp(zzC) < 0 {
				zzPutInt(&x.words, v)
				zz.Assert(sqrtAlg_NegDlogInSmallDyadicSubgroup(&x) == uint(256-j)%256, "small logarithm of the other representation")
			}
		}
		n = zzMod(zzMul(n, g), zzQ)
	}
	if order == 3 {
		zz.Assert(n.Cmp(big.NewInt(1)) == 0 && zzMod(zzMul(g, big.NewInt(1)), zzQ).Cmp(big.NewInt(1)) != 0, "order of the root of unity")
	}
	zz.Reach("ok")
}

// ---- the whole

var zzSqSquare bool // whether the argument is a square

// With t the odd part of q-1: x^((t+1)/2) squared is x^t times x. x^t is a root of unity of order dividing 2^32,
// and a square exactly if x is.
func zzSqPowers(z, c, r *FieldElement) {
	n := zzGet(&z.words)
	cn := zz.GhostInt("c", big.NewInt(1), zzSub(zzQ, big.NewInt(1)))
	rn := zz.GhostInt("r", big.NewInt(1), zzSub(zzQ, big.NewInt(1)))
	zz.Assume(zzMod(zzSub(zzMul(cn, cn), zzMul(rn, n)), zzQ).Sign() == 0)
	zzPut(&c.words, cn)
	zzPut(&r.words, rn)
}

func zzSqRoot(z *FieldElement) bool {
	rn := zzGet(&z.words)
	zzSqSquare = zz.GhostChoice("square", 2) == 1
	if !zzSqSquare {
		return false
	}
	w := zz.GhostInt("w", big.NewInt(1), zzSub(zzQ, big.NewInt(1)))
	zz.Assume(zzMod(zzSub(zzMul(zzMul(w, w), rn), big.NewInt(1)), zzQ).Sign() == 0)
	zzPut(&z.words, w)
	return true
}

//zz:mode=int replace=(*Uint256).mulMontgomery_Unrolled_c:zzMulCan,(*feType_SquareRoot).sqrtAlg_ComputeRelevantPowers:zzSqPowers,(*feType_SquareRoot).invSqrtEqDyadic:zzSqRoot,(*bsFieldElement_MontgomeryNonUnique).sqrtAlg_ComputeRelevantPowers:zzSqPowers,(*bsFieldElement_MontgomeryNonUnique).invSqrtEqDyadic:zzSqRoot bound=all_values_and_representations reach=zero,root,none,alias
func ZZ_SquareRoot() {
	x, n := zzElem("x")
	var z FieldElement
	zn := new(big.Int)
	zp := &z
	if zz.Bool("alias") {
		zp, zn = &x, n
		zz.Reach("alias")
	} else {
		z, zn = zzElem("z")
	}
	ok := zp.SquareRoot(&x)
	if !zz.IsSymbolic() {
		zzSqSquare = big.Jacobi(n, zzQ) >= 0
	}
	if zp != &x {
		zzHas(&x, n, "argument keeps its value")
	}
	if n.Sign() == 0 {
		zz.Assert(ok, "zero is a square")
		zzHas(zp, n, "root of zero")
		zz.Reach("zero")
		return
	}
	zz.Assert(ok == zzSqSquare, "tells whether a root exists")
	if !ok {
		zzHas(zp, zn, "untouched")
		zz.Reach("none")
		return
	}
	v := zzGet(&zp.words)
	zz.Assert(zzMod(zzSub(zzMul(v, v), n), zzQ).Sign() == 0, "square root")
	zz.Reach("root")
}
