package fieldElements

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// Addition and subtraction of residues stored in [0,2q): congruent, and again in [0,2q).
//
//zz:mode=int bound=all_pairs_in_range,all_alias_patterns
func ZZ_AddSub_b() {
	x, y := zzUBelow("x", zz2Q), zzUBelow("y", zz2Q)
	sub := zz.Bool("sub")
	zzBinary(x, y, func(z, x, y *Uint256) {
		if sub {
			z.SubAndReduce_b(x, y)
		} else {
			z.AddAndReduce_b(x, y)
		}
	}, func(x, y, z *big.Int) { zzCheckSum(x, y, z, sub, zz2Q) })
}

// The same for values in [0,2^256-q).
//
//zz:mode=int sort=Int bound=all_pairs_in_range,all_alias_patterns
func ZZ_AddSub_c() {
	x, y := zzUBelow("x", zzC), zzUBelow("y", zzC)
	sub := zz.Bool("sub")
	zzBinary(x, y, func(z, x, y *Uint256) {
		if sub {
			z.SubAndReduce_c(x, y)
		} else {
			z.AddAndReduce_c(x, y)
		}
	}, func(x, y, z *big.Int) { zzCheckSum(x, y, z, sub, zzC) })
}

// The same for arbitrary 256-bit values.
//
//zz:mode=int sort=Int bound=all_pairs,all_alias_patterns
func ZZ_AddSub_a() {
	x, y := zzU("x"), zzU("y")
	sub := zz.Bool("sub")
	x0, y0 := x, y
	same := zz.Bool("alias")
	yp := &y
	if same {
		yp, y0 = &x, x
	}
	if sub {
		x.SubEqAndReduce_a(yp)
	} else {
		x.AddEqAndReduce_a(yp)
	}
	zzCheckSum(zzVal(x0[:]), zzVal(y0[:]), zzVal(x[:]), sub, zzR)
	if !same {
		zz.Assert(y == y0, "operand unchanged")
	}
}

func zzCheckSum(x, y, z *big.Int, sub bool, bound *big.Int) {
	if sub {
		zzCong(z, zzSub(x, y), zzQ, "difference")
	} else {
		zzCong(z, zzAdd(x, y), zzQ, "sum")
	}
	zz.Assert(z.Cmp(bound) < 0, "result in the promised range")
}

// Doubling and negation of arbitrary values.
//
//zz:mode=int bound=all
func ZZ_DoubleNeg_a() {
	x := zzU("x")
	v := zzVal(x[:])
	x0 := x
	if zz.Bool("neg") {
		r := x.ComputeModularNegative_Weak_a()
		zz.Assert(zzMod(zzAdd(zzVal(r[:]), v), zzQ).Sign() == 0, "negation")
		zz.Assert(x == x0, "operand unchanged")
	} else {
		x.DoubleEqAndReduce_a()
		zzCong(zzVal(x[:]), zzAdd(v, v), zzQ, "doubling")
	}
}

// Reduction of single values: congruent and in the promised range.
//
//zz:mode=int sort=Int bound=all_values_in_range
func ZZ_Reduce() {
	k := zz.Choice("op", 8)
	inB := k == 3 || k == 4
	var x Uint256
	if inB {
		x = zzUBelow("x", zz2Q)
	} else {
		x = zzU("x")
	}
	v := zzVal(x[:])
	bound := zzQ
	switch k {
	case 0:
		x.Reduce()
	case 1:
		x.Reduce_fa()
	case 2:
		x.Reduce_ca()
		bound = zzC
	case 3:
		x.Reduce_fb()
	case 4:
		x.reduce_fb_optimistic()
	case 5:
		x.reduce_fa_loop()
	case 6:
		x.reduce_fa_barret()
	case 7:
		x.reduce_fa_optimistic()
	}
	zzCong(zzVal(x[:]), v, zzQ, "reduction keeps the residue")
	zz.Assert(zzVal(x[:]).Cmp(bound) < 0, "result in the promised range")
	if k != 2 {
		zz.Assert(x.IsReduced_f(), "result recognized as fully reduced")
	}
}

// Range checks.
//
//zz:mode=int bound=all reach=f,c,b,a
func ZZ_IsReduced() {
	x := zzU("x")
	v := zzVal(x[:])
	x0 := x
	f, b, c, a := x.IsReduced_f(), x.IsReduced_b(), x.IsReduced_c(), x.IsReduced_a()
	inF, inC, inB := v.Cmp(zzQ) < 0, v.Cmp(zzC) < 0, v.Cmp(zz2Q) < 0
	zz.Assert(f == inF, "IsReduced_f")
	zz.Assert(c == inC, "IsReduced_c")
	zz.Assert(b == inB, "IsReduced_b")
	zz.Assert(a, "IsReduced_a")
	zz.Assert(x == x0, "value unchanged")
	switch {
	case inF:
		zz.Reach("f")
	case inC:
		zz.Reach("c")
	case inB:
		zz.Reach("b")
	default:
		zz.Reach("a")
	}
}

// Barrett reduction of 512-bit values.
//
//zz:mode=int bound=all_512_bit_values
func ZZ_Barrett() {
	var x Uint512
	for i := range x {
		x[i] = zz.U64("x")
	}
	z := zzU("z")
	z.ReduceUint512ToUint256_a(x)
	zzCong(zzVal(z[:]), zzVal(x[:]), zzQ, "reduction of 512 bits keeps the residue")
}

// Products of residues.
//
//zz:mode=int replace=(*Uint512).LongMul:zzLongMulContract,(*Uint512).LongSquare:zzLongSquareContract,(*Uint256).ReduceUint512ToUint256_a:zzBarrettContract bound=all_pairs,all_alias_patterns
func ZZ_MulAndReduce() {
	x, y := zzU("x"), zzU("y")
	zzBinary(x, y, func(z, x, y *Uint256) { z.MulAndReduce_a(x, y) }, func(x, y, z *big.Int) { zzCong(z, zzMul(x, y), zzQ, "product") })
}

//zz:mode=int replace=(*Uint512).LongMul:zzLongMulContract,(*Uint512).LongSquare:zzLongSquareContract,(*Uint256).ReduceUint512ToUint256_a:zzBarrettContract bound=all
func ZZ_MulEqAndReduce() {
	x, y := zzU("x"), zzU("y")
	xv, yv := zzVal(x[:]), zzVal(y[:])
	y0 := y
	switch zz.Choice("op", 4) {
	case 0:
		x.MulEqAndReduce_a(&y)
		zzCong(zzVal(x[:]), zzMul(xv, yv), zzQ, "product")
	case 1:
		x.MulEqAndReduce_a(&x)
		zzCong(zzVal(x[:]), zzMul(xv, xv), zzQ, "product with itself")
	case 2:
		x.SquareEqAndReduce_a()
		zzCong(zzVal(x[:]), zzMul(xv, xv), zzQ, "square")
	case 3:
		x.SquareAndReduce_a(&y)
		zzCong(zzVal(x[:]), zzMul(yv, yv), zzQ, "square")
	}
	zz.Assert(y == y0, "operand unchanged")
}

// Contracts of the full products, checked by ZZ_LongProducts; the harnesses with replace= use them instead of the bodies.
func zzLongMulContract(z *Uint512, x, y *Uint256) {
	p := zzMul(zzVal(x[:]), zzVal(y[:]))
	for i := range z {
		z[i] = zz.Ghost("product")
	}
	zz.Assume(zzVal(z[:]).Cmp(p) == 0)
}

func zzLongSquareContract(z *Uint512, x *Uint256) { zzLongMulContract(z, x, x) }

// Contract of the 512 bit reduction, checked by ZZ_Barrett.
func zzBarrettContract(z *Uint256, x Uint512) {
	for i := range z {
		z[i] = zz.Ghost("reduced")
	}
	zz.Assume(zzMod(zzSub(zzVal(z[:]), zzVal(x[:])), zzQ).Sign() == 0)
}

//zz:mode=int bound=all_values
func ZZ_LongProducts() {
	x, y := zzU("x"), zzU("y")
	var z Uint512
	switch zz.Choice("op", 3) {
	case 0:
		z.LongMul(&x, &y)
		zzEq(z[:], zzMul(zzVal(x[:]), zzVal(y[:])), "LongMul")
	case 1:
		z.LongMul(&x, &x)
		zzEq(z[:], zzMul(zzVal(x[:]), zzVal(x[:])), "LongMul with equal operands")
	case 2:
		z.LongSquare(&x)
		zzEq(z[:], zzMul(zzVal(x[:]), zzVal(x[:])), "LongSquare")
	}
}
