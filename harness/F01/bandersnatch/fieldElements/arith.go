package fieldElements

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// Addition and subtraction modulo 2^256, with and without carry.
//
//zz:mode=int bound=all_values,all_alias_patterns
func ZZ_AddSub() {
	x, y := zzU("x"), zzU("y")
	var c uint64
	k := zz.Choice("op", 4)
	zzBinary(x, y, func(z, x, y *Uint256) {
		switch k {
		case 0:
			z.Add(x, y)
		case 1:
			c = z.AddAndReturnCarry(x, y)
		case 2:
			z.Sub(x, y)
		case 3:
			c = z.SubAndReturnBorrow(x, y)
		}
	}, func(x, y, z *big.Int) {
		carry := zzMul(new(big.Int).SetUint64(c), zzR)
		switch k {
		case 0:
			zz.Assert(z.Cmp(zzMod(zzAdd(x, y), zzR)) == 0, "Add")
		case 1:
			zz.Assert(zzAdd(z, carry).Cmp(zzAdd(x, y)) == 0, "AddAndReturnCarry")
		case 2:
			zz.Assert(z.Cmp(zzMod(zzSub(x, y), zzR)) == 0, "Sub")
		case 3:
			zz.Assert(zzSub(z, carry).Cmp(zzSub(x, y)) == 0, "SubAndReturnBorrow")
		}
	})
}

//zz:mode=int bound=all_values,all_alias_patterns
func ZZ_IncDec() {
	x := zzU("x")
	k := zz.Choice("op", 4)
	zzUnary(x, func(z, x *Uint256) {
		switch k {
		case 0:
			z.Increment(x)
		case 1:
			*z = *x
			z.IncrementEq()
		case 2:
			z.Decrement(x)
		case 3:
			*z = *x
			z.DecrementEq()
		}
	}, func(x, z *big.Int) {
		if k < 2 {
			zz.Assert(z.Cmp(zzMod(zzAdd(x, big.NewInt(1)), zzR)) == 0, "Increment")
		} else {
			zz.Assert(z.Cmp(zzMod(zzSub(x, big.NewInt(1)), zzR)) == 0, "Decrement")
		}
	})
}

// Truncated product.
//
//zz:mode=int bound=all_values,all_alias_patterns
func ZZ_Mul() {
	x, y := zzU("x"), zzU("y")
	zzBinary(x, y, func(z, x, y *Uint256) { z.Mul(x, y) }, func(x, y, z *big.Int) {
		zzCong(z, zzMul(x, y), zzR, "Mul")
	})
}

// Full products.
//
//zz:mode=int bound=all_values
func ZZ_LongMul() {
	x, y := zzU("x"), zzU("y")
	x0, y0 := x, y
	var z Uint512
	for i := range z {
		z[i] = zz.U64("z")
	}
	switch zz.Choice("op", 3) {
	case 0:
		z.LongMul(&x, &y)
		zzEq(z[:], zzMul(zzVal(x0[:]), zzVal(y0[:])), "LongMul")
	case 1:
		z.LongMul(&x, &x)
		zzEq(z[:], zzMul(zzVal(x0[:]), zzVal(x0[:])), "LongMul with equal operands")
	case 2:
		z.LongSquare(&x)
		zzEq(z[:], zzMul(zzVal(x0[:]), zzVal(x0[:])), "LongSquare")
	}
	zz.Assert(x == x0 && y == y0, "operands unchanged")
}

//zz:mode=int bound=all_values
func ZZ_LongMulUint64() {
	x, y := zzU("x"), zz.U64("y")
	x0 := x
	var t [5]uint64
	for i := range t {
		t[i] = zz.U64("t")
	}
	LongMulUint64(&t, &x, y)
	zzEq(t[:], zzMul(zzVal(x0[:]), new(big.Int).SetUint64(y)), "LongMulUint64")
	zz.Assert(x == x0, "operand unchanged")
}

// Comparisons.
//
//zz:mode=int bound=all_values reach=less,equal,greater
func ZZ_Compare() {
	x, y := zzU("x"), zzU("y")
	x0, y0 := x, y
	c := x.Cmp(&y)
	l := x.IsLessThan(&y)
	d := zzVal(x0[:]).Cmp(zzVal(y0[:]))
	zz.Assert(c == d, "Cmp compares the integers")
	zz.Assert(l == (d < 0), "IsLessThan compares the integers")
	zz.Assert(IsEqualAsUint256(&x, &y) == (d == 0), "equality of converted values")
	zz.Assert(x == x0 && y == y0, "operands unchanged")
	switch {
	case d < 0:
		zz.Reach("less")
	case d == 0:
		zz.Reach("equal")
	default:
		zz.Reach("greater")
	}
}

//zz:mode=bv bound=all_values reach=zero,one,other
func ZZ_ZeroOne() {
	x := zzU("x")
	isZero := x[0] == 0 && x[1] == 0 && x[2] == 0 && x[3] == 0
	isOne := x[0] == 1 && x[1] == 0 && x[2] == 0 && x[3] == 0
	zz.Assert(x.IsZero() == isZero, "IsZero")
	zz.Assert(x.IsOne() == isOne, "IsOne")
	y := x
	y.SetZero()
	zz.Assert(y == Uint256{}, "SetZero")
	y = x
	y.SetOne()
	zz.Assert(y == Uint256{1, 0, 0, 0}, "SetOne")
	v := zz.U64("v")
	y.SetUint64(v)
	zz.Assert(y == Uint256{v, 0, 0, 0}, "SetUint64")
	y.SetUint256(&x)
	zz.Assert(y == x, "SetUint256")
	var t Uint256
	x.ToUint256(&t)
	zz.Assert(t == y, "ToUint256")
	switch {
	case isZero:
		zz.Reach("zero")
	case isOne:
		zz.Reach("one")
	default:
		zz.Reach("other")
	}
}

// BitLen is the least i with x < 2^i.
//
//zz:mode=bv bound=all_values reach=end,zero
func ZZ_BitLen() {
	x := zzU("x")
	l := x.BitLen()
	zz.Assert(l >= 0 && l <= 256, "BitLen in range")
	top := zzShr(x, uint(l))
	zz.Assert(top == Uint256{}, "x < 2^BitLen")
	if l == 0 {
		zz.Reach("zero")
		return
	}
	top = zzShr(x, uint(l-1))
	zz.Assert(top == Uint256{1}, "x >= 2^(BitLen-1)")
	zz.Reach("end")
}

// zzShr is x >> n for n <= 256.
func zzShr(x Uint256, n uint) (r Uint256) {
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			// word j of x contributes to word i of r
			if d := 64*uint(j-i) - n; j >= i && int(d) > -64 && int(d) < 64 {
				if int(d) >= 0 {
					r[i] |= x[j] << d
				} else {
					r[i] |= x[j] >> -d
				}
			}
		}
	}
	return
}

//zz:mode=bv bound=all_values,shift_amounts_0..64
func ZZ_Shift() {
	x := zzU("x")
	switch k := zz.Choice("op", 67); {
	case k == 65:
		y := x
		out := y.ShiftRightEq_64()
		zz.Assert(out == x[0] && y == Uint256{x[1], x[2], x[3], 0}, "ShiftRightEq_64")
	case k == 66:
		y := x
		out := y.ShiftLeftEq_64()
		zz.Assert(out == x[3] && y == Uint256{0, x[0], x[1], x[2]}, "ShiftLeftEq_64")
	default:
		y := x
		y.ShiftRightEq(uint(k))
		for i := 0; i < 256; i++ {
			var b uint64
			if i+k < 256 {
				b = x[(i+k)/64] >> (uint(i+k) % 64) & 1
			}
			zz.Assert(y[i/64]>>(uint(i)%64)&1 == b, "ShiftRightEq")
		}
	}
}

// Conversions to and from big.Int.
//
//zz:mode=int sort=Int bound=|x|<2^600 reach=ok256,ok512,panic
func ZZ_BigInt() {
	lim := new(big.Int).Lsh(big.NewInt(1), 600)
	v := zz.Int("v", new(big.Int).Neg(lim), lim)
	in256 := v.Sign() >= 0 && v.Cmp(zzR) < 0
	in512 := v.Sign() >= 0 && v.Cmp(zzR2) < 0
	v0 := new(big.Int).Set(v)
	switch zz.Choice("op", 4) {
	case 0:
		var u Uint256
		p := zz.Panics(func() { u.SetBigInt(v) })
		zz.Assert(p == !in256, "Uint256.SetBigInt panics exactly outside the range")
		if !p {
			zzEq(u[:], v0, "Uint256.SetBigInt")
			zz.Assert(u.ToBigInt().Cmp(v0) == 0, "Uint256 round trip")
			zz.Reach("ok256")
		}
	case 1:
		var u Uint256
		p := zz.Panics(func() { u = BigIntToUInt256(v) })
		zz.Assert(p == !in256, "BigIntToUInt256 panics exactly outside the range")
		if !p {
			zzEq(u[:], v0, "BigIntToUInt256")
		}
	case 2:
		var u Uint512
		p := zz.Panics(func() { u.SetBigInt(v) })
		zz.Assert(p == !in512, "Uint512.SetBigInt panics exactly outside the range")
		if !p {
			zzEq(u[:], v0, "Uint512.SetBigInt")
			zz.Assert(u.ToBigInt().Cmp(v0) == 0, "Uint512 round trip")
			zz.Reach("ok512")
		} else {
			zz.Reach("panic")
		}
	case 3:
		var u Uint512
		p := zz.Panics(func() { u = BigIntToUint512(v) })
		zz.Assert(p == !in512, "BigIntToUint512 panics exactly outside the range")
		if !p {
			zzEq(u[:], v0, "BigIntToUint512")
		}
	}
	zz.Assert(v.Cmp(v0) == 0, "argument unchanged")
}

// Conversions between the two sizes.
//
//zz:mode=bv bound=all_values reach=ok,panic
func ZZ_Uint512() {
	x := zzU("x")
	var z Uint512
	for i := range z {
		z[i] = zz.U64("z")
	}
	z0 := z
	var y Uint256
	p := zz.Panics(func() { z.ToUint256(&y) })
	fits := z[4] == 0 && z[5] == 0 && z[6] == 0 && z[7] == 0
	zz.Assert(p == !fits, "Uint512.ToUint256 panics exactly if the value does not fit")
	if !p {
		zz.Assert(y == Uint256{z0[0], z0[1], z0[2], z0[3]}, "Uint512.ToUint256")
		zz.Reach("ok")
	} else {
		zz.Reach("panic")
	}
	zz.Assert(z == z0, "value unchanged")
	z.SetUint256(&x)
	zz.Assert(z == Uint512{x[0], x[1], x[2], x[3]}, "Uint512.SetUint256")
	v := zz.U64("v")
	z.SetUint64(v)
	zz.Assert(z == Uint512{v}, "Uint512.SetUint64")
}
