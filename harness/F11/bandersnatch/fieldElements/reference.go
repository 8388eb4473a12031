package fieldElements

import (
	"errors"
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

type zzRefFE = bsFieldElement_BigInt

// zzRE is an arbitrary element of the reference implementation and its value.
func zzRE(name string) (z zzRefFE, n *big.Int) {
	z.value = zzUBelow(name, zzQ)
	return z, zzVal(z.value[:])
}

// zzRIs asserts that z has the value v modulo q, in the unique representation.
func zzRIs(z *zzRefFE, v *big.Int, msg string) {
	n := zzVal(z.value[:])
	zz.Assert(n.Cmp(zzQ) < 0, "the representation is reduced")
	zz.Assert(n.Cmp(zzMod(v, zzQ)) == 0, msg)
}

// Sums, products, quotients: in every alias pattern, together with their in-place forms.
//
//zz:mode=int bound=all_pairs,all_alias_patterns reach=divzero,done
func ZZ_Binary() {
	x, xn := zzRE("x")
	y, yn := zzRE("y")
	z, zn := zzRE("z")
	xp, yp, zp := &x, &y, &z
	alias := zz.Choice("alias", 5)
	switch alias {
	case 1:
		zp, zn = &x, xn
	case 2:
		zp, zn = &y, yn
	case 3:
		yp, yn = &x, xn
	case 4:
		yp, zp, yn, zn = &x, &x, xn, xn
	}
	op := zz.Choice("op", 8)
	if op >= 4 {
		// in-place forms: the receiver is the first operand
		zz.Assume(alias == 1 || alias == 4)
	}
	p, val := zz.PanicValue(func() {
		switch op {
		case 0:
			zp.Add(xp, yp)
		case 1:
			zp.Sub(xp, yp)
		case 2:
			zp.Mul(xp, yp)
		case 3:
			zp.Divide(xp, yp)
		case 4:
			zp.AddEq(yp)
		case 5:
			zp.SubEq(yp)
		case 6:
			zp.MulEq(yp)
		case 7:
			zp.DivideEq(yp)
		}
	})
	if op%4 == 3 && yn.Sign() == 0 {
		e, ok := val.(error)
		zz.Assert(p && ok && errors.Is(e, ErrDivisionByZero), "division by zero panics")
		zzRIs(zp, zn, "the receiver is left alone")
		zz.Reach("divzero")
		return
	}
	zz.Assert(!p, "no panic")
	switch op % 4 {
	case 0:
		zzRIs(zp, zzAdd(xn, yn), "sum")
	case 1:
		zzRIs(zp, zzSub(xn, yn), "difference")
	case 2:
		zzRIs(zp, zzMul(xn, yn), "product")
	case 3:
		r := zzVal(zp.value[:])
		zz.Assert(r.Cmp(zzQ) < 0, "the representation is reduced")
		zzCong(zzMul(r, yn), xn, zzQ, "quotient times divisor")
	}
	if zp != xp {
		zzRIs(xp, xn, "operand unchanged")
	}
	if zp != yp {
		zzRIs(yp, yn, "operand unchanged")
	}
	zz.Reach("done")
}

//zz:mode=int bound=all_values,all_alias_patterns reach=invzero,done
func ZZ_Unary() {
	x, xn := zzRE("x")
	z, zn := zzRE("z")
	zp := &z
	op := zz.Choice("op", 10)
	alias := op >= 5 || zz.Bool("alias")
	if alias {
		zp, zn = &x, xn
	}
	p, val := zz.PanicValue(func() {
		switch op {
		case 0:
			zp.Neg(&x)
		case 1:
			zp.Double(&x)
		case 2:
			zp.Square(&x)
		case 3:
			zp.MulFive(&x)
		case 4:
			zp.Inv(&x)
		case 5:
			zp.NegEq()
		case 6:
			zp.DoubleEq()
		case 7:
			zp.SquareEq()
		case 8:
			zp.MulEqFive()
		case 9:
			zp.InvEq()
		}
	})
	if op%5 == 4 && xn.Sign() == 0 {
		e, ok := val.(error)
		zz.Assert(p && ok && errors.Is(e, ErrDivisionByZero), "inverting zero panics")
		zzRIs(zp, zn, "the receiver is left alone")
		zz.Reach("invzero")
		return
	}
	zz.Assert(!p, "no panic")
	switch op % 5 {
	case 0:
		zzRIs(zp, new(big.Int).Neg(xn), "negative")
	case 1:
		zzRIs(zp, zzAdd(xn, xn), "double")
	case 2:
		zzRIs(zp, zzMul(xn, xn), "square")
	case 3:
		zzRIs(zp, zzMul(xn, big.NewInt(5)), "five times")
	case 4:
		r := zzVal(zp.value[:])
		zz.Assert(r.Cmp(zzQ) < 0, "the representation is reduced")
		zzCong(zzMul(r, xn), big.NewInt(1), zzQ, "inverse")
	}
	if !alias {
		zzRIs(&x, xn, "operand unchanged")
	}
	zz.Reach("done")
}

// Operations with machine integers agree with those on the converted integer.
//
//zz:mode=int replace=(*bsFieldElement_BigInt).SetInt64:zzRSetInt64,(*bsFieldElement_BigInt).SetUint64:zzRSetUint64 bound=all_values reach=divzero,done
func ZZ_Mixed() {
	x, xn := zzRE("x")
	z, zn := zzRE("z")
	zp := &z
	alias := zz.Bool("alias")
	if alias {
		zp, zn = &x, xn
	}
	i, u := zz.I64("i"), zz.U64("u")
	op := zz.Choice("op", 8)
	m := big.NewInt(i)
	if op >= 4 {
		m = new(big.Int).SetUint64(u)
	}
	p := zz.Panics(func() {
		switch op {
		case 0:
			zp.AddInt64(&x, i)
		case 1:
			zp.SubInt64(&x, i)
		case 2:
			zp.MulInt64(&x, i)
		case 3:
			zp.DivideInt64(&x, i)
		case 4:
			zp.AddUint64(&x, u)
		case 5:
			zp.SubUint64(&x, u)
		case 6:
			zp.MulUint64(&x, u)
		case 7:
			zp.DivideUint64(&x, u)
		}
	})
	zz.Assert(p == (op%4 == 3 && m.Sign() == 0), "panics exactly when dividing by zero")
	if p {
		zzRIs(zp, zn, "the receiver is left alone")
		zz.Reach("divzero")
		return
	}
	switch op % 4 {
	case 0:
		zzRIs(zp, zzAdd(xn, m), "sum")
	case 1:
		zzRIs(zp, zzSub(xn, m), "difference")
	case 2:
		zzRIs(zp, zzMul(xn, m), "product")
	case 3:
		r := zzVal(zp.value[:])
		zz.Assert(r.Cmp(zzQ) < 0, "the representation is reduced")
		zzCong(zzMul(r, m), xn, zzQ, "quotient times divisor")
	}
	if !alias {
		zzRIs(&x, xn, "operand unchanged")
	}
	zz.Reach("done")
}

// Conversions to field elements.
//
//zz:mode=int bound=integers_below_2^320_in_absolute_value,_all_machine_integers,_all_of_256_bits reach=done
func ZZ_Set() {
	z, _ := zzRE("z")
	switch zz.Choice("set", 6) {
	case 0:
		v := zz.Int("v", new(big.Int).Neg(new(big.Int).Lsh(zzR, 64)), new(big.Int).Lsh(zzR, 64))
		w := new(big.Int).Set(v)
		z.SetBigInt(v)
		zzRIs(&z, w, "SetBigInt")
		zz.Assert(v.Cmp(w) == 0, "argument unchanged")
	case 1:
		u := zzU("u")
		u0 := u
		z.SetUint256(&u)
		zzRIs(&z, zzVal(u0[:]), "SetUint256")
		zz.Assert(u == u0, "argument unchanged")
	case 2:
		v := zz.U64("v")
		z.SetUint64(v)
		zzRIs(&z, new(big.Int).SetUint64(v), "SetUint64")
	case 3:
		v := zz.I64("v")
		z.SetInt64(v)
		zzRIs(&z, big.NewInt(v), "SetInt64")
	case 4:
		z.SetZero()
		zzRIs(&z, new(big.Int), "SetZero")
	case 5:
		z.SetOne()
		zzRIs(&z, big.NewInt(1), "SetOne")
	}
	zz.Reach("done")
}

func zzRSetInt64(z *zzRefFE, v int64)   { zzPutInt(&z.value, zzMod(big.NewInt(v), zzQ)) }
func zzRSetUint64(z *zzRefFE, v uint64) { zzPutInt(&z.value, zzMod(new(big.Int).SetUint64(v), zzQ)) }

// Conversions from field elements and predicates.
//
//zz:mode=int bound=all_values reach=fits64,fitsu,toolarge,zero,plus,minus
func ZZ_Convert() {
	x, xn := zzRE("x")
	x0 := x
	zz.Assert(x.ToBigInt().Cmp(xn) == 0, "ToBigInt")
	var u Uint256
	x.ToUint256(&u)
	zz.Assert(zzVal(u[:]).Cmp(xn) == 0, "ToUint256")
	zz.Assert(x.IsZero() == (xn.Sign() == 0) && x.IsOne() == (xn.Cmp(big.NewInt(1)) == 0), "zero and one")
	neg := zzSub(zzQ, xn)
	half := new(big.Int).Lsh(xn, 1).Cmp(zzQ) < 0
	switch {
	case xn.Sign() == 0:
		zz.Assert(x.Sign() == 0, "sign of zero")
		zz.Reach("zero")
	case half:
		zz.Assert(x.Sign() == 1, "positive sign")
		zz.Reach("plus")
	default:
		zz.Assert(x.Sign() == -1, "negative sign")
		zz.Reach("minus")
	}
	a, err := x.ToUint64()
	zz.Assert((err == nil) == (xn.Cmp(zz2to64) < 0), "ToUint64 fails exactly for large values")
	if err == nil {
		zz.Assert(new(big.Int).SetUint64(a).Cmp(xn) == 0, "ToUint64")
		zz.Reach("fitsu")
	} else {
		zz.Assert(errors.Is(err, ErrCannotRepresentFieldElement), "ToUint64: kind of error")
	}
	b, err := x.ToInt64()
	lim := new(big.Int).Rsh(zz2to64, 1)
	zz.Assert((err == nil) == (xn.Cmp(lim) < 0 || neg.Cmp(lim) <= 0), "ToInt64 fails exactly for values of large absolute value")
	if err == nil {
		zzCong(big.NewInt(b), xn, zzQ, "ToInt64")
		zz.Reach("fits64")
	} else {
		zz.Assert(errors.Is(err, ErrCannotRepresentFieldElement), "ToInt64: kind of error")
		zz.Reach("toolarge")
	}
	x.Normalize()
	x.RerandomizeRepresentation(7)
	zz.Assert(x == x0, "operand unchanged")
}

// Comparison, also up to sign.
//
//zz:mode=int bound=all_pairs_of_values reach=equal,opposite,different
func ZZ_Compare() {
	var x, y zzRefFE
	xn := zz.Int("x", new(big.Int), zzSub(zzQ, big.NewInt(1)))
	yn := zz.Int("y", new(big.Int), zzSub(zzQ, big.NewInt(1)))
	zzPutInt(&x.value, xn)
	zzPutInt(&y.value, yn)
	x0, y0 := x, y
	eq := xn.Cmp(yn) == 0
	opp := !eq && zzAdd(xn, yn).Cmp(zzQ) == 0
	r := x.IsEqual(&y)
	ab, ex := x.CmpAbs(&y)
	zz.Assert(x == x0 && y == y0, "operands unchanged")
	switch {
	case eq:
		zz.Assert(r && ab && ex, "equal elements")
		zz.Reach("equal")
	case opp:
		zz.Assert(!r && ab && !ex, "opposite elements")
		zz.Reach("opposite")
	default:
		zz.Assert(!r && !ab && !ex, "elements of different absolute value")
		zz.Reach("different")
	}
}

// Bytes of the internal representation.
//
//zz:mode=int bound=all_byte_strings_of_length_32_to_34 reach=ok,rejected
func ZZ_Bytes() {
	buf := zz.Bytes("buf", 32+zz.Choice("more", 3))
	old := append([]byte(nil), buf...)
	v := new(big.Int)
	for i := 31; i >= 0; i-- {
		v.Lsh(v, 8)
		v.Add(v, new(big.Int).SetUint64(uint64(buf[i])))
	}
	var z zzRefFE
	p := zz.Panics(func() { z.SetBytes(buf) })
	zz.Assert(p == (v.Cmp(zzQ) >= 0), "exactly the valid representations are accepted")
	zz.Assert(z.BytesLength() == 32, "length")
	if p {
		zz.Reach("rejected")
		return
	}
	zzRIs(&z, v, "SetBytes")
	out := make([]byte, 34)
	z.ToBytes(out)
	for i := range out {
		zz.Assert(i < 32 && out[i] == old[i] || i >= 32 && out[i] == 0, "ToBytes inverts SetBytes")
	}
	zz.Reach("ok")
}
