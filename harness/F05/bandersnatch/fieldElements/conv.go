package fieldElements

import (
	"errors"
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// ---- conversions into a field element: the element with Montgomery form v*2^256

// zzIs asserts that z is a valid representation of the integer v modulo q.
func zzIs(z *FieldElement, v *big.Int, msg string) {
	zzCong(zzFV(z), zzMul(v, zzR), zzQ, msg)
	zzValid(z)
}

func zzI64(x int64) *big.Int  { return big.NewInt(x) }
func zzU64(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

//zz:mode=int replace=(*Uint256).ConvertToMontgomeryRepresentation_c:zzToContract bound=all
func ZZ_Conv_SetUint64() {
	z := zzFE("z")
	v := zz.U64("v")
	z.SetUint64(v)
	zzIs(&z, zzU64(v), "SetUint64")
}

//zz:mode=int replace=(*Uint256).ConvertToMontgomeryRepresentation_c:zzToContract bound=all reach=negative,minimal
func ZZ_Conv_SetInt64() {
	z := zzFE("z")
	v := zz.I64("v")
	z.SetInt64(v)
	zzIs(&z, zzI64(v), "SetInt64")
	if v < 0 {
		zz.Reach("negative")
	}
	if v == -1<<63 {
		zz.Reach("minimal")
	}
}

//zz:mode=int replace=(*Uint256).ConvertToMontgomeryRepresentation_c:zzToContract bound=all_uint256
func ZZ_Conv_SetUint256() {
	z := zzFE("z")
	u := zzU("u")
	u0 := u
	v := zzVal(u[:])
	if zz.Bool("alias") {
		z.words = u
		z.SetUint256(&z.words)
	} else {
		z.SetUint256(&u)
		zz.Assert(u == u0, "operand unchanged")
	}
	zzIs(&z, v, "SetUint256")
}

//zz:mode=int bound=all_|v|<2^320 reach=negative
func ZZ_Conv_SetBigInt() {
	z := zzFE("z")
	v := zzVal([]uint64{zz.U64("v"), zz.U64("v"), zz.U64("v"), zz.U64("v"), zz.U64("v")})
	if zz.Bool("neg") {
		v.Neg(v)
		zz.Reach("negative")
	}
	arg := new(big.Int).Set(v)
	z.SetBigInt(arg)
	zz.Assert(arg.Cmp(v) == 0, "argument unchanged")
	zzIs(&z, v, "SetBigInt")
}

// ---- conversions from a field element: n in [0,q) with n*2^256 = Montgomery form

func zzRepresents(n *big.Int, z *big.Int, msg string) {
	zzCong(zzMul(n, zzR), z, zzQ, msg)
}

//zz:mode=int replace=(*Uint256).ToNonMontgomery_fc:zzToNonCan,(*Uint256).FromMontgomeryRepresentation_fc:zzFromCan bound=all,all_representations
func ZZ_Conv_ToBigInt() {
	z, n := zzElem("z")
	zz.Assert(z.ToBigInt().Cmp(n) == 0, "ToBigInt")
	zzHas(&z, n, "operand keeps its value")
}

//zz:mode=int replace=(*Uint256).ToNonMontgomery_fc:zzToNonCan,(*Uint256).FromMontgomeryRepresentation_fc:zzFromCan bound=all,all_representations
func ZZ_Conv_ToUint256() {
	z, n := zzElem("z")
	u := zzU("u")
	if zz.Bool("alias") {
		z.ToUint256(&z.words)
		u = z.words
	} else {
		z.ToUint256(&u)
		zzHas(&z, n, "operand keeps its value")
	}
	zz.Assert(zzVal(u[:]).Cmp(n) == 0, "ToUint256")
}

// ToUint64 succeeds exactly for the elements with a canonical value below 2^64.
//
//zz:mode=int replace=(*Uint256).ToNonMontgomery_fc:zzToNonCan,(*Uint256).FromMontgomeryRepresentation_fc:zzFromCan bound=all,all_representations reach=fits,too_large
func ZZ_Conv_ToUint64() {
	z, c := zzElem("z")
	n, err := z.ToUint64()
	if err == nil {
		zz.Assert(c.Cmp(zzU64(n)) == 0, "ToUint64")
		zz.Reach("fits")
	} else {
		zz.Assert(errors.Is(err, ErrCannotRepresentFieldElement), "kind of error")
		zz.Assert(c.BitLen() > 64, "no error if the value fits")
		zz.Reach("too_large")
	}
	zzHas(&z, c, "operand keeps its value")
}

//zz:mode=int replace=(*Uint256).ToNonMontgomery_fc:zzToNonCan,(*Uint256).FromMontgomeryRepresentation_fc:zzFromCan bound=all,all_representations reach=positive,negative,too_large
func ZZ_Conv_ToInt64() {
	z, c := zzElem("z")
	n, err := z.ToInt64()
	if err == nil {
		if n < 0 {
			zz.Assert(c.Cmp(zzAdd(zzQ, zzI64(n))) == 0, "ToInt64")
			zz.Reach("negative")
		} else {
			zz.Assert(c.Cmp(zzI64(n)) == 0, "ToInt64")
			zz.Reach("positive")
		}
	} else {
		zz.Assert(errors.Is(err, ErrCannotRepresentFieldElement), "kind of error")
		zz.Assert(c.Cmp(zzI64(1<<63-1)) > 0 && c.Cmp(zzAdd(zzQ, zzI64(-1<<63))) < 0, "no error if the value fits")
		zz.Reach("too_large")
	}
	zzHas(&z, c, "operand keeps its value")
}

// The sign is that of the representative of minimal absolute value.
//
//zz:mode=int replace=(*Uint256).ToNonMontgomery_fc:zzToNonCan,(*Uint256).FromMontgomeryRepresentation_fc:zzFromCan bound=all,all_representations reach=plus,minus,zero
func ZZ_Conv_Sign() {
	z, c := zzElem("z")
	s := z.Sign()
	switch {
	case c.Sign() == 0:
		zz.Assert(s == 0, "sign of zero")
		zz.Reach("zero")
	case new(big.Int).Lsh(c, 1).Cmp(zzQ) > 0:
		zz.Assert(s == -1, "sign of a negative number")
		zz.Reach("minus")
	default:
		zz.Assert(s == 1, "sign of a positive number")
		zz.Reach("plus")
	}
	zzHas(&z, c, "operand keeps its value")
}

// ---- raw bytes

//zz:mode=bv bound=all
func ZZ_Conv_Bytes() {
	var z, y FieldElement
	for i := range z.words {
		z.words[i] = zz.U64("z")
		y.words[i] = zz.U64("y")
	}
	z0 := z
	l := z.BytesLength()
	zz.Assert(l == 32, "length")
	buf := zz.Bytes("buf", 40)
	k := zz.Choice("len", 4) * 2 // the buffer may be longer
	buf = buf[:32+k]
	var tail [8]byte
	copy(tail[:], buf[32:])
	z.ToBytes(buf)
	zz.Assert(z.words == z0.words, "operand unchanged")
	for i := range buf[32:] {
		zz.Assert(buf[32+i] == tail[i], "bytes behind are untouched")
	}
	var before [40]byte
	copy(before[:], buf)
	y.SetBytes(buf)
	zz.Assert(y.words == z.words, "read back with the same representation")
	for i := range buf {
		zz.Assert(buf[i] == before[i], "reading does not write")
	}
}

// ---- inversion and division

//zz:mode=int replace=(*Uint256).ToNonMontgomery_fc:zzToNonCan,(*Uint256).FromMontgomeryRepresentation_fc:zzFromCan bound=all,all_representations,all_alias_patterns reach=zero,nonzero
func ZZ_Conv_Inv() {
	x, n := zzElem("x")
	z, zn := zzElem("z")
	zp := &z
	form := zz.Choice("form", 3)
	if form != 0 {
		zp = &x
	}
	p, val := zz.PanicValue(func() {
		if form == 2 {
			x.InvEq()
		} else {
			zp.Inv(&x)
		}
	})
	if n.Sign() == 0 {
		zz.Assert(p, "inverting zero panics")
		e, ok := val.(error)
		zz.Assert(ok && errors.Is(e, ErrDivisionByZero), "panic value")
		zzHas(&x, n, "operand keeps its value")
		if form == 0 {
			zzHas(&z, zn, "target untouched")
		}
		zz.Reach("zero")
		return
	}
	zz.Assert(!p, "no panic")
	zzCong(zzMul(zzGet(&zp.words), n), big.NewInt(1), zzQ, "x * 1/x = 1")
	if form == 0 {
		zzHas(&x, n, "operand keeps its value")
	}
	zz.Reach("nonzero")
}

// z = x / y means z * y = x for nonzero y; all alias patterns.
//
//zz:mode=int replace=(*bsFieldElement_MontgomeryNonUnique).Inv:zzInvContract,(*Uint256).mulMontgomery_Unrolled_c:zzMulCan bound=all_pairs,all_representations,all_alias_patterns reach=zero,nonzero
func ZZ_Conv_Divide() {
	x, xn := zzElem("x")
	y, yn := zzElem("y")
	z, zn := zzElem("z")
	xp, yp, zp := &x, &y, &z
	op := zz.Choice("alias", 7)
	if op == 1 || op >= 4 {
		zn = xn
	} else if op == 2 {
		zn = yn
	}
	switch op {
	case 1:
		zp = &x
	case 2:
		zp = &y
	case 3:
		yp, yn = &x, xn
	case 4:
		yp, zp, yn = &x, &x, xn
	case 5:
		zp = &x
	case 6:
		zp, yp, yn = &x, &x, xn
	}
	p := zz.Panics(func() {
		if op >= 5 {
			zp.DivideEq(yp)
		} else {
			zp.Divide(xp, yp)
		}
	})
	if yn.Sign() == 0 {
		zz.Assert(p, "division by zero panics")
		zzHas(zp, zn, "the receiver is left alone")
		zzHas(xp, xn, "operand keeps its value")
		zz.Reach("zero")
		return
	}
	zz.Assert(!p, "no panic")
	zzCong(zzMul(zzGet(&zp.words), yn), xn, zzQ, "quotient times divisor")
	if zp != xp {
		zzHas(xp, xn, "operand keeps its value")
	}
	if zp != yp {
		zzHas(yp, yn, "operand keeps its value")
	}
	zz.Reach("nonzero")
}

// ---- mixed operations with machine integers

func zzSetInt64Contract(z *FieldElement, v int64)   { zzPut(&z.words, zzMod(zzI64(v), zzQ)) }
func zzSetUint64Contract(z *FieldElement, v uint64) { zzPut(&z.words, zzMod(zzU64(v), zzQ)) }

//zz:mode=int replace=(*bsFieldElement_MontgomeryNonUnique).SetInt64:zzSetInt64Contract,(*bsFieldElement_MontgomeryNonUnique).SetUint64:zzSetUint64Contract,(*bsFieldElement_MontgomeryNonUnique).Inv:zzInvContract,(*Uint256).mulMontgomery_Unrolled_c:zzMulCan bound=all_pairs,all_representations reach=negative,zero,nonzero
func ZZ_Conv_Mixed() {
	x, xn := zzElem("x")
	z, zn := zzElem("z")
	zp := &z
	alias := zz.Bool("alias")
	if alias {
		zp, zn = &x, xn
	}
	i, u := zz.I64("i"), zz.U64("u")
	if i < 0 {
		zz.Reach("negative")
	}
	op := zz.Choice("op", 8)
	m := zzI64(i)
	if op >= 4 {
		m = zzU64(u)
	}
	p := zz.Panics(func() {
		switch op {
		case 0:
			zp.AddInt64(&x, i)
		case 1:
			zp.SubInt64(&x, i)
		case 2:
			zp.MulInt64(&x, i)
		case 3:
			zp.DivideInt64(&x, i)
		case 4:
			zp.AddUint64(&x, u)
		case 5:
			zp.SubUint64(&x, u)
		case 6:
			zp.MulUint64(&x, u)
		case 7:
			zp.DivideUint64(&x, u)
		}
	})
	if op%4 == 3 && m.Sign() == 0 {
		zz.Assert(p, "division by zero panics")
		zzHas(zp, zn, "the receiver is left alone")
		zz.Reach("zero")
		return
	}
	zz.Assert(!p, "no panic")
	r := zzGet(&zp.words)
	switch op % 4 {
	case 0:
		zzCong(r, zzAdd(xn, m), zzQ, "x+m")
	case 1:
		zzCong(r, zzSub(xn, m), zzQ, "x-m")
	case 2:
		zzCong(r, zzMul(xn, m), zzQ, "x*m")
	case 3:
		zzCong(zzMul(r, m), xn, zzQ, "x/m")
		zz.Reach("nonzero")
	}
	if !alias {
		zzHas(&x, xn, "operand keeps its value")
	}
}
