package exponents

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

func zzBig(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad literal")
	}
	return r
}

var (
	zzP253 = zzBig("0x1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1")
	zzMod  = new(big.Int).Lsh(zzP253, 1)
)

// zzExp is an arbitrary exponent and its integer value.
func zzExp(name string) (e Exponent, v *big.Int) {
	v = zz.Int(name, new(big.Int), new(big.Int).Sub(zzMod, big.NewInt(1)))
	e.SetBigInt(v)
	return
}

func zzCheck(e *Exponent, want *big.Int, msg string) {
	got := e.ToBigInt_Full()
	zz.Assert(got.Cmp(zzMod) < 0, msg+": result is reduced")
	zz.Assert(got.Cmp(new(big.Int).Mod(want, zzMod)) == 0, msg)
	zz.Observe(msg, got)
}

// Conversion of an integer to an exponent and back is reduction modulo 2*p253.
//
//zz:mode=int sort=Int bound=|x|<2^300
func ZZ_Exp_SetBigInt() {
	x := zz.Int("x", zzBig("-0x10000000000000000000000000000000000000000000000000000000000000000000000000000"), zzBig("0x10000000000000000000000000000000000000000000000000000000000000000000000000000"))
	var e Exponent
	e.SetBigInt(x)
	zzCheck(&e, x, "SetBigInt")
}

// Add is addition modulo 2*p253, also when the receiver is one of the operands.
//
//zz:mode=int sort=Int bound=all_pairs
func ZZ_Exp_Add() {
	x, xv := zzExp("x")
	y, yv := zzExp("y")
	want := new(big.Int).Add(xv, yv)
	switch zz.Choice("alias", 3) {
	case 0:
		z, _ := zzExp("z")
		z.Add(&x, &y)
		zzCheck(&z, want, "Add")
	case 1:
		x.Add(&x, &y)
		zzCheck(&x, want, "Add aliasing first")
	case 2:
		y.Add(&x, &y)
		zzCheck(&y, want, "Add aliasing second")
	}
}

// Sub is subtraction modulo 2*p253.
//
//zz:mode=int sort=Int bound=all_pairs
func ZZ_Exp_Sub() {
	x, xv := zzExp("x")
	y, yv := zzExp("y")
	want := new(big.Int).Sub(xv, yv)
	switch zz.Choice("alias", 3) {
	case 0:
		z, _ := zzExp("z")
		z.Sub(&x, &y)
		zzCheck(&z, want, "Sub")
	case 1:
		x.Sub(&x, &y)
		zzCheck(&x, want, "Sub aliasing first")
	case 2:
		y.Sub(&x, &y)
		zzCheck(&y, want, "Sub aliasing second")
	}
}

// Neg is negation modulo 2*p253.
//
//zz:mode=int sort=Int bound=all
func ZZ_Exp_Neg() {
	x, xv := zzExp("x")
	want := new(big.Int).Neg(xv)
	if zz.Choice("alias", 2) == 0 {
		z, _ := zzExp("z")
		z.Neg(&x)
		zzCheck(&z, want, "Neg")
	} else {
		x.Neg(&x)
		zzCheck(&x, want, "Neg aliasing")
	}
}

// Mul is multiplication modulo 2*p253.
//
//zz:mode=int sort=Int bound=all_pairs
func ZZ_Exp_Mul() {
	x, xv := zzExp("x")
	y, yv := zzExp("y")
	want := new(big.Int).Mul(xv, yv)
	switch zz.Choice("alias", 3) {
	case 0:
		z, _ := zzExp("z")
		z.Mul(&x, &y)
		zzCheck(&z, want, "Mul")
	case 1:
		x.Mul(&x, &y)
		zzCheck(&x, want, "Mul aliasing first")
	case 2:
		x.Mul(&x, &x)
		zzCheck(&x, new(big.Int).Mul(xv, xv), "Mul aliasing both")
	}
}

// SetInt stores the given signed integer modulo 2*p253.
//
//zz:mode=int sort=Int bound=all_int64
func ZZ_Exp_SetInt() {
	i := zz.I64("i")
	z, _ := zzExp("z")
	z.SetInt(i)
	zzCheck(&z, big.NewInt(i), "SetInt")
}

// SetUInt stores the given unsigned integer.
//
//zz:mode=int sort=Int bound=all_uint64
func ZZ_Exp_SetUInt() {
	i := zz.U64("i")
	z, _ := zzExp("z")
	z.SetUInt(i)
	zzCheck(&z, new(big.Int).SetUint64(i), "SetUInt")
}

// Reduction modulo p253 and conversion to the subgroup representative.
//
//zz:mode=int sort=Int bound=all
func ZZ_Exp_Subgroup() {
	x, xv := zzExp("x")
	want := new(big.Int).Mod(xv, zzP253)
	r := x.ModuloP253()
	zz.Assert(r.ToBigInt_Full().Cmp(want) == 0, "ModuloP253")
	zz.Assert(x.ToBigInt_Subgroup().Cmp(want) == 0, "ToBigInt_Subgroup")
	zz.Assert(x.ToBigInt_Full().Cmp(xv) == 0, "receiver unchanged")
	zz.Assert(x.IsZero_Subgroup() == (want.Sign() == 0), "IsZero_Subgroup")
	zz.Assert(x.IsOne_Subgroup() == (want.Cmp(big.NewInt(1)) == 0), "IsOne_Subgroup")
	zz.Assert(x.IsZero_Full() == (xv.Sign() == 0), "IsZero_Full")
	zz.Assert(x.IsOne_Full() == (xv.Cmp(big.NewInt(1)) == 0), "IsOne_Full")
	zz.Observe("r", r.ToBigInt_Full())
}

// SetZero and SetOne.
//
//zz:mode=int sort=Int bound=all
func ZZ_Exp_Consts() {
	x, _ := zzExp("x")
	x.SetZero()
	zz.Assert(x.ToBigInt_Full().Sign() == 0, "SetZero")
	x.SetOne()
	zz.Assert(x.ToBigInt_Full().Cmp(big.NewInt(1)) == 0, "SetOne")
}
