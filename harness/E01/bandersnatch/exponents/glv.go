package exponents

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

func zzBig(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad literal")
	}
	return r
}

var (
	zzP253   = zzBig("0x1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1")
	zzLambda = zzBig("0x13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05")
)

// For every exponent t with 0 <= t < 2*p253, the decomposition (u,v) satisfies u + v*lambda = t modulo p253.
//
//zz:mode=int bound=every_exponent reach=end
func ZZ_GLV_congruence() {
	t := zz.Int("t", new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(zzP253, 1), big.NewInt(1)))
	var e Exponent
	e.SetBigInt(t)
	uv := GLV_representation(&e)
	u, v := uv.U.ToBigInt(), uv.V.ToBigInt()
	s := new(big.Int).Mul(v, zzLambda)
	s.Add(s, u)
	s.Sub(s, t)
	s.Mod(s, zzP253)
	zz.Assert(s.Sign() == 0, "u + v*lambda = t (mod p253)")
	zz.Observe("uv", u, v)
	zz.Reach("end")
}

// For every exponent, both parts of the decomposition have at most 126 bits.
//
//zz:mode=int bound=every_exponent
func ZZ_GLV_short() {
	t := zz.Int("t", new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(zzP253, 1), big.NewInt(1)))
	var e Exponent
	e.SetBigInt(t)
	uv := GLV_representation(&e)
	u, v := uv.U.ToBigInt(), uv.V.ToBigInt()
	lim := new(big.Int).Lsh(big.NewInt(1), 126)
	zz.Assert(u.CmpAbs(lim) < 0, "|u| < 2^126")
	zz.Assert(v.CmpAbs(lim) < 0, "|v| < 2^126")
}

// No other decomposition has smaller parts: none of the six neighbours (the vectors of the lattice which are relevant for
// its Voronoi cell in the maximum norm) is smaller.
//
//zz:mode=int bound=every_exponent reach=end
func ZZ_GLV_optimal() {
	t := zz.Int("t", new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(zzP253, 1), big.NewInt(1)))
	var e Exponent
	e.SetBigInt(t)
	uv := GLV_representation(&e)
	u, v := uv.U.ToBigInt(), uv.V.ToBigInt()
	b11, b12 := zzBig("113482231691339203864511368254957623327"), zzBig("10741319382058138887739339959866629956")
	b21, b22 := zzBig("-21482638764116277775478679919733259912"), b11
	k := zz.Choice("neighbour", 6)
	var x, y *big.Int
	switch k / 2 {
	case 0:
		x, y = b11, b12
	case 1:
		x, y = b21, b22
	case 2:
		x, y = new(big.Int).Add(b11, b21), new(big.Int).Add(b12, b22)
	}
	if k%2 == 0 {
		x, y = new(big.Int).Neg(x), new(big.Int).Neg(y)
	}
	x, y = new(big.Int).Add(u, x), new(big.Int).Add(v, y)
	zz.Assert(zzNotSmaller(x, y, u) && zzNotSmaller(x, y, v), "no decomposition is shorter")
	zz.Reach("end")
}

// zzNotSmaller says whether x or y is at least as large as u in absolute value.
func zzNotSmaller(x, y, u *big.Int) bool { return x.CmpAbs(u) >= 0 || y.CmpAbs(u) >= 0 }
