package fieldElements

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

func zzBig(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("bad literal")
	}
	return r
}

// the modulus and the powers of two are written out here, independently of the package
var (
	zzQ     = zzBig("52435875175126190479447740508185965837690552500527637822603658699938581184513")
	zz2to64 = new(big.Int).Lsh(big.NewInt(1), 64)
	zzR     = new(big.Int).Lsh(big.NewInt(1), 256)
	zzR2    = new(big.Int).Lsh(big.NewInt(1), 512)
	zz2Q    = new(big.Int).Lsh(zzQ, 1)
	zzC     = new(big.Int).Sub(zzR, zzQ) // bound for c-reduced numbers
)

// zzVal is the integer in little-endian words.
func zzVal(w []uint64) *big.Int {
	r := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Add(r, new(big.Int).SetUint64(w[i]))
	}
	return r
}

// zzU is an arbitrary Uint256.
func zzU(name string) (u Uint256) {
	for i := range u {
		u[i] = zz.U64(name)
	}
	return
}

func zzUBelow(name string, bound *big.Int) Uint256 {
	u := zzU(name)
	zz.Assume(zzVal(u[:]).Cmp(bound) < 0)
	return u
}

func zzEq(got []uint64, want *big.Int, msg string) {
	zz.Assert(zzVal(got).Cmp(want) == 0, msg)
}

func zzMod(x, m *big.Int) *big.Int { return new(big.Int).Mod(x, m) }
func zzAdd(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
func zzSub(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }
func zzMul(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }

// zzCong asserts x = y modulo m.
func zzCong(x, y, m *big.Int, msg string) {
	zz.Assert(zzMod(zzSub(x, y), m).Sign() == 0, msg)
}

// zzBinary runs a binary operation with every pattern of coinciding operands
// and hands the values of the operands and the result to check.
func zzBinary(x, y Uint256, op func(z, x, y *Uint256), check func(x, y, z *big.Int)) {
	xv, yv := zzVal(x[:]), zzVal(y[:])
	x0, y0 := x, y
	switch zz.Choice("alias", 5) {
	case 0:
		z := zzU("z")
		op(&z, &x, &y)
		check(xv, yv, zzVal(z[:]))
		zz.Assert(x == x0 && y == y0, "operands unchanged")
	case 1:
		op(&x, &x, &y)
		check(xv, yv, zzVal(x[:]))
		zz.Assert(y == y0, "operand unchanged")
	case 2:
		op(&y, &x, &y)
		check(xv, yv, zzVal(y[:]))
		zz.Assert(x == x0, "operand unchanged")
	case 3:
		z := zzU("z")
		op(&z, &x, &x)
		check(xv, xv, zzVal(z[:]))
		zz.Assert(x == x0, "operand unchanged")
	case 4:
		op(&x, &x, &x)
		check(xv, xv, zzVal(x[:]))
	}
}

// zzUnary does the same for operations with one operand.
func zzUnary(x Uint256, op func(z, x *Uint256), check func(x, z *big.Int)) {
	xv := zzVal(x[:])
	x0 := x
	if zz.Bool("alias") {
		op(&x, &x)
		check(xv, zzVal(x[:]))
		return
	}
	z := zzU("z")
	op(&z, &x)
	check(xv, zzVal(z[:]))
	zz.Assert(x == x0, "operand unchanged")
}

// ---- contracts of Montgomery multiplication and conversion (discharged by F03)

func zzMulMontgomeryContract(z, x, y *Uint256) {
	zz.Assert(zzVal(x[:]).Cmp(zzC) < 0, "x in range")
	zz.Assert(zzVal(y[:]).Cmp(zzC) < 0, "y in range")
	xv, yv := zzVal(x[:]), zzVal(y[:])
	for i := range z {
		z[i] = zz.Ghost("z")
	}
	zz.Assume(zzVal(z[:]).Cmp(zzC) < 0)
	zz.Assume(zzMod(zzSub(zzMul(zzVal(z[:]), zzR), zzMul(xv, yv)), zzQ).Sign() == 0)
}

// zzFromContract: z is the w < q with w*2^256 = x modulo q.
func zzFromContract(z, x *Uint256) {
	zz.Assert(zzVal(x[:]).Cmp(zzC) < 0, "x in range")
	xv := zzVal(x[:])
	for i := range z {
		z[i] = zz.Ghost("z")
	}
	zz.Assume(zzVal(z[:]).Cmp(zzQ) < 0)
	zz.Assume(zzMod(zzSub(zzMul(zzVal(z[:]), zzR), xv), zzQ).Sign() == 0)
}

func zzToNonContract(z *Uint256) (r Uint256) {
	zzFromContract(&r, z)
	return
}

// zzToContract: z = x*2^256 modulo q.
func zzToContract(z, x *Uint256) {
	zz.Assert(zzVal(x[:]).Cmp(zzC) < 0, "x in range")
	xv := zzVal(x[:])
	for i := range z {
		z[i] = zz.Ghost("z")
	}
	zz.Assume(zzVal(z[:]).Cmp(zzC) < 0)
	zz.Assume(zzMod(zzSub(zzVal(z[:]), zzMul(xv, zzR)), zzQ).Sign() == 0)
}

// ---- field elements

// zzFE is an arbitrary field element in an arbitrary valid representation.
func zzFE(name string) (z FieldElement) {
	z.words = zzUBelow(name, zzC)
	return
}

func zzFV(z *FieldElement) *big.Int { return zzVal(z.words[:]) }

// zzValid asserts the invariant of the internal representation.
func zzValid(z *FieldElement) {
	zz.Assert(zzFV(z).Cmp(zzC) < 0, "valid internal representation")
}

// zzSame asserts that z still represents the element with Montgomery form v.
func zzSame(z *FieldElement, v *big.Int, msg string) {
	zzCong(zzFV(z), v, zzQ, msg)
	zzValid(z)
}

// ---- canonical values

var zzRinv = new(big.Int).ModInverse(zzR, zzQ)

// zzCan is the integer in [0,q) whose Montgomery form is v (modulo q).
func zzCan(v *big.Int) *big.Int { return zzMod(zzMul(v, zzRinv), zzQ) }

// zzPutInt stores v in [0,2^256).
func zzPutInt(z *Uint256, v *big.Int) {
	for i := range z {
		z[i] = zzMod(new(big.Int).Rsh(v, uint(64*i)), zz2to64).Uint64()
	}
}

// zzElem is an arbitrary field element in an arbitrary valid representation, together with its canonical value.
// (Every valid representation is the residue of n*2^256, possibly plus q.)
func zzElem(name string) (z FieldElement, n *big.Int) {
	n = zz.Int(name, new(big.Int), zzSub(zzQ, big.NewInt(1)))
	zzRepr(&z.words, n, zz.Int(name, new(big.Int), big.NewInt(1)))
	return
}

func zzRepr(z *Uint256, n, b *big.Int) {
	v := zzAdd(zzMod(zzMul(n, zzR), zzQ), zzMul(b, zzQ))
	zz.Assume(v.Cmp(zzC) < 0)
	zzPutInt(z, v)
}

// zzPut makes z some valid representation of the element with canonical value n.
func zzPut(z *Uint256, n *big.Int) {
	zzRepr(z, n, zz.GhostInt("repr", new(big.Int), big.NewInt(1)))
}

// zzGet is the canonical value of a valid representation.
func zzGet(z *Uint256) *big.Int {
	v := zzVal(z[:])
	zz.Assert(v.Cmp(zzC) < 0, "valid internal representation")
	return zzCan(v)
}

// zzHas asserts that z is a valid representation of the element with canonical value n modulo q.
func zzHas(z *FieldElement, n *big.Int, msg string) {
	zz.Assert(zzMod(zzSub(zzGet(&z.words), n), zzQ).Sign() == 0, msg)
}

// The contracts of above, stated with canonical values: w < q with w*2^256 = x is w = zzCan(x).

func zzFromCan(z, x *Uint256) { zzPutInt(z, zzGet(x)) }
func zzToNonCan(z *Uint256) (r Uint256) {
	zzFromCan(&r, z)
	return
}
func zzToCan(z, x *Uint256) {
	v := zzVal(x[:])
	zz.Assert(v.Cmp(zzC) < 0, "x in range")
	zzPut(z, zzMod(v, zzQ))
}
func zzMulCan(z, x, y *Uint256) { zzPut(z, zzMod(zzMul(zzGet(x), zzGet(y)), zzQ)) }

// zzInvContract is what F05 shows (ZZ_Conv_Inv).
func zzInvContract(z, x *FieldElement) {
	n := zzGet(&x.words)
	if n.Sign() == 0 {
		panic(ErrDivisionByZero)
	}
	i := zz.GhostInt("inv", big.NewInt(1), zzSub(zzQ, big.NewInt(1)))
	zz.Assume(zzMod(zzSub(zzMul(n, i), big.NewInt(1)), zzQ).Sign() == 0)
	zzPut(&z.words, i)
}

// zzMulFld is zzMulCan together with the fact that there are no zero divisors, because the modulus is prime.
func zzMulFld(z, x, y *Uint256) {
	xn, yn := zzGet(x), zzGet(y)
	if xn.Sign() == 0 || yn.Sign() == 0 {
		zzPut(z, new(big.Int))
		return
	}
	p := zzMod(zzMul(xn, yn), zzQ)
	zz.Assume(p.Sign() != 0)
	zzPut(z, p)
}
