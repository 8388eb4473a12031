package fieldElements

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

var (
	zzB = zz2to64
	// bound that makes adding k*q for any k < 2^64 stay below 2^320
	zzStepBound = zzAdd(zzMul(zzC, zzB), zzQ)
)

// Montgomery multiplication: z*2^256 = x*y modulo q and z < 2^256-q.
//
//zz:mode=int replace=montgomery_iteration:zzIterationContract,LongMulUint64:zzLongMulUint64Contract bound=all_pairs_in_range
func ZZ_MulMontgomery() {
	x, y := zzUBelow("x", zzC), zzUBelow("y", zzC)
	zzBinary(x, y, func(z, x, y *Uint256) { z.MulMontgomery_c(x, y) }, zzCheckMont)
}

// Exponentiation passes its base unreduced as second factor.
//
//zz:mode=int replace=montgomery_iteration:zzIterationContract,LongMulUint64:zzLongMulUint64Contract bound=first_factor_in_range,_second_arbitrary
func ZZ_MulMontgomeryAny() {
	x, y := zzUBelow("x", zzC), zzU("y")
	z := zzU("z")
	z.mulMontgomery_Unrolled_c(&x, &y)
	zzCheckMont(zzVal(x[:]), zzVal(y[:]), zzVal(z[:]))
}

// The same for the reference implementation.
//
//zz:mode=int replace=montgomery_step_64:zzStepContract,add_mul_shift_64:zzAddMulShiftContract,mul_four_one_64:zzMulFourOneContract bound=all_pairs_in_range
func ZZ_MulMontgomerySlow() {
	x, y := zzUBelow("x", zzC), zzUBelow("y", zzC)
	zzFacts = nil
	zzBinary(x, y, func(z, x, y *Uint256) { z.mulMontgomerySlow_c(x, y) }, zzCheckMont)
}

//zz:mode=int replace=montgomery_iteration:zzIterationContract,LongMulUint64:zzLongMulUint64Contract bound=all_in_range
func ZZ_SquareMontgomery() {
	x := zzUBelow("x", zzC)
	zzUnary(x, func(z, x *Uint256) { z.SquareMontgomery_c(x) }, func(x, z *big.Int) { zzCheckMont(x, x, z) })
}

func zzCheckMont(x, y, z *big.Int) {
	zz.Lemma(z.Cmp(zzC) < 0, "result in the promised range") // does not need the facts; with the facts a counterexample fits the inputs
	zzUseFacts()
	zz.Assert(z.Cmp(zzC) < 0, "result in the promised range")
	zzCong(zzMul(z, zzR), zzMul(x, y), zzQ, "z*2^256 = x*y")
}

// Leaving the Montgomery representation: z*2^256 = x modulo q and z < q.
//
//zz:mode=int cut=(*Uint256).FromMontgomeryRepresentation_fc:zzCutFrom bound=all_in_range
func ZZ_FromMontgomery() {
	x := zzUBelow("x", zzC)
	zzPrev, zzFacts = nil, nil
	zzUnary(x, func(z, x *Uint256) { z.FromMontgomeryRepresentation_fc(x) }, zzCheckFrom)
}

//zz:mode=int replace=montgomery_step_64:zzStepContract bound=all_in_range
func ZZ_ToNonMontgomery() {
	x := zzUBelow("x", zzC)
	zzFacts = nil
	zzUnary(x, func(z, x *Uint256) { *z = x.ToNonMontgomery_fc() }, zzCheckFrom)
}

func zzCheckFrom(x, z *big.Int) {
	zz.Lemma(z.Cmp(zzQ) < 0, "result fully reduced")
	zzUseFacts()
	zz.Assert(z.Cmp(zzQ) < 0, "result fully reduced")
	zzCong(zzMul(z, zzR), x, zzQ, "z*2^256 = x")
}

// Entering the Montgomery representation: z = x*2^256 modulo q and z < 2^256-q.
//
//zz:mode=int replace=(*Uint256).mulMontgomery_Unrolled_c:zzMulMontgomeryContract bound=all
func ZZ_ToMontgomery() {
	x := zzUBelow("x", zzC)
	zzUnary(x, func(z, x *Uint256) { z.ConvertToMontgomeryRepresentation_c(x) }, func(x, z *big.Int) {
		zzCong(z, zzMul(x, zzR), zzQ, "z = x*2^256")
		zz.Assert(z.Cmp(zzC) < 0, "result in the promised range")
	})
}

// One step: t'*2^64 = t + k*q + 2^64*x*y for k = -t/q mod 2^64, and t' stays below the bound.
//
//zz:mode=int bound=all_in_range
func ZZ_Iteration() {
	x, y := zzUBelow("x", zzC), zz.U64("y")
	var t [5]uint64
	for i := range t {
		t[i] = zz.U64("t")
	}
	zz.Assume(zzVal(t[:]).Cmp(zzStepBound) < 0)
	tv, xv := zzVal(t[:]), zzVal(x[:])
	k := new(big.Int).SetUint64(t[0] * 0xFFFFFFFE_FFFFFFFF)
	montgomery_iteration(&t, &x, y)
	zz.Assert(zzMul(zzVal(t[:]), zzB).Cmp(zzAdd(zzAdd(tv, zzMul(k, zzQ)), zzMul(zzB, zzMul(xv, new(big.Int).SetUint64(y))))) == 0, "t' = t/2^64 + x*y")
	zz.Assert(zzVal(t[:]).Cmp(zzStepBound) < 0, "range kept")
}

func zzIterationContract(t *[5]uint64, x *Uint256, y uint64) {
	zz.Assert(zzVal(t[:]).Cmp(zzStepBound) < 0, "t in range")
	zz.Assert(zzVal(x[:]).Cmp(zzC) < 0, "x in range")
	tv := zzVal(t[:])
	k := new(big.Int).SetUint64(zz.Ghost("k"))
	for i := range t {
		t[i] = zz.Ghost("t")
	}
	zz.Assume(zzMul(zzVal(t[:]), zzB).Cmp(zzAdd(zzAdd(tv, zzMul(k, zzQ)), zzMul(zzB, zzMul(zzVal(x[:]), new(big.Int).SetUint64(y))))) == 0)
	zz.Assume(zzVal(t[:]).Cmp(zzStepBound) < 0)
}

func zzLongMulUint64Contract(t *[5]uint64, x *Uint256, y uint64) {
	p := zzMul(zzVal(x[:]), new(big.Int).SetUint64(y))
	for i := range t {
		t[i] = zz.Ghost("t")
	}
	zz.Assume(zzVal(t[:]).Cmp(p) == 0)
}

var (
	zzPrev  *big.Int
	zzFacts [][2]*big.Int // proved equalities, assumed only for the final claim
	zzK     uint64
)

func zzFact(a, b *big.Int) { zzFacts = append(zzFacts, [2]*big.Int{a, b}) }

func zzUseFacts() {
	for _, f := range zzFacts {
		zz.Assume(f[0].Cmp(f[1]) == 0)
	}
}

// Invariant of the loop in FromMontgomeryRepresentation_fc: each round divides by 2^64 modulo q and stays in range.
func zzCutFrom(temp *[4]uint64) {
	v := zzVal(temp[:])
	zz.Assert(v.Cmp(zzC) < 0, "loop: in range")
	if zzPrev != nil {
		zz.Assert(zzMul(v, zzB).Cmp(zzAdd(zzPrev, zzMul(new(big.Int).SetUint64(zzK), zzQ))) == 0, "loop: division by 2^64")
		for i := range temp {
			temp[i] = zz.Ghost("temp")
		}
		v = zzVal(temp[:])
		zz.Assume(v.Cmp(zzC) < 0)
		zzFact(zzMul(v, zzB), zzAdd(zzPrev, zzMul(new(big.Int).SetUint64(zzK), zzQ)))
	}
	zzPrev, zzK = v, temp[0]*0xFFFFFFFE_FFFFFFFF
}

// Helpers of the reference implementation.
//
//zz:mode=int bound=all
func ZZ_Step64() {
	t, k := zzU("t"), zz.U64("k")
	v := zzStepValue(&t, k)
	zz.Assume(v.Cmp(zzR) < 0)
	montgomery_step_64(&t, k)
	zz.Assert(zzVal(t[:]).Cmp(v) == 0, "t + floor(k*q/2^64) + 1")
}

func zzStepValue(t *Uint256, k uint64) *big.Int {
	h := new(big.Int).Rsh(zzMul(new(big.Int).SetUint64(k), zzQ), 64)
	return zzAdd(zzAdd(zzVal(t[:]), h), big.NewInt(1))
}

func zzStepContract(t *Uint256, k uint64) {
	v := zzStepValue(t, k)
	zz.Assert(v.Cmp(zzR) < 0, "no overflow")
	kv := new(big.Int).SetUint64(k)
	r := new(big.Int).SetUint64(-(k * 0xffffffff_00000001)) // -k*q modulo 2^64
	zz.Assert(r.Sign() != 0, "carry")
	// 2^64*v = 2^64*t + k*q + r
	tv := zzVal(t[:])
	small := zzAdd(zzQ, new(big.Int).Lsh(big.NewInt(1), 192))
	isSmall := v.Cmp(small) < 0
	for i := range t {
		t[i] = zz.Ghost("t")
	}
	w := zzVal(t[:])
	if isSmall {
		zz.Assume(w.Cmp(small) < 0)
	}
	zzFact(zzMul(zzB, w), zzAdd(zzAdd(zzMul(zzB, tv), r), zzMul(kv, zzQ)))
}

//zz:mode=int bound=all
func ZZ_AddMulShift() {
	t, x, y := zzU("t"), zzU("x"), zz.U64("y")
	v := zzAdd(zzVal(t[:]), zzMul(zzVal(x[:]), new(big.Int).SetUint64(y)))
	low := add_mul_shift_64(&t, &x, y)
	zz.Assert(zzAdd(zzMul(zzVal(t[:]), zzB), new(big.Int).SetUint64(low)).Cmp(v) == 0, "t + x*y")
}

func zzAddMulShiftContract(t *Uint256, x *Uint256, y uint64) (low uint64) {
	v := zzAdd(zzVal(t[:]), zzMul(zzVal(x[:]), new(big.Int).SetUint64(y)))
	bound := zzAdd(zzSub(zzAdd(zzMul(zzC, zzB), zzQ), zzB), big.NewInt(1))
	zz.Assert(v.Cmp(bound) < 0, "shifted sum in range")
	for i := range t {
		t[i] = zz.Ghost("t")
	}
	low = zz.Ghost("low")
	w := zzAdd(zzMul(zzVal(t[:]), zzB), new(big.Int).SetUint64(low))
	zz.Assume(w.Cmp(bound) < 0)
	zzFact(w, v)
	return low
}

//zz:mode=int bound=all
func ZZ_MulFourOne() {
	x, y := zzU("x"), zz.U64("y")
	low, high := mul_four_one_64(&x, y)
	zz.Assert(zzAdd(zzMul(zzVal(high[:]), zzB), new(big.Int).SetUint64(low)).Cmp(zzMul(zzVal(x[:]), new(big.Int).SetUint64(y))) == 0, "x*y")
	var t [5]uint64
	LongMulUint64(&t, &x, y)
	zz.Assert(zzVal(t[:]).Cmp(zzMul(zzVal(x[:]), new(big.Int).SetUint64(y))) == 0, "LongMulUint64")
}

func zzMulFourOneContract(x *Uint256, y uint64) (low uint64, high Uint256) {
	low = zz.Ghost("low")
	for i := range high {
		high[i] = zz.Ghost("high")
	}
	v := zzMul(zzVal(x[:]), new(big.Int).SetUint64(y))
	zz.Assert(v.Cmp(zzMul(zzC, zzB)) < 0, "product in range")
	w := zzAdd(zzMul(zzVal(high[:]), zzB), new(big.Int).SetUint64(low))
	zz.Assume(w.Cmp(zzMul(zzC, zzB)) < 0)
	zzFact(w, v)
	return
}
