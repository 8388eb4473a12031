package fieldElements

import (
	"math/big"
	"math/bits"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// The Jacobi symbol is decided one round of the loop at a time, from every state (p, q, sign) with odd q: the answer for
// the new state must be the one for the old state, by these rules, all of which hold for every p and odd q:
//   (0/q) = 0 unless q = 1, (p/1) = 1, (2p/q) = (p/q) unless q = 3,5 mod 8, else -(p/q),
//   (p/q) = (q/p) for odd p unless p = q = 3 mod 4, else -(q/p), (p/q) = (p-q/q).

var (
	zzJP, zzJQ  Uint256
	zzJSign     int
	zzJArrivals int
	zzJX        Uint256
)

func zzJSub(x, y *Uint256) (r Uint256, borrow uint64) {
	for i := range r {
		r[i], borrow = bits.Sub64(x[i], y[i], borrow)
	}
	return
}

func zzJIsZero(x *Uint256) bool { return x[0]|x[1]|x[2]|x[3] == 0 }
func zzJIsOne(x *Uint256) bool  { return x[0]^1|x[1]|x[2]|x[3] == 0 }
func zzJSame(x, y *Uint256) bool {
	return x[0]^y[0]|x[1]^y[1]|x[2]^y[2]|x[3]^y[3] == 0
}

// zzJHalve removes t factors of two.
func zzJHalve(p *Uint256, t uint) {
	if t >= 64 {
		*p = Uint256{p[1], p[2], p[3], 0}
		t -= 64
	}
	if t > 0 {
		*p = Uint256{p[0]>>t | p[1]<<(64-t), p[1]>>t | p[2]<<(64-t), p[2]>>t | p[3]<<(64-t), p[3] >> t}
	}
}

// zzJNext is the state after the next round: even numbers are halved (at most 64 times), the larger one of two odd
// numbers is diminished by the other. The sign is 0 or 1.
func zzJNext(p, q Uint256) (p1, q1 Uint256, sign uint64) {
	t := uint(bits.TrailingZeros64(p[0]))
	zzJHalve(&p, t)
	if t == 64 {
		return p, q, 0
	}
	sign = uint64(t) & 1 & (q[0]>>1 ^ q[0]>>2) // q = 3, 5 mod 8
	d, borrow := zzJSub(&p, &q)
	if borrow != 0 {
		sign ^= p[0] >> 1 & (q[0] >> 1) & 1
		d, _ = zzJSub(&q, &p)
		return d, p, sign & 1
	}
	return d, q, sign & 1
}

func zzCutJacobi(p, q *Uint256, accumulatedSign *int) {
	zzJArrivals++
	if zzJArrivals == 1 {
		zz.Assert(zzJSame(p, &zzJX) && zzJSame(q, &baseFieldSize_uint256) && *accumulatedSign&2 == 0, "loop: initial state")
	} else {
		p1, q1, s := zzJNext(zzJP, zzJQ)
		zz.Assert(zzJSame(p, &p1) && zzJSame(q, &q1), "loop: the next pair of numbers")
		zz.Assert(uint64(*accumulatedSign)>>1&1 == uint64(zzJSign)>>1&1^s, "loop: sign")
		zz.Assert(q[0]&1 == 1, "loop: odd")
		zz.Assume(false)
	}
	for i := range p {
		p[i], q[i] = zz.Ghost("p"), zz.Ghost("q")
	}
	q[0] |= 1
	*accumulatedSign = int(zz.Ghost("sign"))
	zzJP, zzJQ, zzJSign = *p, *q, *accumulatedSign
}

// The final answer comes from a state by the rules for (0/q) and (p/1).
//
//zz:mode=bv cut=(*Uint256).jacobiV1_a:zzCutJacobi bound=all_values,_all_states_of_the_loop reach=zero,one
func ZZ_JacobiStep() {
	x := zzU("x")
	zzJX, zzJArrivals = x, 0
	if zz.IsNative() {
		zzJNative(x)
		return
	}
	if !zz.IsSymbolic() {
		zz.Assert(x.jacobiV1_a() == big.Jacobi(zzMod(zzVal(x[:]), zzQ), zzQ), "Jacobi symbol")
		return
	}
	r := x.jacobiV1_a()
	zz.Assert(zzJSame(&x, &zzJX), "argument unchanged")
	p, q := zzJP, zzJQ
	if zzJIsZero(&p) {
		if zzJIsOne(&q) { // not reachable: the loop ends before the numbers coincide
			return
		}
		zz.Assert(r == 0, "zero has symbol 0")
		zz.Reach("zero")
		return
	}
	t := uint(bits.TrailingZeros64(p[0]))
	zzJHalve(&p, t)
	zz.Assert(t < 64, "no answer without an odd number")
	sign := uint64(t)&1&(q[0]>>1^q[0]>>2) ^ uint64(zzJSign)>>1&1
	if zzJIsOne(&q) {
		zz.Assert(r == 1-2*int(sign&1), "answer for (p/1)")
		zz.Reach("one")
		return
	}
	// (1/q) = (q/1) with a sign if both are 3 modulo 4, which one is not
	zz.Assert(zzJIsOne(&p), "an answer is only given for (p/1)")
	zz.Assert(r == 1-2*int(sign&1), "answer for (1/q)")
	zz.Reach("one")
}

// zzJNative compares with the standard library, for x and for many numbers whose rounds are special.
func zzJNative(x Uint256) {
	one := big.NewInt(1)
	v := zzVal(x[:])
	check := func(n *big.Int) {
		n = zzMod(n, zzR)
		var u Uint256
		zzPutInt(&u, n)
		zz.Assert(u.jacobiV1_a() == big.Jacobi(zzMod(n, zzQ), zzQ), "Jacobi symbol")
	}
	for sh := uint(0); sh < 256; sh++ {
		check(new(big.Int).Lsh(v, sh))
		check(new(big.Int).Rsh(v, sh))
		check(new(big.Int).Lsh(one, sh))
		check(zzAdd(v, new(big.Int).Lsh(one, sh)))
		for k := int64(3); k < 12; k += 2 {
			check(new(big.Int).Lsh(big.NewInt(k), sh))
			check(zzAdd(zzQ, new(big.Int).Lsh(big.NewInt(k), sh)))
		}
	}
	n := zzAdd(v, one)
	for i := 0; i < 3000; i++ {
		n = zzMod(zzAdd(zzMul(n, n), big.NewInt(int64(i))), zzR)
		check(n)
	}
	for k := int64(-1); k < 3; k++ {
		check(zzMul(zzQ, big.NewInt(k)))
		check(zzAdd(zzMul(zzQ, big.NewInt(k)), one))
		check(zzSub(zzMul(zzQ, big.NewInt(k)), one))
	}
}

// The field element has the symbol of its value: the factor 2^256 of the representation is a square.
//
//zz:mode=bv replace=(*Uint256).jacobiV1_a:zzJContract bound=all reach=ok
func ZZ_JacobiElement() {
	var x FieldElement
	x.words = zzU("x")
	if !zz.IsSymbolic() {
		zz.Assume(zzFV(&x).Cmp(zzC) < 0)
		zz.Assert(x.Jacobi() == big.Jacobi(zzCan(zzFV(&x)), zzQ), "Jacobi symbol")
		return
	}
	x0 := x.words
	zz.Assert(x.Jacobi() == zzJContract(&x0), "symbol of the representation")
	zz.Assert(zzJSame(&x.words, &x0), "unchanged")
	zz.Reach("ok")
}

func zzJContract(x *Uint256) int { return int(int64(x[0] ^ x[1] ^ x[2] ^ x[3])) }
