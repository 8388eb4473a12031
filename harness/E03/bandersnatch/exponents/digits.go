package exponents

import (
	"math/big"
	"math/bits"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

func zzPow(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func zzVal(x uint128) *big.Int {
	r := new(big.Int).SetUint64(x[1])
	r.Mul(r, zzPow(64))
	return r.Add(r, new(big.Int).SetUint64(x[0]))
}

func zzArb(name string) uint128 { return uint128{zz.U64(name + "0"), zz.U64(name + "1")} }

//zz:mode=int bound=all_pairs reach=ok
func ZZ_Arith128() {
	x, y := zzArb("x"), zzArb("y")
	m := zzPow(128)
	s := new(big.Int).Add(zzVal(x), zzVal(y))
	zz.Assert(zzVal(add128(x, y)).Cmp(s.Mod(s, m)) == 0, "sum modulo 2^128")
	p := new(big.Int).Mul(zzVal(x), zzVal(y))
	zz.Assert(zzVal(mul128(x, y)).Cmp(p.Mod(p, m)) == 0, "product modulo 2^128")
	zz.Assert(x.ToBigInt().Cmp(zzVal(x)) == 0, "value")
	zz.Reach("ok")
}

//zz:mode=int bound=integers_up_to_2^200_in_absolute_value reach=ok,panic
func ZZ_Convert128() {
	lim := zzPow(200)
	n := zz.Int("n", new(big.Int).Neg(lim), lim)
	k := new(big.Int).Set(n)
	var x uint128
	x.SetBigInt(n)
	zz.Assert(zzVal(x).Cmp(new(big.Int).Mod(k, zzPow(128))) == 0, "value modulo 2^128")
	var g glvExponent
	g.sign = zz.Choice("oldsign", 3) - 1
	g.value = zzArb("old")
	p := zz.Panics(func() { g.SetBigInt(n) })
	zz.Assert(n.Cmp(k) == 0, "argument unchanged")
	zz.Assert(p == (new(big.Int).Abs(k).Cmp(zzPow(128)) >= 0), "rejects exactly what does not fit")
	if p {
		zz.Reach("panic")
		return
	}
	zz.Assert(g.ToBigInt().Cmp(k) == 0, "round trip")
	zz.Assert(g.Sign() == k.Sign(), "sign")
	zz.Assert(k.Sign() == 0 || g.IsNegative() == (k.Sign() < 0), "negative")
	zz.Assert(zzVal(g.value).Cmp(new(big.Int).Abs(k)) == 0, "magnitude")
	zz.Reach("ok")
}

//zz:mode=bv bound=all_values,_bits_0..191 reach=in,out
func ZZ_Bits128() {
	x := zzArb("x")
	i := uint(zz.Choice("i", 192))
	b := uint(0)
	if i < 128 {
		b = uint(x[i/64]>>(i%64)) & 1
		zz.Reach("in")
	} else {
		zz.Reach("out")
	}
	zz.Assert(x.Bit(i) == b, "bit")
	g := glvExponent{value: x, sign: zz.Choice("sign", 3) - 1}
	zz.Assert(g.Bit(i) == b, "bit of the absolute value")
	k := []uint{0, 1, 3, 8}[zz.Choice("k", 4)]
	r := uint(0)
	for j := uint(0); j < k; j++ {
		if i+j < 128 {
			r |= uint(x[(i+j)/64]>>((i+j)%64)&1) << j
		}
	}
	zz.Assert(getBitRange(x, i, i+k) == r, "bit range")
	want := g.sign
	if x[0] == 0 && x[1] == 0 {
		want = 0
	}
	zz.Assert(g.Sign() == want, "sign, zero has none")
}

// Signed digits: odd digits of at most maxbits bits at ascending positions whose weighted sum is the number.
// The loop is cut at its head by the invariant: digits so far plus the carry plus the unread bits make up the number.
var zzS [3]uint64 // sum modulo 2^192 of the digits produced before the cut, relative to the sign of the number
var zzArrivals int
var zzLast uint
var zzFloor uint // digits come at positions not below this

func zzAdd3(s, t [3]uint64) [3]uint64 {
	var c uint64
	for k := range s {
		s[k], c = bits.Add64(s[k], t[k], c)
	}
	return s
}

func zzSub3(s, t [3]uint64) [3]uint64 {
	var c uint64
	for k := range s {
		s[k], c = bits.Sub64(s[k], t[k], c)
	}
	return s
}

func zzShl3(x uint64, p uint) (t [3]uint64) {
	if p >= 192 {
		return
	}
	t[p/64] = x << (p % 64)
	if p/64 < 2 && p%64 > 0 {
		t[p/64+1] = x >> (64 - p%64)
	}
	return
}

func zzDigits(d []decompositionCoefficient, sign int, maxbits uint) {
	for _, e := range d {
		zz.Assert(e.coeff%2 == 1 && e.coeff < 1<<maxbits && (e.sign == 1 || e.sign == -1), "digits are odd, of at most maxbits bits and signed")
		zz.Assert(e.position >= zzFloor && e.position < 180, "positions ascend")
		zzFloor = e.position + 1
		t := zzShl3(uint64(e.coeff), e.position)
		if e.sign == sign {
			zzS = zzAdd3(zzS, t)
		} else {
			zzS = zzSub3(zzS, t)
		}
	}
}

// unread bits plus carry, in place
func zzRest(n uint128, carry, i uint) [3]uint64 {
	var hi [3]uint64
	if i < 64 {
		hi = [3]uint64{n[0] >> i << i, n[1], 0}
	} else if i < 128 {
		hi = [3]uint64{0, n[1] >> (i - 64) << (i - 64), 0}
	}
	return zzAdd3(hi, zzShl3(uint64(carry), i))
}

func zzCut(input *glvExponent, maxbits uint, decomposition *[]decompositionCoefficient, carry *uint, i *uint) {
	sign := input.Sign()
	n := [3]uint64{input.value[0], input.value[1], 0}
	zzDigits(*decomposition, sign, maxbits)
	zz.Assert(*carry <= 1 && (*carry == 0 || sign != 0) && *i <= 128+maxbits && *i >= zzFloor &&
		zzAdd3(zzS, zzRest(input.value, *carry, *i)) == n, "digits, carry and unread bits make up the number")
	zzArrivals++
	if zzArrivals > 1 {
		zz.Assume(*i <= zzLast) // only for loops that do not progress
	}
	*i = uint(zz.GhostChoice("i", 129+int(maxbits)))
	zzLast = *i
	zzFloor = *i
	*decomposition = nil
	*carry = 0
	if sign != 0 && zz.GhostChoice("carry", 2) == 1 {
		*carry = 1
	}
	zzS = zzSub3(n, zzRest(input.value, *carry, *i))
}

func zzDecompose(x glvExponent, maxbits uint) {
	zzS, zzArrivals, zzFloor, zzLast = [3]uint64{}, 0, 0, 0
	d := decomposeUnalignedSignedAdic(x, maxbits)
	zzDigits(d, x.Sign(), maxbits)
	zz.Assert(zzS == [3]uint64{x.value[0], x.value[1], 0}, "digits make up the number")
}

//zz:mode=bv cut=decomposeUnalignedSignedAdic:zzCut bound=all_128-bit_numbers,_digits_of_1,3,4_bits reach=ok,zero
func ZZ_SignedDigits() { zzSigned([]uint{1, 3, 4}[zz.Choice("maxbits", 3)]) }

//zz:mode=bv cut=decomposeUnalignedSignedAdic:zzCut tier=thorough bound=all_128-bit_numbers,_digits_of_1..8_bits reach=ok,zero
func ZZ_SignedDigitsAll() { zzSigned(uint(zz.Choice("maxbits", 8)) + 1) }

func zzSigned(maxbits uint) {
	x := glvExponent{value: zzArb("x"), sign: 1 - 2*zz.Choice("negative", 2)}
	zzDecompose(x, maxbits)
	if x.Sign() == 0 {
		zz.Reach("zero")
	} else {
		zz.Reach("ok")
	}
}

// The same without abstraction, for numbers with 9 arbitrary bits at selected places and a constant rest.
//
//zz:mode=bv bound=9_arbitrary_bits_at_offsets_0,60,119,_rest_all_zero_or_all_one,_digits_of_2,3,5_bits reach=ok
func ZZ_SignedDigitsWindow() {
	off := []uint{0, 60, 119}[zz.Choice("offset", 3)]
	fill := uint64(0)
	if zz.Choice("fill", 2) == 1 {
		fill = 0xffffffffffffffff
	}
	w := zz.U64("window")
	zz.Assume(w < 1<<9)
	x := uint128{fill, fill}
	for j := uint(0); j < 9; j++ {
		p := off + j
		x[p/64] = x[p/64]&^(1<<(p%64)) | w>>j&1<<(p%64)
	}
	maxbits := []uint{2, 3, 5}[zz.Choice("maxbits", 3)]
	v := glvExponent{value: x, sign: 1 - 2*int(maxbits%4/2)}
	zzDecompose(v, maxbits)
	zz.Reach("ok")
}
