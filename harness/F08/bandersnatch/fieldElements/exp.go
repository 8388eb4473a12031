package fieldElements

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// zzPowBases are the bases: symbolically the first power of an arbitrary element, natively some numbers.
func zzPowBases() []Uint256 {
	if zz.IsSymbolic() {
		return []Uint256{{1}}
	}
	r := make([]Uint256, 3)
	zzPutInt(&r[0], zzMod(zzMul(big.NewInt(7), zzR), zzQ))
	zzPutInt(&r[1], zzAdd(zzSub(zzC, zzQ), big.NewInt(11)))
	zzPutInt(&r[2], zzSub(zzC, big.NewInt(3))) // not the smallest representative
	return r
}

func zzPowIs(z *Uint256, base Uint256, e Uint256) {
	if zz.IsSymbolic() {
		if e == (Uint256{}) {
			zz.Assert(zzMod(zzSub(zzVal(z[:]), zzR), zzQ).Sign() == 0 && zzVal(z[:]).Cmp(zzQ) < 0, "zeroth power")
			zz.Reach("zero")
			return
		}
		zz.Assert(*z == e, "power")
		zz.Reach("power")
		return
	}
	want := new(big.Int).Exp(zzCan(zzVal(base[:])), zzVal(e[:]), zzQ)
	zz.Assert(zzVal(z[:]).Cmp(zzMod(zzMul(want, zzR), zzQ)) == 0, "power")
}

var (
	zzExpE        Uint256
	zzExpArrivals int
	zzExpLast     int
)

// zzShrU is e >> n for n <= 256.
func zzShrU(e Uint256, n uint) Uint256 {
	for k := uint(0); k < 9; k++ {
		var s Uint256
		if k < 6 {
			for i := range s {
				s[i] = e[i] >> (1 << k)
				if i < 3 {
					s[i] |= e[i+1] << (64 - 1<<k)
				}
			}
		} else {
			w := 1 << (k - 6)
			for i := range s {
				if i+w < 4 {
					s[i] = e[i+w]
				}
			}
		}
		m := -(uint64(n) >> k & 1)
		for i := range e {
			e[i] = e[i]&^m | s[i]&m
		}
	}
	return e
}

// Invariant of square and multiply: the accumulator is base^(exponent >> (i+1)).
func zzCutExp(acc *Uint256, i *int) {
	zz.Assert(*i >= -1 && *i < 255, "loop: position")
	zz.Assert(*acc == zzShrU(zzExpE, uint(*i+1)), "loop: power so far")
	zzExpArrivals++
	if zzExpArrivals > 1 {
		zz.Assert(*i < zzExpLast, "loop: progress")
		zz.Assume(false)
	}
	i0 := *i
	*i = zz.GhostChoice("i", 256) - 1
	zz.Assume(*i <= i0)
	zzExpLast = *i
	*acc = zzShrU(zzExpE, uint(*i+1))
}

// zzBitLen is the contract of BitLen (shown by ZZ_ExpBitLen): the number is below 2^l and, unless zero, at least 2^(l-1).
func zzBitLen(e *Uint256) int {
	l := zz.Ghost("l")
	zz.Assume(l <= 256)
	h := zzShrU(*e, uint(l-1))
	zz.Assume(l == 0 && e[0]|e[1]|e[2]|e[3] == 0 || l > 0 && h[0] == 1 && h[1]|h[2]|h[3] == 0)
	return int(l)
}

//zz:mode=bv bound=all reach=ok
func ZZ_ExpBitLen() {
	e := zzU("e")
	l := e.BitLen()
	zz.Assert(l >= 0 && l <= 256, "range")
	if l == 0 {
		zz.Assert(e[0]|e[1]|e[2]|e[3] == 0, "no bits")
		return
	}
	h := zzShrU(e, uint(l-1))
	zz.Assert(h[0] == 1 && h[1]|h[2]|h[3] == 0, "topmost bit")
	zz.Reach("ok")
}

func zzExpRun(form int, base *FieldElement, z *FieldElement, e *Uint256) {
	switch form {
	case 0:
		z.Exp(base, e)
	case 1:
		z.words.modularExponentiationSquareAndMultiplyMontgomery_fa(&base.words, e)
	case 2:
		z.words.modularExponentiationSlidingWindowMontgomery_fa(&base.words, e)
	}
}

func zzExpSpec(form int, e Uint256) {
	zzExpE, zzExpArrivals = e, 0
	alias := zz.Choice("alias", 2) == 1
	for _, b := range zzPowBases() {
		var base, z FieldElement
		base.words = b
		if alias {
			zzExpRun(form, &base, &base, &e)
			z = base
			zz.Reach("alias")
		} else {
			zzExpRun(form, &base, &z, &e)
			zz.Assert(base.words == b, "base unchanged")
		}
		zz.Assert(e == zzExpE, "exponent unchanged")
		zzPowIs(&z.words, b, e)
	}
}

// The function used.
//
//zz:mode=bv replace=(*Uint256).mulMontgomery_Unrolled_c:zzPowMul,(*Uint256).SquareMontgomery_c:zzPowSquare,(*Uint256).Reduce_ca:zzPowKeep,(*Uint256).Reduce_fb:zzPowKeep,(*Uint256).BitLen:zzBitLen cut=(*Uint256).modularExponentiationSquareAndMultiplyMontgomery_fa:zzCutExp bound=all_exponents_and_bases reach=zero,power,alias
func ZZ_Exp() {
	e := zzU("e")
	zzExpSpec(0, e)
}

// zzWindow has arbitrary bits at one place and all others clear or set.
func zzWindow(n uint, offs []uint) (e Uint256) {
	fill := -uint64(zz.Choice("fill", 2))
	off := offs[zz.Choice("offset", len(offs))]
	w := zz.U64("window")
	zz.Assume(w < 1<<n)
	for i := range e {
		e[i] = fill
	}
	for j := uint(0); j < n && off+j < 256; j++ {
		p := off + j
		e[p/64] = e[p/64]&^(1<<(p%64)) | w>>j&1<<(p%64)
	}
	return
}

// Both algorithms without abstraction of the loops, for exponents with arbitrary bits in a window.
//
//zz:mode=bv replace=(*Uint256).mulMontgomery_Unrolled_c:zzPowMul,(*Uint256).SquareMontgomery_c:zzPowSquare,(*Uint256).Reduce_ca:zzPowKeep,(*Uint256).Reduce_fb:zzPowKeep bound=all_bases,_exponents_with_6_arbitrary_bits_at_offsets_0,21,60,77,189,250,_rest_all_clear_or_all_set reach=zero,power,alias
func ZZ_ExpWindow() {
	zzExpSpec(1+zz.Choice("form", 2), zzWindow(6, []uint{0, 21, 60, 77, 189, 250}))
}

//zz:mode=bv tier=thorough replace=(*Uint256).mulMontgomery_Unrolled_c:zzPowMul,(*Uint256).SquareMontgomery_c:zzPowSquare,(*Uint256).Reduce_ca:zzPowKeep,(*Uint256).Reduce_fb:zzPowKeep bound=all_bases,_exponents_with_9_arbitrary_bits_at_13_offsets,_rest_all_clear_or_all_set reach=zero,power,alias
func ZZ_ExpWindowLong() {
	zzExpSpec(1+zz.Choice("form", 2), zzWindow(9, []uint{0, 5, 21, 40, 56, 60, 72, 77, 119, 124, 189, 200, 247}))
}

// Ranges. A number now stands for the range it is known to be in: 0 for any 256-bit number, 1 for below 2^256-q,
// 2 for below q. Multiplication needs its first operand in range (the second may be any number, see F03).

func zzClsMul(z, x, y *Uint256) {
	zz.Assert(x[0] >= 1, "first factor in range")
	*z = Uint256{1}
}

func zzClsSquare(z, x *Uint256) { zzClsMul(z, x, x) }
func zzClsCa(z *Uint256) {
	if z[0] < 1 {
		z[0] = 1
	}
}
func zzClsFb(z *Uint256) {
	zz.Assert(z[0] >= 1, "number to be reduced in range")
	z[0] = 2
}

//zz:mode=bv replace=(*Uint256).mulMontgomery_Unrolled_c:zzClsMul,(*Uint256).SquareMontgomery_c:zzClsSquare,(*Uint256).Reduce_ca:zzClsCa,(*Uint256).Reduce_fb:zzClsFb bound=bases_of_all_256-bit_numbers,_exponents_with_3_arbitrary_bits_at_offsets_0,21,77,_rest_all_clear_or_all_set reach=zero,power
func ZZ_ExpRange() {
	e := zzWindow(3, []uint{0, 21, 77})
	zzExpE, zzExpArrivals = e, 0
	var base, z FieldElement
	if zz.IsSymbolic() {
		base.words[0] = uint64(zz.Choice("range", 3))
	} else {
		zzPutInt(&base.words, []*big.Int{zzSub(zzR, big.NewInt(5)), zzSub(zzC, big.NewInt(3)), big.NewInt(12345)}[zz.Choice("range", 3)])
	}
	b := base.words
	zzExpRun(1+zz.Choice("form", 2), &base, &z, &e)
	if !zz.IsSymbolic() {
		zzPowIs(&z.words, b, e)
		return
	}
	if e == (Uint256{}) {
		zz.Assert(zzVal(z.words[:]).Cmp(zzMod(zzR, zzQ)) == 0, "zeroth power")
		zz.Reach("zero")
		return
	}
	zz.Assert(z.words[0] == 2 && z.words[1] == 0, "result fully reduced")
	zz.Reach("power")
}

// The decomposition behind the sliding window: the number is the sum of its odd digits.
func zzSlidingSpec(e Uint256, w uint8) {
	e0 := e
	d := e.SlidingWindowDecomposition(w)
	zz.Assert(e == e0, "number unchanged")
	var sum Uint256
	last := uint(256)
	for _, x := range d {
		zz.Assert(x.exp&1 == 1 && x.exp < 1<<w, "digits are odd and of at most the window's size")
		zz.Assert(x.pos < last, "positions strictly decrease")
		last = x.pos
		sh := uint64(x.exp) << (x.pos % 64)
		hi := uint64(x.exp) >> (63 - x.pos%64) >> 1
		var t Uint256
		t[x.pos/64] = sh
		if x.pos/64 < 3 {
			t[x.pos/64+1] = hi
		} else {
			zz.Assert(hi == 0, "no digit reaches beyond the number")
		}
		c := sum
		zzPowMul(&sum, &sum, &t)
		zz.Assert(sum[3] >= c[3], "no overflow")
	}
	zz.Assert(sum == e0, "the digits make up the number")
	if len(d) == 0 {
		zz.Reach("empty")
	} else {
		zz.Reach("digits")
	}
}

//zz:mode=bv bound=numbers_with_6_arbitrary_bits_at_offsets_0,58,61,186,250,_rest_all_clear_or_all_set,_windows_of_1,4,5,63 reach=empty,digits
func ZZ_SlidingWindow() {
	zzSlidingSpec(zzWindow(6, []uint{0, 58, 61, 186, 250}), []uint8{1, 4, 5, 63}[zz.Choice("w", 4)])
}

//zz:mode=bv tier=thorough bound=numbers_with_9_arbitrary_bits_at_9_offsets,_rest_all_clear_or_all_set,_windows_of_1..9,31,32,33,62,63 reach=empty,digits
func ZZ_SlidingWindowLong() {
	zzSlidingSpec(zzWindow(9, []uint{0, 30, 56, 58, 61, 120, 186, 190, 247}), []uint8{1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 32, 33, 62, 63}[zz.Choice("w", 14)])
}

//zz:mode=bv bound=all_invalid_windows reach=panic
func ZZ_SlidingWindowInvalid() {
	w := zz.U8("w")
	zz.Assume(w == 0 || w >= 64)
	e := zzU("e")
	zz.Assert(zz.Panics(func() { e.SlidingWindowDecomposition(w) }), "invalid window sizes panic")
	zz.Reach("panic")
}
