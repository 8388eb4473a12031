package utils

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

func zzPow(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func zzWords(a *[4]uint64) *big.Int {
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Mul(r, zzPow(64))
		r.Add(r, new(big.Int).SetUint64(a[i]))
	}
	return r
}

// Words to integer: the integer with exactly these words; converting back restores them.
//
//zz:mode=int bound=all_2^256_values reach=ok
func ZZ_WordsToInt() {
	a := [4]uint64{zz.U64("a0"), zz.U64("a1"), zz.U64("a2"), zz.U64("a3")}
	b := a
	x := UIntarrayToInt(&a)
	zz.Assert(x.Cmp(zzWords(&b)) == 0, "value")
	zz.Assert(a == b, "argument unchanged")
	c := BigIntToUIntArray(x)
	zz.Assert(c == b, "round trip")
	zz.Assert(x.Cmp(zzWords(&b)) == 0, "integer unchanged")
	zz.Reach("ok")
}

// Integer to words: panics exactly for negative integers and those above 256 bits, otherwise keeps the value.
//
//zz:mode=int bound=integers_up_to_2^300_in_absolute_value reach=ok,neg,big
func ZZ_IntToWords() {
	lim := zzPow(300)
	x := zz.Int("x", new(big.Int).Neg(lim), lim)
	y := new(big.Int).Set(x)
	var a [4]uint64
	p := zz.Panics(func() { a = BigIntToUIntArray(x) })
	zz.Assert(x.Cmp(y) == 0, "argument unchanged")
	if y.Sign() < 0 {
		zz.Assert(p, "negative integers are rejected")
		zz.Reach("neg")
		return
	}
	if y.Cmp(zzPow(256)) >= 0 {
		zz.Assert(p, "integers of more than 256 bits are rejected")
		zz.Reach("big")
		return
	}
	zz.Assert(!p, "fits")
	zz.Assert(zzWords(&a).Cmp(y) == 0, "value")
	zz.Reach("ok")
}

type zzConv struct{ v *big.Int }

func (z zzConv) ToBigInt() *big.Int { return z.v }

//zz:mode=int bound=integers_up_to_2^300_in_absolute_value reach=eq,ne
func ZZ_EqualAsBigInt() {
	lim := zzPow(300)
	x := zz.Int("x", new(big.Int).Neg(lim), lim)
	y := zz.Int("y", new(big.Int).Neg(lim), lim)
	r := IsEqualAsBigInt(zzConv{x}, zzConv{y})
	zz.Assert(r == (x.Cmp(y) == 0), "equality of values")
	if r {
		zz.Reach("eq")
	} else {
		zz.Reach("ne")
	}
}
