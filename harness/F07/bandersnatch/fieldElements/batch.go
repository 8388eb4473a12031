package fieldElements

import (
	"errors"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// ---- sums and products

func zzFold(form int, z *FieldElement, xs []FieldElement, ps []*FieldElement) {
	switch form {
	case 0:
		z.MultiplySlice(xs)
	case 1:
		z.MultiplyMany(ps...)
	case 2:
		z.SummationSlice(xs)
	case 3:
		z.SummationMany(ps...)
	}
}

func zzFoldSpec(maxLen int) {
	L := zz.Choice("len", maxLen+1)
	xs := make([]FieldElement, L)
	ps := make([]*FieldElement, L)
	ns := make([]*big.Int, L)
	for i := range xs {
		xs[i], ns[i] = zzElem("x")
		ps[i] = &xs[i]
	}
	form := zz.Choice("form", 4)
	acc := big.NewInt(1)
	if form >= 2 {
		acc = new(big.Int)
	}
	vals := make([]*big.Int, L)
	copy(vals, ns)
	if form == 1 || form == 3 { // pointers may coincide
		if L >= 2 && zz.Bool("same") {
			ps[L-1], vals[L-1] = ps[0], vals[0]
			zz.Reach("same")
		}
	}
	for _, n := range vals {
		if form < 2 {
			acc = zzMod(zzMul(acc, n), zzQ)
		} else {
			acc = zzMod(zzAdd(acc, n), zzQ)
		}
	}
	z, _ := zzElem("z")
	zp := &z
	target := zz.Choice("alias", L+1)
	if target > 0 {
		zp = &xs[target-1]
		zz.Reach("alias")
	}
	zzFold(form, zp, xs, ps)
	zzHas(zp, acc, "sum or product")
	for i := range xs {
		if zp != &xs[i] {
			zzHas(&xs[i], ns[i], "the others keep their values")
		}
	}
	if L == 0 {
		zz.Reach("empty")
	}
}

//zz:mode=int replace=(*Uint256).mulMontgomery_Unrolled_c:zzMulCan bound=up_to_3_operands,_all_values_and_representations,_any_one_of_them_the_target reach=alias,same,empty
func ZZ_Fold() { zzFoldSpec(3) }

//zz:mode=int tier=thorough replace=(*Uint256).mulMontgomery_Unrolled_c:zzMulCan bound=up_to_5_operands,_all_values_and_representations,_any_one_of_them_the_target reach=alias,same,empty
func ZZ_FoldLong() { zzFoldSpec(5) }

// ---- simultaneous inversion

func zzMultiInvSpec(maxLen int) {
	L := zz.Choice("len", maxLen+1)
	form := zz.Choice("form", 4)
	slice, skip := form%2 == 1, form >= 2
	xs := make([]FieldElement, L, L+1)
	ps := make([]*FieldElement, L)
	ns := make([]*big.Int, L)
	for i := range xs {
		xs[i], ns[i] = zzElem("x")
		ps[i] = &xs[i]
	}
	perm := !slice && L >= 2 && zz.Bool("swapped")
	if perm { // the order of the pointers counts, not that of the memory
		ps[0], ps[L-1] = ps[L-1], ps[0]
		ns[0], ns[L-1] = ns[L-1], ns[0]
	}
	keep := make([]*FieldElement, L)
	copy(keep, ps)
	var zeros []int
	for i, n := range ns {
		if n.Sign() == 0 {
			zeros = append(zeros, i)
		}
	}
	var got []int
	var err MultiInversionError
	switch form {
	case 0:
		err = MultiInvertEq(ps...)
	case 1:
		err = MultiInvertEqSlice(xs)
	case 2:
		got = MultiInvertEqSkipZeros(ps...)
	case 3:
		got = MultiInvertEqSliceSkipZeros(xs)
	}
	for i := range ps {
		zz.Assert(ps[i] == keep[i], "the arguments themselves stay in place")
	}
	if skip {
		zz.Assert((got == nil) == (zeros == nil), "nil without zeros")
	} else if len(zeros) > 0 {
		zz.Assert(err != nil && errors.Is(err, ErrDivisionByZero), "division by zero is reported")
		d := err.GetData_struct()
		zz.Assert(d.NumberOfZeroIndices == len(zeros), "number of zeros")
		got = d.ZeroIndices
		zz.Assert(err.ValidateError_Final() == nil && err.Error() != "", "valid error")
		m, ok := errorsWithData.GetParameter(err, "NumberOfZeroIndices")
		zz.Assert(ok && m == len(zeros), "number of zeros by name")
		for i, p := range ps {
			zzHas(p, ns[i], "nothing is changed on error")
		}
	} else {
		zz.Assert(err == nil, "no error")
	}
	zz.Assert(len(got) == len(zeros), "positions of the zeros")
	for i := range got {
		zz.Assert(got[i] == zeros[i], "positions of the zeros")
	}
	if len(zeros) > 0 {
		zz.Reach("zero")
		if !skip {
			return
		}
	}
	for i, p := range ps {
		if ns[i].Sign() == 0 {
			zzHas(p, ns[i], "zeros are skipped")
		} else {
			zzCong(zzMul(zzGet(&p.words), ns[i]), big.NewInt(1), zzQ, "x * 1/x = 1")
		}
	}
	if L == maxLen {
		zz.Reach("full")
	}
}

//zz:mode=int replace=(*bsFieldElement_MontgomeryNonUnique).Inv:zzInvContract,(*Uint256).mulMontgomery_Unrolled_c:zzMulFld bound=up_to_3_operands,_all_values_and_representations reach=zero,full
func ZZ_MultiInv() { zzMultiInvSpec(3) }

//zz:mode=int tier=thorough replace=(*bsFieldElement_MontgomeryNonUnique).Inv:zzInvContract,(*Uint256).mulMontgomery_Unrolled_c:zzMulFld bound=up_to_4_operands,_all_values_and_representations reach=zero,full
func ZZ_MultiInvLong() { zzMultiInvSpec(4) }

// The error generator, for lists in which each element may be zero.
//
//zz:mode=int bound=lists_of_up_to_4_elements,_and_of_12_with_7_or_more_zeros reach=none,one,few,many
func ZZ_MultiInvError() {
	L := zz.Choice("len", 6)
	if L == 5 {
		L = 12
	}
	xs := make([]*FieldElement, L)
	var zeros []int
	for i := range xs {
		var x FieldElement
		if L < 12 || i%3 == 1 {
			var n *big.Int
			x, n = zzElem("x")
			if n.Sign() == 0 {
				zeros = append(zeros, i)
			}
		} else {
			zeros = append(zeros, i)
		}
		xs[i] = &x
	}
	err := GenerateMultiDivisionByZeroError(xs, "prefix")
	switch {
	case len(zeros) == 0:
		zz.Assert(err == nil, "no error")
		zz.Reach("none")
		return
	case len(zeros) == 1:
		zz.Reach("one")
	case len(zeros) < 10:
		zz.Reach("few")
	default:
		zz.Reach("many")
	}
	zz.Assert(errors.Is(err, ErrDivisionByZero), "wraps")
	d := err.GetData_struct()
	zz.Assert(d.NumberOfZeroIndices == len(zeros) && len(d.ZeroIndices) == len(zeros), "data")
	for i := range zeros {
		zz.Assert(d.ZeroIndices[i] == zeros[i], "positions")
	}
	zz.Assert(err.ValidateError_Final() == nil, "valid")
	msg := err.Error()
	zz.Assert(len(msg) > 6 && msg[:6] == "prefix", "message")
}
