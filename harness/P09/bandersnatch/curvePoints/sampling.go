package curvePoints

import (
	"math/big"
	"math/rand"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// zzSource is a source of randomness for native runs: its outputs vanish in a window and are pseudo-random outside of
// it. Symbolically, everything that is drawn is arbitrary.
type zzSource struct {
	n, from, to int
	rnd         *rand.Rand
}

func zzNewSource() *rand.Rand {
	if !zz.IsNative() {
		return new(rand.Rand)
	}
	s := &zzSource{}
	big32 := big.NewInt(32)
	s.from = int(zz.Int("from", new(big.Int), big32).Int64())
	s.to = s.from + int(zz.Int("len", new(big.Int), big32).Int64())
	s.rnd = rand.New(rand.NewSource(zz.Int("seed", new(big.Int), zzQ).Int64()))
	return rand.New(s)
}

func (s *zzSource) Seed(int64) {}

func (s *zzSource) Int63() int64 {
	s.n++
	r := int64(0)
	if !(s.from < s.n && s.n <= s.to) {
		r = s.rnd.Int63() & (1<<60 - 1)
	}
	return r
}

// Random choice of the representation
//
//zz:mode=fld bound=all points in all representations, 6 types, all random elements
func ZZ_Rerandomize() {
	in := zz.Choice("in", zzNTypes)
	cls := zzFin
	if !zzIsAff(in) && !zzIsSub(in) {
		cls = zz.Choice("cls", 3)
	}
	p := zzSpec("P", cls, zzIsSub(in))
	a := zzMake("Q", in, p)
	for i := 0; i < 2; i++ {
		m := zzVar(string(rune('m' + i)))
		zz.FldQueue(&m)
	}
	a.(interface{ rerandomizeRepresentation(*rand.Rand) }).rerandomizeRepresentation(zzNewSource())
	zzIs(a, p, zzIsSub(in), "same point")
	zzConsistent(a, "representation")
	zz.Reach("done")
}

// zzConsistent: coordinates that belong together.
func zzConsistent(a CurvePointPtrInterfaceRead, msg string) {
	c := zzGet(a)
	zz.Assert(zzIsZero(zzSub(zzMul(c.X, c.Y), zzMul(c.T, c.Z))), msg+": X Y = T Z")
	zz.Assert(!zzIsZero(c.Z) || !zzIsZero(c.T), msg+": Z or T nonzero")
	// a X^2 + Y^2 = Z^2 + d T^2
	l := zzAdd(zzMul(zzA, zzSq(c.X)), zzSq(c.Y))
	r := zzAdd(zzSq(c.Z), zzMul(zzD, zzSq(c.T)))
	zz.Assert(zzIsZero(zzSub(l, r)), msg+": on the curve")
}

// zzSample draws a random point.
func zzSample(typ int) CurvePointPtrInterface {
	rnd := zzNewSource()
	switch typ {
	case zzXF:
		r := MakeRandomPointUnsafe_xtw_full(rnd)
		return &r
	case zzXS:
		r := MakeRandomPointUnsafe_xtw_subgroup(rnd)
		return &r
	}
	r := zzNew(typ)
	r.(interface{ sampleRandomUnsafe(*rand.Rand) }).sampleRandomUnsafe(rnd)
	return r
}

// Random points
//
//zz:mode=fld bound=6 types, all random elements, up to 4 of them
func ZZ_Sample() {
	in := zz.Choice("in", zzNTypes)
	var x, y FieldElement
	if zz.IsSymbolic() {
		// the elements drawn: X without a point, X of a point, anything
		for i, n := 0, zz.Choice("rejected", 3); i < n; i++ {
			x := zzVar(string(rune('r' + i)))
			v := zzYY(x)
			zz.Assume(v.Jacobi() == -1)
			zz.FldQueue(&x)
		}
		x, y = zzAffine("P", false)
		zzYYFacts(x, y)
		zz.FldQueue(&x)
		for i := 0; i < 4; i++ {
			m := zzVar(string(rune('m' + i)))
			zz.FldQueue(&m)
		}
	}
	a := zzSample(in)
	c := zzGet(a)
	zz.Assert(!zzNaP(c), "a valid point")
	if zzIsSub(in) && zz.IsSymbolic() {
		// c is proportional to twice the point or its negative: Z^2 + 5 X^2 is a square
		q := zzPt{x, y, zzMul(x, y), zzK(1)}
		p := zzLaw(q, q)
		one := zzK(1)
		w := zzMul(zzSub(one, zzMul3(zzD, q.T, q.T)), zzSub(zzSq(y), zzMul(zzA, zzSq(x))))
		w = zzDiv(zzMul(w, c.Z), p.Z)
		l := zzAdd(zzSq(c.Z), zzMul(zzK(5), zzSq(c.X)))
		zzNS(c.Z, c.X, zzA)
		zz.FldChi(&l, &one, &w, &one)
	}
	zzConsistent(a, "random point")
	zz.Assert(!zzIsZero(c.Z), "not at infinity")
	if zzIsSub(in) {
		l := zzAdd(zzSq(c.Z), zzMul(zzK(5), zzSq(c.X)))
		zz.Assert(l.Jacobi() == 1, "in the subgroup")
	}
	zz.Reach("done")
}

// zzYY is the square of y for the given x.
func zzYY(x FieldElement) FieldElement {
	one := zzK(1)
	zzNS(one, x, zzD)
	xx := zzSq(x)
	return zzDiv(zzAdd(zzK(1), zzMul(zzK(5), xx)), zzSub(zzK(1), zzMul(zzD, xx)))
}

// zzYYFacts: y^2 is what it has to be.
func zzYYFacts(x, y FieldElement) {
	if zz.IsSymbolic() {
		v := zzYY(x)
		zz.FldRoot(&v, &y)
	}
}

// Random NaPs
//
//zz:mode=fld bound=6 types, indices 0..29, all random elements
func ZZ_SampleNaP() {
	in := zz.Choice("in", zzNTypes)
	i := zz.Choice("index", 30)
	for i := 0; i < 2; i++ {
		m := zzVar(string(rune('m' + i)))
		zz.FldQueue(&m)
	}
	a := zzNew(in)
	a.(interface{ sampleNaP(*rand.Rand, int) }).sampleNaP(zzNewSource(), i)
	zz.Assert(a.IsNaP(), "recognized as NaP")
	zz.Assert(zzNaP(zzGet(a)), "a NaP")
	zz.Reach("done")
}
