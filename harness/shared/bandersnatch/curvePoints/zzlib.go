package curvePoints

// Shared by the harnesses of the curve point properties.

import (
	"math/big"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

func zzInt(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic("zz: bad constant")
	}
	return r
}

func zzC(v *big.Int) (r FieldElement) { r.SetBigInt(v); return }
func zzK(v int64) FieldElement        { return zzC(big.NewInt(v)) }

// The curve, independent of the constants of the package.
var (
	zzD  = zzC(zzInt("0x6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7"))
	zzA  = zzK(-5)
	zzR  = zzC(zzInt("37446463827641770816307242315180085052603635617490163568005256780843403514038")) // r^2 = d/a
	zzGx = zzC(zzInt("0x29c132cc2c0b34c5743711777bbe42f32b79c022ad998465e1e71866a252ae18"))
	zzGy = zzC(zzInt("0x2a6c669eda123e0f157d8b50badcd586358cad81eee464605e3167b6cc974166"))
	zzQ  = zzInt("0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
)

func zzMul(a, b FieldElement) (r FieldElement) { r.Mul(&a, &b); return }
func zzMul3(a, b, c FieldElement) FieldElement { return zzMul(zzMul(a, b), c) }
func zzAdd(a, b FieldElement) (r FieldElement) { r.Add(&a, &b); return }
func zzSub(a, b FieldElement) (r FieldElement) { r.Sub(&a, &b); return }
func zzNeg(a FieldElement) (r FieldElement)    { r.Neg(&a); return }
func zzSq(a FieldElement) FieldElement         { return zzMul(a, a) }
func zzDiv(a, b FieldElement) (r FieldElement) { r.Divide(&a, &b); return }
func zzIsZero(a FieldElement) bool             { return a.IsZero() }

func zzAssume(b bool) { zz.Assume(b) }

// zzNonZero assumes that a is not zero.
func zzNonZero(a FieldElement) {
	if zz.IsSymbolic() {
		zz.FldNonZero(&a)
	} else {
		zz.Assume(!a.IsZero())
	}
}

// zzZero assumes that a is zero.
func zzZero(a FieldElement) {
	if zz.IsSymbolic() {
		zz.FldZero(&a)
	} else {
		zz.Assume(a.IsZero())
	}
}

// zzImpliedNZ: a is not zero, which the engine finds out itself.
func zzImpliedNZ(a FieldElement) {
	if a.IsZero() {
		zz.Assert(false, "fact")
	}
}

// zzNS states that u^2 = n*v^2 only if u = v = 0.
func zzNS(u, v, n FieldElement) {
	if zz.IsSymbolic() {
		zz.FldNonSquare(&u, &v, &n)
	}
}

// zzVar is an arbitrary element.
func zzVar(name string) (r FieldElement) {
	if zz.IsSymbolic() {
		zz.FldVar(name, &r)
		return
	}
	k := zz.Int(name, new(big.Int), new(big.Int).Lsh(zzQ, 1))
	if k.Bit(0) == 0 {
		k = new(big.Int).Rsh(k, 252) // a small one
	}
	r.SetBigInt(k)
	return
}

func zzUnit(name string) FieldElement {
	r := zzVar(name)
	zzNonZero(r)
	return r
}

// zzPt are extended projective coordinates.
type zzPt struct{ X, Y, T, Z FieldElement }

// zzLaw is the documented addition law; the zero vector exactly if the difference is at infinity.
func zzLaw(p, q zzPt) zzPt {
	e := zzAdd(zzMul(p.X, q.Y), zzMul(p.Y, q.X))
	f := zzSub(zzMul(p.Z, q.Z), zzMul3(zzD, p.T, q.T))
	g := zzAdd(zzMul(p.Z, q.Z), zzMul3(zzD, p.T, q.T))
	h := zzSub(zzMul(p.Y, q.Y), zzMul3(zzA, p.X, q.X))
	return zzPt{zzMul(e, f), zzMul(g, h), zzMul(e, h), zzMul(f, g)}
}

// zzPlusE adds the point E1 (j=1) or E2 (j=2) at infinity.
func zzPlusE(p zzPt, j int) zzPt {
	r := zzPt{zzMul(zzR, p.Y), zzMul3(zzA, zzR, p.X), p.Z, zzMul(zzD, p.T)}
	if j == 2 {
		r = zzPlusA(r)
	}
	return r
}

func zzPlusA(p zzPt) zzPt { return zzPt{zzNeg(p.X), zzNeg(p.Y), p.T, p.Z} }
func zzMinus(p zzPt) zzPt { return zzPt{zzNeg(p.X), p.Y, zzNeg(p.T), p.Z} }

func zzScale(p zzPt, c FieldElement) zzPt {
	return zzPt{zzMul(c, p.X), zzMul(c, p.Y), zzMul(c, p.T), zzMul(c, p.Z)}
}

func zzOnCurve(x, y FieldElement) FieldElement {
	return zzSub(zzAdd(zzK(1), zzMul3(zzD, zzSq(x), zzSq(y))), zzAdd(zzMul(zzA, zzSq(x)), zzSq(y)))
}

// zzFinFacts states facts about the affine point (x,y).
func zzFinFacts(x, y FieldElement) {
	one := zzK(1)
	zzNS(one, x, zzA)                           // a x^2 != 1
	zzNS(one, x, zzD)                           // d x^2 != 1
	zzNS(one, y, zzD)                           // d y^2 != 1
	zzNS(one, zzMul(x, y), zzD)                 // d x^2 y^2 != 1
	zzNS(y, x, zzA)                             // y^2 != a x^2
	zzNS(y, x, zzNeg(zzA))                      // y^2 != -a x^2
	zzImpliedNZ(y)                              // a x^2 != 1
	zzImpliedNZ(zzAdd(zzK(5), zzMul(zzD, zzSq(y)))) // y^2 (d x^2 - 1) = a x^2 - 1
}

// zzAffine is an arbitrary affine point; natively one out of a pool.
func zzAffine(name string, sub bool) (x, y FieldElement) {
	if zz.IsSymbolic() {
		x, y = zzVar(name+".x"), zzVar(name+".y")
		zzZero(zzOnCurve(x, y))
		zzFinFacts(x, y)
		if sub {
			var s FieldElement
			v := zzAdd(zzK(1), zzMul(zzK(5), zzSq(x)))
			zz.FldSquare(&s, &v)
		}
		return
	}
	k := int(zz.Int(name, new(big.Int), big.NewInt(1<<30)).Int64())
	p := zzPt{zzK(0), zzK(1), zzK(0), zzK(1)}
	g := zzPt{zzGx, zzGy, zzMul(zzGx, zzGy), zzK(1)}
	for i := 0; i < k%5; i++ {
		p = zzLaw(p, g)
	}
	k /= 5
	if k%2 == 1 {
		p = zzMinus(p)
	}
	k /= 2
	if k%2 == 1 {
		p = zzPlusA(p)
	}
	k /= 2
	if !sub && k%2 == 1 && !p.X.IsZero() {
		p = zzPlusE(p, 1)
	}
	return zzDiv(p.X, p.Z), zzDiv(p.Y, p.Z)
}

// classes of points
const (
	zzFin = iota
	zzE1
	zzE2
)

// zzSpec is an arbitrary point of the given class, in normalized coordinates.
func zzSpec(name string, cls int, sub bool) zzPt {
	switch cls {
	case zzE1:
		return zzPt{zzR, zzK(0), zzK(1), zzK(0)}
	case zzE2:
		return zzPt{zzNeg(zzR), zzK(0), zzK(1), zzK(0)}
	}
	x, y := zzAffine(name, sub)
	return zzPt{x, y, zzMul(x, y), zzK(1)}
}

// point types
const (
	zzXF = iota
	zzEF
	zzAF
	zzXS
	zzES
	zzAS
	zzNTypes
)

func zzIsSub(typ int) bool { return typ >= zzXS }
func zzIsAff(typ int) bool { return typ == zzAF || typ == zzAS }

var zzTypeNames = [zzNTypes]string{"xtw_full", "efgh_full", "axtw_full", "xtw_subgroup", "efgh_subgroup", "axtw_subgroup"}

func zzNew(typ int) CurvePointPtrInterface {
	switch typ {
	case zzXF:
		return new(Point_xtw_full)
	case zzEF:
		return new(Point_efgh_full)
	case zzAF:
		return new(Point_axtw_full)
	case zzXS:
		return new(Point_xtw_subgroup)
	case zzES:
		return new(Point_efgh_subgroup)
	default:
		return new(Point_axtw_subgroup)
	}
}

// zzMake puts p (normalized as by zzSpec or with z != 0) into a point of the given type, in an arbitrary representation.
func zzMake(name string, typ int, p zzPt) CurvePointPtrInterface {
	r := zzNew(typ)
	switch typ {
	case zzXF, zzXS:
		q := zzScale(p, zzUnit(name+".s"))
		b := point_xtw_base{x: q.X, y: q.Y, t: q.T, z: q.Z}
		if typ == zzXF {
			r.(*Point_xtw_full).point_xtw_base = b
		} else {
			r.(*Point_xtw_subgroup).point_xtw_base = b
		}
	case zzEF, zzES:
		u, v := zzUnit(name+".u"), zzUnit(name+".v")
		// x : z = e : g, y : z = h : f, t : y = e : g, t : x = h : f
		var b point_efgh_base
		if p.Y.IsZero() { // at infinity
			b = point_efgh_base{e: u, g: zzK(0), h: v, f: zzMul(v, zzDiv(p.X, p.T))}
		} else {
			b = point_efgh_base{e: zzMul(u, zzDiv(p.X, p.Z)), g: u, f: v, h: zzMul(v, zzDiv(p.Y, p.Z))}
		}
		if typ == zzEF {
			r.(*Point_efgh_full).point_efgh_base = b
		} else {
			r.(*Point_efgh_subgroup).point_efgh_base = b
		}
	default:
		b := point_axtw_base{x: zzDiv(p.X, p.Z), y: zzDiv(p.Y, p.Z), t: zzDiv(p.T, p.Z)}
		if typ == zzAF {
			r.(*Point_axtw_full).point_axtw_base = b
		} else {
			r.(*Point_axtw_subgroup).point_axtw_base = b
		}
	}
	return r
}

// zzGet reads the coordinates without changing anything.
func zzGet(p CurvePointPtrInterfaceRead) zzPt {
	fx := func(b *point_xtw_base) zzPt { return zzPt{b.x, b.y, b.t, b.z} }
	fa := func(b *point_axtw_base) zzPt { return zzPt{b.x, b.y, b.t, zzK(1)} }
	fe := func(b *point_efgh_base) zzPt {
		return zzPt{zzMul(b.e, b.f), zzMul(b.g, b.h), zzMul(b.e, b.h), zzMul(b.f, b.g)}
	}
	switch p := p.(type) {
	case *Point_xtw_full:
		return fx(&p.point_xtw_base)
	case *Point_xtw_subgroup:
		return fx(&p.point_xtw_base)
	case *Point_axtw_full:
		return fa(&p.point_axtw_base)
	case *Point_axtw_subgroup:
		return fa(&p.point_axtw_base)
	case *Point_efgh_full:
		return fe(&p.point_efgh_base)
	case *Point_efgh_subgroup:
		return fe(&p.point_efgh_base)
	}
	panic("zz: unknown type")
}

func zzNaP(p zzPt) bool { return zzIsZero(p.X) && zzIsZero(p.Y) }

func zzMinor(a, b, c, d FieldElement) bool { return zzIsZero(zzSub(zzMul(a, d), zzMul(b, c))) }

// zzPar tells whether the coordinates are proportional.
func zzPar(p, q zzPt) bool {
	return zzMinor(p.X, p.Y, q.X, q.Y) && zzMinor(p.X, p.Z, q.X, q.Z) && zzMinor(p.Y, p.Z, q.Y, q.Z) &&
		zzMinor(p.X, p.T, q.X, q.T) && zzMinor(p.Y, p.T, q.Y, q.T) && zzMinor(p.Z, p.T, q.Z, q.T)
}

// zzIs asserts that p (a result) is the point q; up to addition of A for subgroup types.
func zzIs(p CurvePointPtrInterfaceRead, q zzPt, modA bool, msg string) {
	c := zzGet(p)
	zz.Assert(!zzNaP(c), msg+": a valid point")
	if modA {
		zz.Assert(zzPar(c, q) || zzPar(c, zzPlusA(q)), msg+": the right point modulo A")
	} else {
		zz.Assert(zzPar(c, q), msg+": the right point")
	}
}

// zzCanonL is the quantity whose quadratic character distinguishes P and P+A.
func zzCanonL(p zzPt) FieldElement {
	return zzMul(zzSub(p.Z, p.Y), zzSub(p.Z, zzMul(zzR, p.Y)))
}

// zzCanon is the representative in the prime order subgroup of the subgroup type's point p (normalized, z = 1).
func zzCanon(p zzPt) zzPt {
	zzSubFacts(p)
	l := zzCanonL(p)
	if l.Jacobi() <= 0 {
		return p
	}
	return zzPlusA(p)
}

// zzSubFacts states that exactly one of P, P+A passes the test with E1.
func zzSubFacts(p zzPt) {
	if !zz.IsSymbolic() {
		return
	}
	l1 := zzCanonL(p)
	l2 := zzCanonL(zzPlusA(p))
	// (1-y^2)(1-r^2y^2) = -x^2 (5+dy^2)^2 / 5
	w := zzMul(p.X, zzAdd(zzK(5), zzMul(zzD, zzSq(p.Y))))
	if zzIsZero(p.X) {
		return
	}
	c := zzDiv(zzK(-1), zzK(5))
	zz.FldChi(&l1, &l2, &w, &c)
}

// zzPair assumes that p-q is finite; for subgroup points, p-q and p+q are.
func zzPair(p, q zzPt, sub bool) {
	f := zzSub(zzMul(p.Z, q.Z), zzMul3(zzD, p.T, q.T))
	if !sub {
		zzNonZero(f)
		zzPairFacts(p, q)
		return
	}
	if zz.IsSymbolic() {
		zzFiniteDiff(p, q)
		zzFiniteDiff(p, zzMinus(q))
		zzPairFacts(p, q)
	}
}

func zzPairFacts(p, q zzPt) {
	if !zz.IsSymbolic() {
		return
	}
	one := zzK(1)
	zzNS(one, zzMul(p.X, q.Y), zzD)
	zzNS(one, zzMul(q.X, p.Y), zzD)
	e := zzAdd(zzMul(p.X, q.Y), zzMul(p.Y, q.X))
	f := zzSub(zzMul(p.Z, q.Z), zzMul3(zzD, p.T, q.T))
	g := zzAdd(zzMul(p.Z, q.Z), zzMul3(zzD, p.T, q.T))
	h := zzSub(zzMul(p.Y, q.Y), zzMul3(zzA, p.X, q.X))
	if zzIsZero(h) {
		c := zzSub(zzAdd(zzMul3(zzA, zzSq(e), zzSq(f)), zzMul(zzSq(h), zzSq(g))), zzAdd(zzMul(zzSq(f), zzSq(g)), zzMul3(zzD, zzSq(e), zzSq(h))))
		zz.Assert(zzIsZero(c), "the sum is on the curve")
		zzNS(g, e, zzA)
		w := zzMul(zzSq(f), zzSub(zzMul(zzA, zzSq(e)), zzSq(g)))
		zz.FldSplit(&w)
		zz.Assert(false, "fact")
	}
}

// zzExceptional: if p-q is at infinity, then it is E1 or E2 (both affine points of shape z = 1).
func zzExceptional(p, q zzPt) (exc bool) {
	f := zzSub(zzK(1), zzMul3(zzD, p.T, q.T))
	if !zzIsZero(f) {
		return false
	}
	u := zzSub(zzMul3(zzD, zzSq(q.X), zzSq(p.Y)), zzK(1))
	v := zzSub(zzMul(zzMul(zzA, zzD), zzMul(zzSq(q.X), zzSq(p.X))), zzK(1))
	zzNS(zzK(1), zzMul(q.X, p.Y), zzD)
	w := zzMul(zzMul(u, v), zzSq(zzMul(p.X, p.Y)))
	zz.Assert(zzIsZero(w), "product")
	zz.FldSplit(&w)
	return true
}

// zzFiniteDiff finds out that p-q is finite for p, q in the subgroup (modulo A).
func zzFiniteDiff(p, q zzPt) {
	if !zzExceptional(p, q) {
		return
	}
	// 1+5 x2^2 = (d x1^2 - 1)/(d x1^2) = - (1+5 x1^2) / (d x1^2 y1^2)
	c := zzDiv(zzK(-1), zzD)
	l1 := zzAdd(zzK(1), zzMul(zzK(5), zzSq(p.X)))
	l2 := zzAdd(zzK(1), zzMul(zzK(5), zzSq(q.X)))
	w := zzDiv(l1, zzMul(p.X, p.Y))
	zz.FldChi(&l1, &l2, &w, &c)
	zz.Assert(l1.Jacobi()*l2.Jacobi() == 1, "fact")
}

// zzPoint is an arbitrary point of the given type and its coordinates.
func zzPoint(name string, typ int) (CurvePointPtrInterface, zzPt) {
	n := 3
	if zzIsSub(typ) || zzIsAff(typ) {
		n = 1
	}
	p := zzSpec(name, zz.Choice(name+".class", n), zzIsSub(typ))
	return zzMake(name, typ, p), p
}

// zzInSubgroup is the subgroup test (established by the other harnesses).
func zzInSubgroup(p zzPt) bool {
	if zzIsZero(p.Z) {
		return false
	}
	l1 := zzAdd(zzSq(p.Z), zzMul(zzK(5), zzSq(p.X)))
	l2 := zzCanonL(p)
	return l1.Jacobi() >= 0 && l2.Jacobi() <= 0
}
