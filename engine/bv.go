package main

// Bit-vector lowering (QF_BV). Mathematical integers become signed
// bit-vectors that are wide enough for their static range.

import (
	"fmt"
	"math/big"
)

type bvCtx struct {
	p    *Path
	done map[*Term]string
}

func (t *Term) rng() (*big.Int, *big.Int) {
	if t.lo != nil {
		return t.lo, t.hi
	}
	var lo, hi *big.Int
	switch {
	case t.op == OConst && t.sort == SInt:
		lo, hi = t.k, t.k
	case t.sort == SBV:
		lo, hi = new(big.Int), new(big.Int).SetUint64(mask(t.w))
	default:
		switch t.op {
		case OIAdd:
			a, b := t.args[0].rng()
			c, d := t.args[1].rng()
			lo, hi = new(big.Int).Add(a, c), new(big.Int).Add(b, d)
		case OISub:
			a, b := t.args[0].rng()
			c, d := t.args[1].rng()
			lo, hi = new(big.Int).Sub(a, d), new(big.Int).Sub(b, c)
		case OIMul:
			a, b := t.args[0].rng()
			c, d := t.args[1].rng()
			lo, hi = mulRange(a, b, c, d)
		case OIDiv:
			a, b := t.args[0].rng()
			if !t.args[1].isConst() {
				unsup("bv: division by symbolic integer")
			}
			lo, hi = floorDiv(a, t.args[1].k), floorDiv(b, t.args[1].k)
		case OIMod:
			if !t.args[1].isConst() {
				unsup("bv: modulus by symbolic integer")
			}
			lo, hi = new(big.Int), new(big.Int).Sub(t.args[1].k, bigOne)
		case OB2I:
			lo, hi = t.args[0].rng()
		case OS2I:
			hi = new(big.Int).Sub(pow2(t.args[0].w-1), bigOne)
			lo = new(big.Int).Neg(pow2(t.args[0].w - 1))
		case OIte:
			a, b := t.args[1].rng()
			c, d := t.args[2].rng()
			lo, hi = a, b
			if c.Cmp(lo) < 0 {
				lo = c
			}
			if d.Cmp(hi) > 0 {
				hi = d
			}
		default:
			unsup("range of %s", opNames[t.op])
		}
	}
	t.lo, t.hi = lo, hi
	return lo, hi
}

func widthFor(lo, hi *big.Int) int {
	n := hi.BitLen()
	if lo.BitLen() > n {
		n = lo.BitLen()
	}
	return n + 1
}

func (t *Term) iw() int {
	lo, hi := t.rng()
	return widthFor(lo, hi)
}

func bvConst(k *big.Int, w int) string {
	r := new(big.Int).Mod(k, pow2(w))
	return fmt.Sprintf("(_ bv%s %d)", r.String(), w)
}

func (x *bvCtx) ext(t *Term, w int) string { // signed extension of an Int term
	s := x.emit(t)
	d := w - t.iw()
	if d < 0 {
		return fmt.Sprintf("((_ extract %d 0) %s)", w-1, s)
	}
	if d == 0 {
		return s
	}
	return fmt.Sprintf("((_ sign_extend %d) %s)", d, s)
}

func (x *bvCtx) emit(t *Term) string {
	if s, ok := x.done[t]; ok {
		return s
	}
	var e, srt string
	switch t.sort {
	case SBV:
		srt = fmt.Sprintf("(_ BitVec %d)", t.w)
	case SBool:
		srt = "Bool"
	case SInt:
		srt = fmt.Sprintf("(_ BitVec %d)", t.iw())
	default:
		unsup("bv sort")
	}
	a := func(i int) string { return x.emit(t.args[i]) }
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			if t.u != 0 {
				return "true"
			}
			return "false"
		case SBV:
			return fmt.Sprintf("(_ bv%d %d)", t.u, t.w)
		default:
			return bvConst(t.k, t.iw())
		}
	case OVar:
		name := fmt.Sprintf("v%d_%s", t.id, sanitize(t.name))
		x.p.sol.send(fmt.Sprintf("(declare-const %s %s)", name, srt))
		if t.sort == SInt {
			lo, hi := t.rng()
			x.p.sol.send(fmt.Sprintf("(assert (and (bvsle %s %s) (bvsle %s %s)))", bvConst(lo, t.iw()), name, name, bvConst(hi, t.iw())))
		} else if t.sort == SBV && t.hi != nil && (t.lo.Sign() != 0 || t.hi.Cmp(new(big.Int).SetUint64(mask(t.w))) != 0) {
			x.p.sol.send(fmt.Sprintf("(assert (and (bvule %s %s) (bvule %s %s)))", bvConst(t.lo, t.w), name, name, bvConst(t.hi, t.w)))
		}
		x.done[t] = name
		return name
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		n := map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}[t.op]
		e = fmt.Sprintf("(%s %s %s)", n, a(0), a(1))
	case ONot:
		e = "(bvnot " + a(0) + ")"
	case OZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OTrunc:
		e = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, a(0))
	case OMulHi:
		e = fmt.Sprintf("((_ extract 127 64) (bvmul ((_ zero_extend 64) %s) ((_ zero_extend 64) %s)))", a(0), a(1))
	case OCarry:
		e = fmt.Sprintf("((_ zero_extend 62) ((_ extract 65 64) (bvadd ((_ zero_extend 2) %s) ((_ zero_extend 2) %s) ((_ zero_extend 2) %s))))", a(0), a(1), a(2))
	case OBorrow:
		e = fmt.Sprintf("((_ zero_extend 63) ((_ extract 65 65) (bvsub (bvsub ((_ zero_extend 2) %s) ((_ zero_extend 2) %s)) ((_ zero_extend 2) %s))))", a(0), a(1), a(2))
	case OIte:
		if t.sort == SInt {
			e = fmt.Sprintf("(ite %s %s %s)", a(0), x.ext(t.args[1], t.iw()), x.ext(t.args[2], t.iw()))
		} else {
			e = fmt.Sprintf("(ite %s %s %s)", a(0), a(1), a(2))
		}
	case OBNot:
		e = "(not " + a(0) + ")"
	case OBAnd:
		e = "(and " + a(0) + " " + a(1) + ")"
	case OBOr:
		e = "(or " + a(0) + " " + a(1) + ")"
	case OEq:
		if t.args[0].sort == SInt {
			w := max(t.args[0].iw(), t.args[1].iw())
			e = fmt.Sprintf("(= %s %s)", x.ext(t.args[0], w), x.ext(t.args[1], w))
		} else {
			e = "(= " + a(0) + " " + a(1) + ")"
		}
	case OUlt:
		e = "(bvult " + a(0) + " " + a(1) + ")"
	case OUle:
		e = "(bvule " + a(0) + " " + a(1) + ")"
	case OSlt:
		e = "(bvslt " + a(0) + " " + a(1) + ")"
	case OSle:
		e = "(bvsle " + a(0) + " " + a(1) + ")"
	case OILe:
		w := max(t.args[0].iw(), t.args[1].iw())
		e = fmt.Sprintf("(bvsle %s %s)", x.ext(t.args[0], w), x.ext(t.args[1], w))
	case OIAdd, OISub, OIMul:
		w := t.iw()
		n := map[Op]string{OIAdd: "bvadd", OISub: "bvsub", OIMul: "bvmul"}[t.op]
		e = fmt.Sprintf("(%s %s %s)", n, x.ext(t.args[0], w), x.ext(t.args[1], w))
	case OIDiv, OIMod:
		m := t.args[1].k
		lo, hi := t.args[0].rng()
		off := new(big.Int) // multiple of m making the dividend non-negative
		if lo.Sign() < 0 {
			off = floorDiv(lo, m)
			off.Neg(off)
		}
		w := widthFor(lo, new(big.Int).Add(hi, new(big.Int).Mul(off, m)))
		if mw := m.BitLen() + 1; mw > w {
			w = mw
		}
		if w < t.iw() {
			w = t.iw()
		}
		num := fmt.Sprintf("(bvadd %s %s)", x.ext(t.args[0], w), bvConst(new(big.Int).Mul(off, m), w))
		if t.op == OIDiv {
			e = fmt.Sprintf("(bvsub (bvudiv %s %s) %s)", num, bvConst(m, w), bvConst(off, w))
		} else {
			e = fmt.Sprintf("(bvurem %s %s)", num, bvConst(m, w))
		}
		if w != t.iw() {
			e = fmt.Sprintf("((_ extract %d 0) %s)", t.iw()-1, e)
		}
	case OB2I:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.iw()-t.args[0].w, a(0))
	case OS2I:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.iw()-t.args[0].w, a(0))
	case OI2B:
		if t.args[0].iw() >= t.w {
			e = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, a(0))
		} else {
			e = x.ext(t.args[0], t.w)
		}
	default:
		unsup("bv emit %s", opNames[t.op])
	}
	if len(e) < 60 && t.sort == SBool {
		x.done[t] = e
		return e
	}
	name := fmt.Sprintf("t%d", t.id)
	x.p.sol.send(fmt.Sprintf("(define-fun %s () %s %s)", name, srt, e))
	x.done[t] = name
	return name
}
