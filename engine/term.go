package main

// Symbolic terms: machine integers (bit-vectors up to 64 bit), mathematical
// integers, booleans and field elements. Hash-consed per path.

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // BV (u), Int (k) or Bool (u) constant
	OVar
	// bit-vector
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot
	OShl
	OLshr
	OAshr
	OZExt
	OSExt
	OTrunc
	OMulHi  // high word of the product
	OCarry  // carry-out of a+b+c as a word (0/1)
	OBorrow // borrow-out of a-b-c as a word (0/1)
	OIte
	// bool
	OBNot
	OBAnd
	OBOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OILe // integer <=
	// integer
	OIAdd
	OISub
	OIMul
	OIDiv   // floor division, positive divisor
	OIMod   // Euclidean modulus, positive divisor
	OB2I    // unsigned value
	OS2I    // signed value
	OI2B    // integer to bit-vector (mod 2^w)
	OBitLen // bit length of the absolute value of an integer (only ever compared with constants)
	// field
	OFAdd
	OFSub
	OFMul
	OFNeg
	OFInv // total inverse: Inv(0)=0
)

var opNames = map[Op]string{OConst: "const", OVar: "var", OAdd: "add", OSub: "sub", OMul: "mul", OUDiv: "udiv", OURem: "urem", OSDiv: "sdiv", OSRem: "srem", OAnd: "and", OOr: "or", OXor: "xor", ONot: "not", OShl: "shl", OLshr: "lshr", OAshr: "ashr", OZExt: "zext", OSExt: "sext", OTrunc: "trunc", OMulHi: "mulhi", OCarry: "carry", OBorrow: "borrow", OIte: "ite", OBNot: "bnot", OBAnd: "band", OBOr: "bor", OEq: "eq", OUlt: "ult", OUle: "ule", OSlt: "slt", OSle: "sle", OILe: "ile", OIAdd: "iadd", OISub: "isub", OIMul: "imul", OIDiv: "idiv", OIMod: "imod", OB2I: "b2i", OS2I: "s2i", OI2B: "i2b", OFAdd: "fadd", OFSub: "fsub", OFMul: "fmul", OFNeg: "fneg", OFInv: "finv"}

type Sort uint8

const (
	SBool Sort = iota
	SBV
	SInt
	SFld
)

type Term struct {
	id   int
	op   Op
	sort Sort
	w    int
	u    uint64
	k    *big.Int
	name string
	args []*Term
	// static integer range (unsigned value for BV), always present for BV/Int when known
	lo, hi *big.Int
	low    *lowered // cache of the integer lowering
	poly   *Poly    // cache of the field lowering
	dom    *Term    // the only variable occurring in the term (nil if none or several)
	nvars  int      // 0, 1, or 2 (= several)
	evalT  []uint64
}

type key struct {
	op         Op
	sort       Sort
	w          int
	u          uint64
	k          string
	a, b, c, d int
}

type TermCtx struct {
	tab  map[key]*Term
	n    int
	vars []*Term
	cmps map[*Term][2]*Term
}

func newTermCtx() *TermCtx { return &TermCtx{tab: map[key]*Term{}} }

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

var bigOne = big.NewInt(1)

func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

func (c *TermCtx) mk(op Op, sort Sort, w int, u uint64, args ...*Term) *Term {
	k := key{op: op, sort: sort, w: w, u: u}
	ids := [4]int{-1, -1, -1, -1}
	for i, a := range args {
		ids[i] = a.id
	}
	k.a, k.b, k.c, k.d = ids[0], ids[1], ids[2], ids[3]
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.n, op: op, sort: sort, w: w, u: u, args: args}
	c.n++
	for _, a := range args {
		if a.nvars == 2 {
			t.nvars, t.dom = 2, nil
		} else if a.nvars == 1 {
			if t.nvars == 0 {
				t.nvars, t.dom = 1, a.dom
			} else if t.nvars == 1 && t.dom != a.dom {
				t.nvars, t.dom = 2, nil
			}
		}
	}
	c.tab[k] = t
	return t
}

func (c *TermCtx) bv(w int, u uint64) *Term { return c.mk(OConst, SBV, w, u&mask(w)) }
func (c *TermCtx) bool(b bool) *Term {
	if b {
		return c.mk(OConst, SBool, 0, 1)
	}
	return c.mk(OConst, SBool, 0, 0)
}
func (c *TermCtx) int(k *big.Int) *Term {
	kk := key{op: OConst, sort: SInt, k: k.Text(62), a: -1, b: -1, c: -1, d: -1}
	if t, ok := c.tab[kk]; ok {
		return t
	}
	t := &Term{id: c.n, op: OConst, sort: SInt, k: new(big.Int).Set(k)}
	c.n++
	c.tab[kk] = t
	return t
}
func (c *TermCtx) fld(k *big.Int) *Term {
	kk := key{op: OConst, sort: SFld, k: k.Text(62), a: -1, b: -1, c: -1, d: -1}
	if t, ok := c.tab[kk]; ok {
		return t
	}
	t := &Term{id: c.n, op: OConst, sort: SFld, k: new(big.Int).Set(k)}
	c.n++
	c.tab[kk] = t
	return t
}
func (c *TermCtx) newVar(name string, sort Sort, w int, lo, hi *big.Int) *Term {
	t := &Term{id: c.n, op: OVar, sort: sort, w: w, name: name, lo: lo, hi: hi}
	t.nvars = 1
	t.dom = t
	c.n++
	c.vars = append(c.vars, t)
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func sx(u uint64, w int) int64 {
	s := uint(64 - w)
	return int64(u<<s) >> s
}

// evalBV folds a bit-vector / bool operation on concrete words.
func evalBV(op Op, w int, aw int, v []uint64) (uint64, bool) {
	m := mask(w)
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (v[0] + v[1]) & m, true
	case OSub:
		return (v[0] - v[1]) & m, true
	case OMul:
		return (v[0] * v[1]) & m, true
	case OUDiv:
		if v[1] == 0 {
			return m, true
		}
		return v[0] / v[1], true
	case OURem:
		if v[1] == 0 {
			return v[0], true
		}
		return v[0] % v[1], true
	case OSDiv:
		a, b := sx(v[0], w), sx(v[1], w)
		if b == 0 {
			return 0, false
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSRem:
		a, b := sx(v[0], w), sx(v[1], w)
		if b == 0 {
			return 0, false
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OAnd:
		return v[0] & v[1], true
	case OOr:
		return v[0] | v[1], true
	case OXor:
		return v[0] ^ v[1], true
	case ONot:
		return ^v[0] & m, true
	case OShl:
		if v[1] >= uint64(w) {
			return 0, true
		}
		return (v[0] << v[1]) & m, true
	case OLshr:
		if v[1] >= uint64(w) {
			return 0, true
		}
		return v[0] >> v[1], true
	case OAshr:
		s := v[1]
		if s >= uint64(w) {
			s = uint64(w - 1)
		}
		return uint64(sx(v[0], w)>>s) & m, true
	case OZExt:
		return v[0], true
	case OSExt:
		return uint64(sx(v[0], aw)) & m, true
	case OTrunc:
		return v[0] & m, true
	case OMulHi:
		h, _ := bits.Mul64(v[0], v[1])
		return h, w == 64
	case OCarry:
		_, c := bits.Add64(v[0], v[1], v[2])
		return c, w == 64
	case OBorrow:
		_, c := bits.Sub64(v[0], v[1], v[2])
		return c, w == 64
	case OIte:
		if v[0] != 0 {
			return v[1], true
		}
		return v[2], true
	case OBNot:
		return 1 - v[0], true
	case OBAnd:
		return v[0] & v[1], true
	case OBOr:
		return v[0] | v[1], true
	case OEq:
		return b2u(v[0] == v[1]), true
	case OUlt:
		return b2u(v[0] < v[1]), true
	case OUle:
		return b2u(v[0] <= v[1]), true
	case OSlt:
		return b2u(sx(v[0], aw) < sx(v[1], aw)), true
	case OSle:
		return b2u(sx(v[0], aw) <= sx(v[1], aw)), true
	}
	return 0, false
}

func isBVArgs(args []*Term) bool {
	for _, a := range args {
		if a.sort != SBV && a.sort != SBool {
			return false
		}
	}
	return true
}

// BV/bool operation with folding and light simplification.
func (c *TermCtx) op(op Op, sort Sort, w int, args ...*Term) *Term {
	allc := true
	for _, a := range args {
		if !a.isConst() {
			allc = false
			break
		}
	}
	if allc && isBVArgs(args) {
		v := make([]uint64, len(args))
		for i, a := range args {
			v[i] = a.u
		}
		aw := 0
		if len(args) > 0 {
			aw = args[0].w
		}
		if r, ok := evalBV(op, w, aw, v); ok {
			if sort == SBool {
				return c.bool(r != 0)
			}
			return c.bv(w, r)
		}
	}
	a0 := args[0]
	var a1 *Term
	if len(args) > 1 {
		a1 = args[1]
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor, OMulHi, OEq, OBAnd, OBOr:
		// commutative: constants to the right, otherwise ordered by id
		if a0.isConst() && !a1.isConst() || (!a1.isConst() && !a0.isConst() && a0.id > a1.id) {
			a0, a1 = a1, a0
			args = []*Term{a0, a1}
		}
	}
	switch op {
	case OAdd, OSub, OShl, OLshr, OAshr:
		if a1.isConst() && a1.u == 0 {
			return a0
		}
		if op == OSub && a0 == a1 {
			return c.bv(w, 0)
		}
		if op == OAdd && a1.isConst() && a0.op == OAdd && a0.args[1].isConst() {
			return c.op(OAdd, SBV, w, a0.args[0], c.bv(w, a0.args[1].u+a1.u))
		}
		if (op == OShl || op == OLshr) && a1.isConst() && a1.u >= uint64(w) {
			return c.bv(w, 0)
		}
	case OOr, OXor:
		if a1.isConst() && a1.u == 0 {
			return a0
		}
		if op == OOr && a0 == a1 {
			return a0
		}
		if op == OXor && a0 == a1 {
			return c.bv(w, 0)
		}
		if op == OXor && a1.isConst() && a1.u == mask(w) {
			return c.op(ONot, SBV, w, a0)
		}
		if op == OOr && a1.isConst() && a1.u == mask(w) {
			return a1
		}
	case OAnd:
		if a1.isConst() && a1.u == 0 {
			return a1
		}
		if a1.isConst() && a1.u == mask(w) {
			return a0
		}
		if a0 == a1 {
			return a0
		}
	case OMul:
		if a1.isConst() && a1.u == 0 {
			return a1
		}
		if a1.isConst() && a1.u == 1 {
			return a0
		}
	case OMulHi:
		if a1.isConst() && a1.u <= 1 {
			return c.bv(w, 0)
		}
	case ONot:
		if a0.op == ONot {
			return a0.args[0]
		}
	case OZExt, OSExt, OTrunc:
		if a0.w == w {
			return a0
		}
		if op == OTrunc && (a0.op == OZExt || a0.op == OSExt) {
			in := a0.args[0]
			if in.w == w {
				return in
			}
			if in.w > w {
				return c.op(OTrunc, SBV, w, in)
			}
			return c.op(a0.op, SBV, w, in)
		}
		if op == OTrunc && a0.op == OTrunc {
			return c.op(OTrunc, SBV, w, a0.args[0])
		}
		if op == OZExt && a0.op == OZExt {
			return c.op(OZExt, SBV, w, a0.args[0])
		}
	case OUDiv:
		if a1.isConst() && a1.u == 1 {
			return a0
		}
	case OIte:
		if a0.isConst() {
			if a0.u != 0 {
				return args[1]
			}
			return args[2]
		}
		if args[1] == args[2] {
			return args[1]
		}
	case OBNot:
		if a0.op == OBNot {
			return a0.args[0]
		}
	case OBAnd:
		if a1.isConst() {
			if a1.u != 0 {
				return a0
			}
			return a1
		}
		if a0 == a1 {
			return a0
		}
	case OBOr:
		if a1.isConst() {
			if a1.u == 0 {
				return a0
			}
			return a1
		}
		if a0 == a1 {
			return a0
		}
	case OEq:
		if a0 == a1 {
			return c.bool(true)
		}
		if a0.sort == SBool && a1.isConst() {
			if a1.u != 0 {
				return a0
			}
			return c.op(OBNot, SBool, 0, a0)
		}
		if a1.isConst() && a0.op == OZExt && a0.sort == SBV {
			if a1.u > mask(a0.args[0].w) {
				return c.bool(false)
			}
			return c.op(OEq, SBool, 0, a0.args[0], c.bv(a0.args[0].w, a1.u))
		}
	case OUlt:
		if a0 == a1 {
			return c.bool(false)
		}
		if a1.isConst() && a1.u == 0 {
			return c.bool(false)
		}
	case OUle, OSle, OILe:
		if a0 == a1 {
			return c.bool(true)
		}
	case OSlt:
		if a0 == a1 {
			return c.bool(false)
		}
	}
	switch op {
	case OEq, OUlt, OUle, OSlt, OSle:
		if r := c.foldBitLen(op, a0, a1); r != nil {
			return r
		}
		if op == OEq || op == OSlt || op == OSle {
			if r := c.foldCmp(op, a0, a1); r != nil {
				return r
			}
		}
		// comparison of an ite over constants with a constant: push the comparison inside
		if a1.isConst() && a0.sort == SBV && iteConst(a0, 4) {
			return c.op(OIte, SBool, 0, a0.args[0], c.op(op, SBool, 0, a0.args[1], a1), c.op(op, SBool, 0, a0.args[2], a1))
		}
		if a0.isConst() && a1.sort == SBV && iteConst(a1, 4) {
			return c.op(OIte, SBool, 0, a1.args[0], c.op(op, SBool, 0, a0, a1.args[1]), c.op(op, SBool, 0, a0, a1.args[2]))
		}
	case OIte:
		if sort == SBool {
			x, y := args[1], args[2]
			switch {
			case x.isConst() && y.isConst():
				if x.u != 0 {
					return a0
				}
				return c.not(a0)
			case x.isConst() && x.u != 0:
				return c.or(a0, y)
			case x.isConst():
				return c.and(c.not(a0), y)
			case y.isConst() && y.u != 0:
				return c.or(c.not(a0), x)
			case y.isConst():
				return c.and(a0, x)
			}
		}
	}
	return c.mk(op, sort, w, 0, args...)
}

// iteConst: an ite tree (of bounded depth) whose leaves are constants.
func iteConst(t *Term, depth int) bool {
	if t.op != OIte || depth == 0 {
		return false
	}
	for _, a := range t.args[1:] {
		if !a.isConst() && !iteConst(a, depth-1) {
			return false
		}
	}
	return true
}

func (c *TermCtx) not(t *Term) *Term    { return c.op(OBNot, SBool, 0, t) }
func (c *TermCtx) and(a, b *Term) *Term { return c.op(OBAnd, SBool, 0, a, b) }
func (c *TermCtx) or(a, b *Term) *Term  { return c.op(OBOr, SBool, 0, a, b) }

// integer operations
func floorDiv(a, m *big.Int) *big.Int {
	q, _ := new(big.Int).DivMod(a, m, new(big.Int)) // Euclidean == floor for m>0
	return q
}

func (c *TermCtx) iop(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		r := new(big.Int)
		switch op {
		case OIAdd:
			return c.int(r.Add(a.k, b.k))
		case OISub:
			return c.int(r.Sub(a.k, b.k))
		case OIMul:
			return c.int(r.Mul(a.k, b.k))
		case OIDiv:
			return c.int(floorDiv(a.k, b.k))
		case OIMod:
			return c.int(r.Mod(a.k, b.k))
		}
	}
	switch op {
	case OIAdd:
		if b.isConst() && b.k.Sign() == 0 {
			return a
		}
		if a.isConst() && a.k.Sign() == 0 {
			return b
		}
	case OISub:
		if b.isConst() && b.k.Sign() == 0 {
			return a
		}
		if a == b {
			return c.int(new(big.Int))
		}
	case OIMul:
		if b.isConst() && b.k.Cmp(bigOne) == 0 {
			return a
		}
		if a.isConst() && a.k.Cmp(bigOne) == 0 {
			return b
		}
		if a.isConst() && a.k.Sign() == 0 {
			return a
		}
		if b.isConst() && b.k.Sign() == 0 {
			return b
		}
	}
	if (op == OIAdd || op == OIMul) && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, SInt, 0, 0, a, b)
}
func (c *TermCtx) ile(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.bool(a.k.Cmp(b.k) <= 0)
	}
	if a == b {
		return c.bool(true)
	}
	return c.mk(OILe, SBool, 0, 0, a, b)
}
func (c *TermCtx) ilt(a, b *Term) *Term { return c.not(c.ile(b, a)) }
func (c *TermCtx) ieq(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.bool(a.k.Cmp(b.k) == 0)
	}
	if a == b {
		return c.bool(true)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, SBool, 0, 0, a, b)
}
func (c *TermCtx) b2i(t *Term) *Term {
	if t.isConst() {
		return c.int(new(big.Int).SetUint64(t.u))
	}
	return c.mk(OB2I, SInt, 0, 0, t)
}
func (c *TermCtx) s2i(t *Term) *Term {
	if t.isConst() {
		return c.int(big.NewInt(sx(t.u, t.w)))
	}
	return c.mk(OS2I, SInt, 0, 0, t)
}
func (c *TermCtx) i2b(t *Term, w int) *Term {
	if t.isConst() {
		r := new(big.Int).Mod(t.k, pow2(w))
		return c.bv(w, r.Uint64())
	}
	if t.op == OB2I {
		a := t.args[0]
		if a.w == w {
			return a
		}
		if a.w > w {
			return c.op(OTrunc, SBV, w, a)
		}
		return c.op(OZExt, SBV, w, a)
	}
	if t.op == OS2I {
		a := t.args[0]
		if a.w == w {
			return a
		}
		if a.w > w {
			return c.op(OTrunc, SBV, w, a)
		}
		return c.op(OSExt, SBV, w, a)
	}
	return c.mk(OI2B, SBV, w, 0, t)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, 6)
	return sb.String()
}
func (t *Term) write(sb *strings.Builder, depth int) {
	switch t.op {
	case OConst:
		if t.sort == SBV {
			fmt.Fprintf(sb, "%d:%d", t.u, t.w)
		} else if t.sort == SBool {
			fmt.Fprintf(sb, "%v", t.u != 0)
		} else {
			sb.WriteString(t.k.String())
		}
		return
	case OVar:
		sb.WriteString(t.name)
		return
	}
	if depth == 0 {
		fmt.Fprintf(sb, "t%d", t.id)
		return
	}
	sb.WriteString("(" + opNames[t.op])
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.write(sb, depth-1)
	}
	sb.WriteByte(')')
}

// evalTerm evaluates a BV/bool/int term under a concrete assignment of the variables.
func evalTerm(t *Term, env map[*Term]*big.Int, memo map[*Term]*big.Int) *big.Int {
	if r, ok := memo[t]; ok {
		return r
	}
	var r *big.Int
	switch {
	case t.op == OConst:
		if t.k != nil {
			r = t.k
		} else {
			r = new(big.Int).SetUint64(t.u)
		}
	case t.op == OVar:
		r = env[t]
		if r == nil {
			r = new(big.Int)
		}
	default:
		v := make([]*big.Int, len(t.args))
		for i, a := range t.args {
			v[i] = evalTerm(a, env, memo)
		}
		b := func(x bool) *big.Int {
			if x {
				return big.NewInt(1)
			}
			return new(big.Int)
		}
		switch t.op {
		case OILe:
			r = b(v[0].Cmp(v[1]) <= 0)
		case OEq:
			r = b(v[0].Cmp(v[1]) == 0)
		case OIte:
			if v[0].Sign() != 0 {
				r = v[1]
			} else {
				r = v[2]
			}
		case OIAdd:
			r = new(big.Int).Add(v[0], v[1])
		case OISub:
			r = new(big.Int).Sub(v[0], v[1])
		case OIMul:
			r = new(big.Int).Mul(v[0], v[1])
		case OIDiv:
			r = floorDiv(v[0], v[1])
		case OIMod:
			r = new(big.Int).Mod(v[0], v[1])
		case OB2I:
			r = v[0]
		case OS2I:
			r = big.NewInt(sx(v[0].Uint64(), t.args[0].w))
		case OBitLen:
			r = big.NewInt(int64(v[0].BitLen()))
		case OI2B:
			r = new(big.Int).Mod(v[0], pow2(t.w))
		default:
			u := make([]uint64, len(v))
			for i := range v {
				u[i] = v[i].Uint64()
			}
			x, _ := evalBV(t.op, t.w, t.args[0].w, u)
			r = new(big.Int).SetUint64(x)
		}
	}
	memo[t] = r
	return r
}
