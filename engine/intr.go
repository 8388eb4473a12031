package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const zz = repoModule + "/internal/zzverif."

var intrTab = map[string]intrinsic{}

func (in *Interp) findIntrinsic(name string, fn *ssa.Function) (intrinsic, bool) {
	if f, ok := intrTab[name]; ok {
		return f, true
	}
	if in.fldMode {
		if f, ok := fldTab[name]; ok {
			return f, true
		}
	}
	if strings.HasPrefix(name, "internal/abi.") || strings.HasPrefix(name, "runtime.") {
		n := name
		return func(in *Interp, fr *frame, args []Value) Value { unsup("call to %s", n); return nil }, true
	}
	return nil, false
}

func strArg(v Value) string {
	s, ok := v.(string)
	if !ok {
		unsup("symbolic string argument")
	}
	return s
}

func (in *Interp) nondet(name string, sort Sort, w int, lo, hi *big.Int) Value {
	p := in.path
	kind := map[Sort]string{SBV: fmt.Sprintf("u%d", w), SBool: "bool", SInt: "int", SFld: "fld"}[sort]
	if p.concrete != nil {
		v := new(big.Int)
		if p.concPos < len(p.concrete) {
			v = p.concrete[p.concPos]
		}
		p.concPos++
		p.inputs = append(p.inputs, inputRec{Name: name, Kind: kind})
		switch sort {
		case SBool:
			return v.Sign() != 0
		case SInt:
			if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
				panic(pathAbort{"replay value out of range"})
			}
			return BigV{x: v}
		}
		return v.Uint64() & mask(w)
	}
	if sort == SInt && lo.Cmp(hi) == 0 {
		p.inputs = append(p.inputs, inputRec{Name: name, Kind: kind, v: 0})
		return BigV{x: lo}
	}
	t := p.c.newVar(name, sort, w, lo, hi)
	if sort == SBool {
		t.lo, t.hi = new(big.Int), big.NewInt(1)
	}
	p.inputs = append(p.inputs, inputRec{Name: name, Kind: kind, t: t})
	if sort == SInt {
		return BigV{t: t}
	}
	return t
}

func (in *Interp) newCell(v Value) *Value { return &v }

func asInt64(v Value) int64 {
	u, ok := v.(uint64)
	if !ok {
		unsup("symbolic int argument")
	}
	return int64(u)
}

func init() {
	reg := func(n string, f intrinsic) { intrTab[n] = f }
	// ---- harness interface
	for n, w := range map[string]int{"U64": 64, "U32": 32, "U16": 16, "U8": 8, "I64": 64} {
		w := w
		reg(zz+n, func(in *Interp, fr *frame, a []Value) Value { return in.nondet(strArg(a[0]), SBV, w, nil, nil) })
	}
	reg(zz+"Bool", func(in *Interp, fr *frame, a []Value) Value { return in.nondet(strArg(a[0]), SBool, 0, nil, nil) })
	reg(zz+"Int", func(in *Interp, fr *frame, a []Value) Value {
		lo, hi := in.bigOf(a[1]), in.bigOf(a[2])
		return in.newCell(in.nondet(strArg(a[0]), SInt, 0, lo.x, hi.x))
	})
	reg(zz+"Ghost", func(in *Interp, fr *frame, a []Value) Value {
		if in.path.concrete != nil {
			unsup("ghost value in a concrete run")
		}
		return in.path.c.newVar(fmt.Sprintf("%s_g%03d", strArg(a[0]), in.path.ghostSeq), SBV, 64, nil, nil)
	})
	reg(zz+"GhostInt", func(in *Interp, fr *frame, a []Value) Value {
		if in.path.concrete != nil {
			unsup("ghost value in a concrete run")
		}
		lo, hi := in.bigOf(a[1]), in.bigOf(a[2])
		return in.newCell(mkBig(in.path.c.newVar(fmt.Sprintf("%s_g%03d", strArg(a[0]), in.path.ghostSeq), SInt, 0, lo.x, hi.x)))
	})
	reg(zz+"GhostChoice", func(in *Interp, fr *frame, a []Value) Value {
		if in.path.concrete != nil {
			unsup("ghost value in a concrete run")
		}
		return uint64(in.path.choose(int(asInt64(a[1]))))
	})
	reg(zz+"Choice", func(in *Interp, fr *frame, a []Value) Value {
		n := int(asInt64(a[1]))
		p := in.path
		if p.concrete != nil {
			v := 0
			if p.concPos < len(p.concrete) {
				v = int(p.concrete[p.concPos].Int64())
			}
			p.concPos++
			p.inputs = append(p.inputs, inputRec{Name: strArg(a[0]), Kind: "choice", v: v})
			return uint64(v)
		}
		v := p.choose(n)
		p.inputs = append(p.inputs, inputRec{Name: strArg(a[0]), Kind: "choice", v: v})
		return uint64(v)
	})
	reg(zz+"Bytes", func(in *Interp, fr *frame, a []Value) Value {
		n := int(asInt64(a[1]))
		s := make(Slice, n)
		for i := range s {
			s[i] = in.nondet(strArg(a[0]), SBV, 8, nil, nil)
		}
		return s
	})
	reg(zz+"String", func(in *Interp, fr *frame, a []Value) Value {
		n := int(asInt64(a[1]))
		alpha := strArg(a[2])
		s := make([]Value, n)
		for i := range s {
			v := in.nondet(strArg(a[0]), SBV, 8, nil, nil)
			s[i] = v
			if alpha != "" {
				if t, ok := v.(*Term); ok {
					var c *Term = in.path.c.bool(false)
					seen := map[byte]bool{}
					for j := 0; j < len(alpha); j++ {
						if seen[alpha[j]] {
							continue
						}
						seen[alpha[j]] = true
						c = in.path.c.or(c, in.path.c.op(OEq, SBool, 0, t, in.path.c.bv(8, uint64(alpha[j]))))
					}
					in.path.assume(c)
				} else if strings.IndexByte(alpha, byte(v.(uint64))) < 0 {
					panic(pathAbort{"infeasible"})
				}
			}
		}
		return mkStr(s)
	})
	reg(zz+"Assume", func(in *Interp, fr *frame, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(pathAbort{"infeasible"})
			}
		case *Term:
			if v, ok := in.path.known[c]; ok {
				if !v {
					panic(pathAbort{"infeasible"})
				}
				return nil
			}
			if !in.path.feasible(c) {
				panic(pathAbort{"infeasible"})
			}
			in.path.assume(c)
		}
		return nil
	})
	reg(zz+"Lemma", func(in *Interp, fr *frame, a []Value) Value {
		if c, ok := a[0].(*Term); ok && in.path.intMode() && in.path.concrete == nil && !c.isConst() {
			in.path.assertInt(c, strArg(a[1]), true)
		}
		return nil
	})
	reg(zz+"Assert", func(in *Interp, fr *frame, a []Value) Value {
		msg := strArg(a[1])
		switch c := a[0].(type) {
		case bool:
			in.path.asserts++
			if !c {
				panic(assertFailed{msg})
			}
			in.path.addObl(true, true)
		case *Term:
			in.path.assert(c, msg)
		}
		return nil
	})
	reg(zz+"Reach", func(in *Interp, fr *frame, a []Value) Value { in.path.reach[strArg(a[0])] = true; return nil })
	reg(zz+"IsNative", func(in *Interp, fr *frame, a []Value) Value { return false })
	reg(zz+"IsSymbolic", func(in *Interp, fr *frame, a []Value) Value { return in.path.concrete == nil })
	reg(zz+"Register", func(in *Interp, fr *frame, a []Value) Value { return nil })
	reg(zz+"Observe", func(in *Interp, fr *frame, a []Value) Value {
		if in.path.concrete == nil {
			return nil
		}
		s := strArg(a[0])
		for _, v := range a[1].(Slice) {
			s += " " + in.fmtValue(v.(Iface), 'v', false)
		}
		in.path.obs = append(in.path.obs, s)
		return nil
	})

	// ---- math/bits
	reg("math/bits.Add64", func(in *Interp, fr *frame, a []Value) Value {
		if x, ok := a[0].(uint64); ok {
			if y, ok := a[1].(uint64); ok {
				if z, ok := a[2].(uint64); ok {
					s, c := bits.Add64(x, y, z)
					return Tuple{s, c}
				}
			}
		}
		return Tuple{in.bv(OAdd, 64, in.bv(OAdd, 64, a[0], a[1]), a[2]), in.bv(OCarry, 64, a...)}
	})
	reg("math/bits.Sub64", func(in *Interp, fr *frame, a []Value) Value {
		if x, ok := a[0].(uint64); ok {
			if y, ok := a[1].(uint64); ok {
				if z, ok := a[2].(uint64); ok {
					s, c := bits.Sub64(x, y, z)
					return Tuple{s, c}
				}
			}
		}
		return Tuple{in.bv(OSub, 64, in.bv(OSub, 64, a[0], a[1]), a[2]), in.bv(OBorrow, 64, a...)}
	})
	intrTab["math/bits.Add"] = intrTab["math/bits.Add64"]
	intrTab["math/bits.Sub"] = intrTab["math/bits.Sub64"]
	reg("math/bits.Mul64", func(in *Interp, fr *frame, a []Value) Value {
		if x, ok := a[0].(uint64); ok {
			if y, ok := a[1].(uint64); ok {
				h, l := bits.Mul64(x, y)
				return Tuple{h, l}
			}
		}
		return Tuple{in.bv(OMulHi, 64, a...), in.bv(OMul, 64, a...)}
	})
	intrTab["math/bits.Mul"] = intrTab["math/bits.Mul64"]
	bitlen := func(w int) intrinsic {
		return func(in *Interp, fr *frame, a []Value) Value {
			if x, ok := a[0].(uint64); ok {
				return uint64(bits.Len64(x))
			}
			return uint64(in.symLen(a[0], w))
		}
	}
	reg("math/bits.Len64", bitlen(64))
	reg("math/bits.Len32", bitlen(32))
	reg("math/bits.Len8", bitlen(8))
	reg("math/bits.Len", bitlen(64))
	reg("math/bits.LeadingZeros64", func(in *Interp, fr *frame, a []Value) Value {
		if x, ok := a[0].(uint64); ok {
			return uint64(bits.LeadingZeros64(x))
		}
		return uint64(64 - in.symLen(a[0], 64))
	})
	tz := func(w int) intrinsic {
		return func(in *Interp, fr *frame, a []Value) Value {
			if x, ok := a[0].(uint64); ok {
				if x == 0 {
					return uint64(w)
				}
				return uint64(bits.TrailingZeros64(x))
			}
			// binary search on the number of trailing zeros
			if in.cond(in.cmp(OEq, w, a[0], uint64(0))) {
				return uint64(w)
			}
			lo, hi := 0, w-1 // tz in [lo,hi]
			for lo < hi {
				mid := (lo + hi) / 2
				low := in.bv(OAnd, w, a[0], mask(mid+1))
				if in.cond(in.cmp(OEq, w, low, uint64(0))) {
					lo = mid + 1
				} else {
					hi = mid
				}
			}
			return uint64(lo)
		}
	}
	reg("math/bits.TrailingZeros64", tz(64))
	reg("math/bits.TrailingZeros32", tz(32))
	reg("math/bits.TrailingZeros8", tz(8))
	reg("math/bits.TrailingZeros", tz(64))

	// ---- math
	reg("math.Float64bits", func(in *Interp, fr *frame, a []Value) Value { return math.Float64bits(a[0].(float64)) })
	reg("math.Float64frombits", func(in *Interp, fr *frame, a []Value) Value { return math.Float64frombits(a[0].(uint64)) })

	regBig(reg)
	regStr(reg)
	regReflect(reg)
	regMisc(reg)
}

// symLen forks on the bit length of a symbolic word (binary search).
func (in *Interp) symLen(v Value, w int) int {
	lo, hi := 0, w
	for lo < hi {
		mid := (lo + hi) / 2 // len <= mid ?
		var c Value
		if mid == 0 {
			c = in.cmp(OEq, w, v, uint64(0))
		} else {
			c = in.cmp(OUle, w, v, mask(mid))
		}
		if in.cond(c) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo
}

type assertFailed struct{ msg string }

// ---------------------------------------------------------------- math/big

func (in *Interp) setBig(p Value, b BigV) Value {
	cell := p.(*Value)
	if cell == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	in.set(cell, b)
	return cell
}

func regBig(reg func(string, intrinsic)) {
	const B = "(*math/big.Int)."
	bin := func(op Op, f func(z, x, y *big.Int)) intrinsic {
		return func(in *Interp, fr *frame, a []Value) Value {
			x, y := in.bigOf(a[1]), in.bigOf(a[2])
			if x.t == nil && y.t == nil {
				r := new(big.Int)
				f(r, x.x, y.x)
				return in.setBig(a[0], BigV{x: r})
			}
			return in.setBig(a[0], mkBig(in.path.c.iop(op, in.bigTerm(x), in.bigTerm(y))))
		}
	}
	reg(B+"Add", bin(OIAdd, func(z, x, y *big.Int) { z.Add(x, y) }))
	reg(B+"Sub", bin(OISub, func(z, x, y *big.Int) { z.Sub(x, y) }))
	reg(B+"Mul", bin(OIMul, func(z, x, y *big.Int) { z.Mul(x, y) }))
	conc := func(name string, f func(z *big.Int, a []*big.Int)) {
		reg(B+name, func(in *Interp, fr *frame, a []Value) Value {
			var xs []*big.Int
			for _, v := range a[1:] {
				b := in.bigOf(v)
				if b.t != nil {
					unsup("big.Int.%s on symbolic value", name)
				}
				xs = append(xs, b.x)
			}
			r := new(big.Int)
			f(r, xs)
			return in.setBig(a[0], BigV{x: r})
		})
	}
	divmod := func(name string, op Op, f func(z, x, y *big.Int), trunc bool) {
		reg(B+name, func(in *Interp, fr *frame, a []Value) Value {
			x, y := in.bigOf(a[1]), in.bigOf(a[2])
			if y.t == nil && y.x.Sign() == 0 {
				panic(targetPanic{in.mkError("division by zero")})
			}
			if x.t == nil && y.t == nil {
				r := new(big.Int)
				f(r, x.x, y.x)
				return in.setBig(a[0], BigV{x: r})
			}
			if y.t != nil || y.x.Sign() < 0 {
				unsup("big.Int.%s by symbolic or negative value", name)
			}
			c := in.path.c
			xt, yt := in.bigTerm(x), in.bigTerm(y)
			if trunc {
				// truncated towards zero: fork on the sign
				if !in.cond(in.unwrapBool(c.ile(c.int(new(big.Int)), xt))) {
					n := c.iop(OISub, c.int(new(big.Int)), xt)
					r := c.iop(op, n, yt)
					return in.setBig(a[0], mkBig(c.iop(OISub, c.int(new(big.Int)), r)))
				}
			}
			return in.setBig(a[0], mkBig(c.iop(op, xt, yt)))
		})
	}
	divmod("Mod", OIMod, func(z, x, y *big.Int) { z.Mod(x, y) }, false)
	divmod("Div", OIDiv, func(z, x, y *big.Int) { z.Div(x, y) }, false)
	divmod("Quo", OIDiv, func(z, x, y *big.Int) { z.Quo(x, y) }, true)
	divmod("Rem", OIMod, func(z, x, y *big.Int) { z.Rem(x, y) }, true)
	reg(B+"DivMod", func(in *Interp, fr *frame, a []Value) Value {
		x, y := in.bigOf(a[1]), in.bigOf(a[2])
		if x.t == nil && y.t == nil {
			q, m := new(big.Int).DivMod(x.x, y.x, new(big.Int))
			in.setBig(a[0], BigV{x: q})
			in.setBig(a[3], BigV{x: m})
			return Tuple{a[0], a[3]}
		}
		if y.t != nil || y.x.Sign() <= 0 {
			unsup("DivMod")
		}
		c := in.path.c
		q, m := c.iop(OIDiv, in.bigTerm(x), in.bigTerm(y)), c.iop(OIMod, in.bigTerm(x), in.bigTerm(y))
		in.setBig(a[0], mkBig(q))
		in.setBig(a[3], mkBig(m))
		return Tuple{a[0], a[3]}
	})
	reg(B+"QuoRem", func(in *Interp, fr *frame, a []Value) Value {
		x, y := in.bigOf(a[1]), in.bigOf(a[2])
		if x.t == nil && y.t == nil {
			q, m := new(big.Int).QuoRem(x.x, y.x, new(big.Int))
			in.setBig(a[0], BigV{x: q})
			in.setBig(a[3], BigV{x: m})
			return Tuple{a[0], a[3]}
		}
		unsup("QuoRem")
		return nil
	})
	reg(B+"ModInverse", func(in *Interp, fr *frame, a []Value) Value {
		x, m := in.bigOf(a[1]), in.bigOf(a[2])
		if m.t != nil {
			unsup("ModInverse with a symbolic modulus")
		}
		if x.t == nil {
			r := new(big.Int)
			if r.ModInverse(x.x, m.x) == nil {
				return (*Value)(nil)
			}
			return in.setBig(a[0], BigV{x: r})
		}
		if !m.x.ProbablyPrime(40) {
			unsup("ModInverse with a composite modulus")
		}
		// the documented result: nil iff x = 0 modulo the prime m, else the t in [1,m) with t*x = 1 modulo m
		c := in.path.c
		if in.cond(in.unwrapBool(c.ieq(c.iop(OIMod, in.bigTerm(x), c.int(m.x)), c.int(new(big.Int))))) {
			return (*Value)(nil)
		}
		in.path.ghostSeq++
		t := c.newVar(fmt.Sprintf("inv_g%03d", in.path.ghostSeq), SInt, 0, bigOne, new(big.Int).Sub(m.x, bigOne))
		in.path.assume(c.ieq(c.iop(OIMod, c.iop(OIMul, t, in.bigTerm(x)), c.int(m.x)), c.int(bigOne)))
		return in.setBig(a[0], mkBig(t))
	})
	conc("GCD", func(z *big.Int, a []*big.Int) { unsup("GCD") })
	reg(B+"Exp", func(in *Interp, fr *frame, a []Value) Value {
		x, y, m := in.bigOf(a[1]), in.bigOf(a[2]), BigV{x: new(big.Int)}
		if mp, ok := a[3].(*Value); ok && mp != nil {
			m = in.bigOf(a[3])
		}
		if x.t != nil || y.t != nil || m.t != nil {
			unsup("big.Int.Exp on symbolic value")
		}
		return in.setBig(a[0], BigV{x: new(big.Int).Exp(x.x, y.x, m.x)})
	})
	reg(B+"ModSqrt", func(in *Interp, fr *frame, a []Value) Value {
		x, y := in.bigOf(a[1]), in.bigOf(a[2])
		if x.t != nil || y.t != nil {
			unsup("ModSqrt on symbolic value")
		}
		r := new(big.Int).ModSqrt(x.x, y.x)
		if r == nil {
			return (*Value)(nil)
		}
		return in.setBig(a[0], BigV{x: r})
	})
	reg("math/big.Jacobi", func(in *Interp, fr *frame, a []Value) Value {
		x, y := in.bigOf(a[0]), in.bigOf(a[1])
		if x.t != nil || y.t != nil {
			unsup("Jacobi on symbolic value")
		}
		return uint64(int64(big.Jacobi(x.x, y.x)))
	})
	reg(B+"ProbablyPrime", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		if x.t != nil {
			unsup("ProbablyPrime")
		}
		return x.x.ProbablyPrime(20)
	})
	un := func(name string, fc func(z, x *big.Int), ft func(in *Interp, t *Term) *Term) {
		reg(B+name, func(in *Interp, fr *frame, a []Value) Value {
			x := in.bigOf(a[1])
			if x.t == nil {
				r := new(big.Int)
				fc(r, x.x)
				return in.setBig(a[0], BigV{x: r})
			}
			return in.setBig(a[0], mkBig(ft(in, x.t)))
		})
	}
	un("Set", func(z, x *big.Int) { z.Set(x) }, func(in *Interp, t *Term) *Term { return t })
	un("Neg", func(z, x *big.Int) { z.Neg(x) }, func(in *Interp, t *Term) *Term {
		return in.path.c.iop(OISub, in.path.c.int(new(big.Int)), t)
	})
	un("Abs", func(z, x *big.Int) { z.Abs(x) }, func(in *Interp, t *Term) *Term {
		c := in.path.c
		if in.cond(in.unwrapBool(c.ile(c.int(new(big.Int)), t))) {
			return t
		}
		return c.iop(OISub, c.int(new(big.Int)), t)
	})
	reg(B+"SetUint64", func(in *Interp, fr *frame, a []Value) Value {
		if u, ok := a[1].(uint64); ok {
			return in.setBig(a[0], BigV{x: new(big.Int).SetUint64(u)})
		}
		return in.setBig(a[0], mkBig(in.path.c.b2i(a[1].(*Term))))
	})
	reg(B+"SetInt64", func(in *Interp, fr *frame, a []Value) Value {
		if u, ok := a[1].(uint64); ok {
			return in.setBig(a[0], BigV{x: big.NewInt(int64(u))})
		}
		return in.setBig(a[0], mkBig(in.path.c.s2i(a[1].(*Term))))
	})
	reg("math/big.NewInt", func(in *Interp, fr *frame, a []Value) Value {
		if u, ok := a[0].(uint64); ok {
			return in.newCell(BigV{x: big.NewInt(int64(u))})
		}
		return in.newCell(mkBig(in.path.c.s2i(a[0].(*Term))))
	})
	reg(B+"SetString", func(in *Interp, fr *frame, a []Value) Value {
		r, ok := new(big.Int).SetString(strArg(a[1]), int(asInt64(a[2])))
		if !ok {
			return Tuple{(*Value)(nil), false}
		}
		return Tuple{in.setBig(a[0], BigV{x: r}), true}
	})
	reg(B+"SetBit", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[1])
		if x.t != nil {
			c, b := in.path.c, a[3]
			n, nb := a[2].(uint64)
			v, nv := b.(uint64)
			if !nb || !nv || v > 1 {
				unsup("SetBit at a symbolic position")
			}
			d := c.int(pow2(int(n)))
			set := in.cond(in.unwrapBool(c.ieq(c.iop(OIMod, c.iop(OIDiv, x.t, d), c.int(big.NewInt(2))), c.int(bigOne))))
			t := x.t
			if v == 1 && !set {
				t = c.iop(OIAdd, t, d)
			} else if v == 0 && set {
				t = c.iop(OISub, t, d)
			}
			return in.setBig(a[0], mkBig(t))
		}
		return in.setBig(a[0], BigV{x: new(big.Int).SetBit(x.x, int(asInt64(a[2])), uint(a[3].(uint64)))})
	})
	reg(B+"Uint64", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		if x.t == nil {
			r := new(big.Int).Abs(x.x)
			r.And(r, new(big.Int).SetUint64(^uint64(0)))
			if x.x.Sign() < 0 {
				return -r.Uint64() // low word of the two's complement, as in math/big
			}
			return r.Uint64()
		}
		return in.unwrapBV(in.path.c.i2b(x.t, 64))
	})
	reg(B+"Int64", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		if x.t == nil {
			return uint64(x.x.Int64())
		}
		return in.unwrapBV(in.path.c.i2b(x.t, 64))
	})
	reg(B+"Sign", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		if x.t == nil {
			return uint64(int64(x.x.Sign()))
		}
		c := in.path.c
		z := c.int(new(big.Int))
		return cmpRes(c, c.ieq(x.t, z), c.ilt(x.t, z))
	})
	cmp := func(abs bool) intrinsic {
		return func(in *Interp, fr *frame, a []Value) Value {
			x, y := in.bigOf(a[0]), in.bigOf(a[1])
			if x.t == nil && y.t == nil {
				if abs {
					return uint64(int64(x.x.CmpAbs(y.x)))
				}
				return uint64(int64(x.x.Cmp(y.x)))
			}
			c := in.path.c
			xt, yt := in.bigTerm(x), in.bigTerm(y)
			if abs {
				z := c.int(new(big.Int))
				ab := func(t *Term) *Term {
					if in.cond(in.unwrapBool(c.ile(z, t))) {
						return t
					}
					return c.iop(OISub, z, t)
				}
				xt, yt = ab(xt), ab(yt)
			}
			// a symbolic three-valued result: ite terms keep a later comparison with 0 a single condition
			return cmpRes(c, c.ieq(xt, yt), c.ilt(xt, yt))
		}
	}
	reg(B+"Cmp", cmp(false))
	reg(B+"CmpAbs", cmp(true))
	reg(B+"IsUint64", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		if x.t == nil {
			return x.x.IsUint64()
		}
		c := in.path.c
		return in.unwrapBool(c.and(c.ile(c.int(new(big.Int)), x.t), c.ile(x.t, c.int(new(big.Int).SetUint64(^uint64(0))))))
	})
	reg(B+"IsInt64", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		if x.t == nil {
			return x.x.IsInt64()
		}
		c := in.path.c
		return in.unwrapBool(c.and(c.ile(c.int(big.NewInt(math.MinInt64)), x.t), c.ile(x.t, c.int(big.NewInt(math.MaxInt64)))))
	})
	reg(B+"BitLen", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		if x.t == nil {
			return uint64(x.x.BitLen())
		}
		// BitLen as a symbolic value: comparisons with constants become range conditions
		lo, hi := x.t.rng()
		if lo == nil || hi == nil {
			unsup("BitLen of an unbounded integer")
		}
		return in.path.c.mk(OBitLen, SBV, 64, 0, x.t)
	})
	reg(B+"Bit", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		i := int(asInt64(a[1]))
		if x.t == nil {
			return uint64(x.x.Bit(i))
		}
		c := in.path.c
		q := c.iop(OIDiv, x.t, c.int(pow2(i)))
		return in.unwrapBV(c.i2b(c.iop(OIMod, q, c.int(big.NewInt(2))), 64))
	})
	reg(B+"And", func(in *Interp, fr *frame, a []Value) Value {
		x, y := in.bigOf(a[1]), in.bigOf(a[2])
		if x.t == nil && y.t == nil {
			return in.setBig(a[0], BigV{x: new(big.Int).And(x.x, y.x)})
		}
		if x.t == nil {
			x, y = y, x
		}
		if y.t == nil && y.x.Sign() >= 0 {
			if n := y.x.BitLen(); new(big.Int).Add(y.x, bigOne).Cmp(pow2(n)) == 0 {
				return in.setBig(a[0], mkBig(in.path.c.iop(OIMod, x.t, in.path.c.int(pow2(n)))))
			}
		}
		unsup("And with something other than a mask of low bits")
		return nil
	})
	reg(B+"TrailingZeroBits", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		if x.t == nil {
			return uint64(x.x.TrailingZeroBits())
		}
		// case by case
		c := in.path.c
		_, hi := x.t.rng()
		lo, _ := x.t.rng()
		z := c.int(new(big.Int))
		if lo == nil || hi == nil || in.cond(in.unwrapBool(c.ieq(x.t, z))) {
			if lo == nil || hi == nil {
				unsup("TrailingZeroBits of an unbounded integer")
			}
			return uint64(0)
		}
		for n := 0; ; n++ {
			if n > 64 {
				unsup("TrailingZeroBits above 64 cases")
			}
			if !in.cond(in.unwrapBool(c.ieq(c.iop(OIMod, x.t, c.int(pow2(n+1))), z))) {
				return uint64(n)
			}
		}
	})
	reg(B+"Lsh", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[1])
		n := int(asInt64(a[2]))
		if x.t == nil {
			return in.setBig(a[0], BigV{x: new(big.Int).Lsh(x.x, uint(n))})
		}
		return in.setBig(a[0], mkBig(in.path.c.iop(OIMul, x.t, in.path.c.int(pow2(n)))))
	})
	reg(B+"Rsh", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[1])
		n := int(asInt64(a[2]))
		if x.t == nil {
			return in.setBig(a[0], BigV{x: new(big.Int).Rsh(x.x, uint(n))})
		}
		return in.setBig(a[0], mkBig(in.path.c.iop(OIDiv, x.t, in.path.c.int(pow2(n)))))
	})
	reg(B+"SetBytes", func(in *Interp, fr *frame, a []Value) Value {
		s := a[1].(Slice)
		sym := false
		for _, b := range s {
			if isSym(b) {
				sym = true
			}
		}
		if !sym {
			buf := make([]byte, len(s))
			for i := range s {
				buf[i] = byte(s[i].(uint64))
			}
			return in.setBig(a[0], BigV{x: new(big.Int).SetBytes(buf)})
		}
		c := in.path.c
		r := c.int(new(big.Int))
		for i, b := range s {
			var t *Term
			if u, ok := b.(uint64); ok {
				t = c.int(new(big.Int).SetUint64(u))
			} else {
				t = c.b2i(b.(*Term))
			}
			r = c.iop(OIAdd, r, c.iop(OIMul, t, c.int(pow2(8*(len(s)-1-i)))))
		}
		return in.setBig(a[0], mkBig(r))
	})
	reg(B+"FillBytes", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		s := a[1].(Slice)
		if x.t == nil {
			if (x.x.BitLen()+7)/8 > len(s) {
				panic(targetPanic{in.mkError("math/big: buffer too small to fit value")})
			}
			buf := make([]byte, len(s))
			x.x.FillBytes(buf)
			for i := range s {
				in.set(&s[i], uint64(buf[i]))
			}
			return s
		}
		c := in.path.c
		lim := c.int(pow2(8 * len(s)))
		t := x.t
		if !in.cond(in.unwrapBool(c.ile(c.int(new(big.Int)), t))) {
			t = c.iop(OISub, c.int(new(big.Int)), t)
		}
		if !in.cond(in.unwrapBool(c.ilt(t, lim))) {
			panic(targetPanic{in.mkError("math/big: buffer too small to fit value")})
		}
		for i := range s {
			sh := 8 * (len(s) - 1 - i)
			in.set(&s[i], in.unwrapBV(c.i2b(c.iop(OIDiv, t, c.int(pow2(sh))), 8)))
		}
		return s
	})
	reg(B+"Bytes", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		if x.t != nil {
			unsup("big.Int.Bytes on symbolic value")
		}
		var r Slice = Slice{}
		for _, b := range x.x.Bytes() {
			r = append(r, uint64(b))
		}
		return r
	})
	reg(B+"String", func(in *Interp, fr *frame, a []Value) Value {
		if p, ok := a[0].(*Value); ok && p == nil {
			return "<nil>"
		}
		x := in.bigOf(a[0])
		if x.t != nil {
			return "<symbolic>"
		}
		return x.x.String()
	})
	reg(B+"Text", func(in *Interp, fr *frame, a []Value) Value {
		x := in.bigOf(a[0])
		if x.t != nil {
			return "<symbolic>"
		}
		return x.x.Text(int(asInt64(a[1])))
	})
}

// cmpRes: three-valued result of a comparison, as a word term ite(eq,0,ite(lt,-1,1)).
func cmpRes(c *TermCtx, eq, lt *Term) Value {
	if eq.isConst() && eq.u != 0 {
		return uint64(0)
	}
	if lt.isConst() {
		if lt.u != 0 {
			return ^uint64(0)
		}
		if eq.isConst() {
			return uint64(1)
		}
	}
	t := c.op(OIte, SBV, 64, eq, c.bv(64, 0), c.op(OIte, SBV, 64, lt, c.bv(64, ^uint64(0)), c.bv(64, 1)))
	if c.cmps == nil {
		c.cmps = map[*Term][2]*Term{}
	}
	c.cmps[t] = [2]*Term{eq, lt}
	return t
}

// foldCmp simplifies signed comparisons of a cmpRes term with a constant.
func (c *TermCtx) foldCmp(op Op, a0, a1 *Term) *Term {
	t, k, left := a0, a1, true
	if a0.isConst() {
		t, k, left = a1, a0, false
	}
	v, ok := c.cmps[t]
	if !ok || !k.isConst() {
		return nil
	}
	holds := func(r int64) bool {
		x, y := r, sx(k.u, 64)
		if !left {
			x, y = y, x
		}
		switch op {
		case OEq:
			return x == y
		case OSlt:
			return x < y
		}
		return x <= y
	}
	eq, lt := v[0], v[1]
	n := 0
	for i, r := range []int64{-1, 0, 1} {
		if holds(r) {
			n |= 1 << i
		}
	}
	switch n {
	case 0:
		return c.bool(false)
	case 7:
		return c.bool(true)
	case 1:
		return lt
	case 6:
		return c.not(lt)
	case 2:
		return eq
	case 5:
		return c.not(eq)
	case 3:
		return c.or(lt, eq)
	case 4:
		return c.and(c.not(lt), c.not(eq))
	}
	return nil
}

// foldBitLen turns comparisons of a bit length with a constant into range conditions.
func (c *TermCtx) foldBitLen(op Op, a0, a1 *Term) *Term {
	t, k, left := a0, a1, true
	if a0.isConst() {
		t, k, left = a1, a0, false
	}
	if t.op != OBitLen || !k.isConst() {
		return nil
	}
	x := t.args[0]
	// le(n): |x| < 2^n
	le := func(n int64) *Term {
		if n < 0 {
			return c.bool(false)
		}
		if n > 1<<16 {
			return c.bool(true)
		}
		b := pow2(int(n))
		lo, hi := x.rng()
		r := c.bool(true)
		if hi == nil || hi.Cmp(b) >= 0 {
			r = c.and(r, c.ilt(x, c.int(b)))
		}
		if lo == nil || new(big.Int).Neg(lo).Cmp(b) >= 0 {
			r = c.and(r, c.ilt(c.int(new(big.Int).Neg(b)), x))
		}
		return r
	}
	n := sx(k.u, 64)
	switch op {
	case OEq:
		return c.and(le(n), c.not(le(n-1)))
	case OSlt, OUlt:
		if left {
			return le(n - 1)
		}
		return c.not(le(n))
	case OSle, OUle:
		if left {
			return le(n)
		}
		return c.not(le(n - 1))
	}
	return nil
}

// forceBitLen makes a symbolic bit length concrete, by binary search over the possible values.
func (in *Interp) forceBitLen(v Value) Value {
	t, ok := v.(*Term)
	if !ok || t.op != OBitLen {
		return v
	}
	c := in.path.c
	lo, hi := 0, 0
	a, h := t.args[0].rng()
	hi = h.BitLen()
	if a.BitLen() > hi {
		hi = a.BitLen()
	}
	for lo < hi {
		mid := (lo + hi) / 2
		if in.cond(in.unwrapBool(c.op(OSle, SBool, 0, t, c.bv(64, uint64(mid))))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return uint64(lo)
}
