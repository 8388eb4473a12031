package main

// Integer lowering: every machine integer becomes an exact integer polynomial
// over atoms (inputs and floor quotients); reductions mod 2^k introduce a floor
// atom identified by its canonical residue, so that recombining words
// telescopes syntactically. Queries are emitted as linear real arithmetic over
// monomials (an over-approximation: unsat is sound), or LIA.

import (
	"fmt"
	"math/big"
	"math/bits"
	"os"
	"sort"
	"strings"
)

type mterm struct {
	m int
	c *big.Int
}
type Lin struct {
	t []mterm // sorted by monomial id
	k *big.Int
}

type atom struct {
	id     int
	name   string
	lo, hi *big.Int // hi may be nil only never: all atoms are bounded
	input  bool
	floor  bool
	rem    bool // remainder: value = def = (something) mod M
	def    *Lin // floor: value = floor(def / M)
	M      *big.Int
	sub    *Lin
	tried  int // generation at which fixing was last attempted
}

type mono struct {
	atoms []int
	name  string
}

type lowered struct {
	lin *Lin
	gen int
}

type LinCtx struct {
	p       *Path
	atoms   []*atom
	monos   []*mono
	monoIdx map[string]int
	floors  map[string]int
	gen     int // bumped on every substitution
	facts   []*Lin
	eqs     []*Lin // equalities (= 0) that could not be turned into substitutions
	krange  map[string]*big.Int
	rltDone map[[2]int]bool
	depth   int        // nesting of floor merges
	mods    []*big.Int // moduli of remainder atoms
	emitted int        // monomials declared so far
	nsub    int
	opq     map[string]int
}

func newLinCtx(p *Path) *LinCtx {
	return &LinCtx{p: p, monoIdx: map[string]int{}, floors: map[string]int{}, rltDone: map[[2]int]bool{}, opq: map[string]int{}}
}

func linConst(k *big.Int) *Lin { return &Lin{k: k} }
func linInt(k int64) *Lin      { return &Lin{k: big.NewInt(k)} }

func (l *Lin) isConst() bool { return len(l.t) == 0 }

func (l *Lin) key() string {
	var sb strings.Builder
	for _, t := range l.t {
		fmt.Fprintf(&sb, "%d:%s,", t.m, t.c.Text(62))
	}
	sb.WriteByte('|')
	sb.WriteString(l.k.Text(62))
	return sb.String()
}

func addScaled(a, b *Lin, s *big.Int) *Lin {
	r := &Lin{k: new(big.Int).Mul(b.k, s)}
	r.k.Add(r.k, a.k)
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		if j >= len(b.t) || (i < len(a.t) && a.t[i].m < b.t[j].m) {
			r.t = append(r.t, a.t[i])
			i++
		} else if i >= len(a.t) || b.t[j].m < a.t[i].m {
			c := new(big.Int).Mul(b.t[j].c, s)
			if c.Sign() != 0 {
				r.t = append(r.t, mterm{b.t[j].m, c})
			}
			j++
		} else {
			c := new(big.Int).Mul(b.t[j].c, s)
			c.Add(c, a.t[i].c)
			if c.Sign() != 0 {
				r.t = append(r.t, mterm{a.t[i].m, c})
			}
			i++
			j++
		}
	}
	return r
}

var bigMinus = big.NewInt(-1)

func linAdd(a, b *Lin) *Lin { return addScaled(a, b, bigOne) }
func linSub(a, b *Lin) *Lin { return addScaled(a, b, bigMinus) }
func linScale(a *Lin, s *big.Int) *Lin {
	return addScaled(&Lin{k: new(big.Int)}, a, s)
}
func linAddK(a *Lin, k *big.Int) *Lin {
	return &Lin{t: a.t, k: new(big.Int).Add(a.k, k)}
}

func (x *LinCtx) newAtom(name string, lo, hi *big.Int) *atom {
	a := &atom{id: len(x.atoms), name: fmt.Sprintf("a%d_%s", len(x.atoms), sanitize(name)), lo: lo, hi: hi, tried: -1}
	x.atoms = append(x.atoms, a)
	return a
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			b[i] = '_'
		}
	}
	return string(b)
}

func (x *LinCtx) mono(atoms []int) int {
	var sb strings.Builder
	for _, a := range atoms {
		fmt.Fprintf(&sb, "%d,", a)
	}
	if i, ok := x.monoIdx[sb.String()]; ok {
		return i
	}
	m := &mono{atoms: append([]int(nil), atoms...)}
	if len(atoms) == 1 {
		m.name = x.atoms[atoms[0]].name
	} else {
		m.name = "p"
		for _, a := range atoms {
			m.name += fmt.Sprintf("_%d", a)
		}
	}
	x.monos = append(x.monos, m)
	x.monoIdx[sb.String()] = len(x.monos) - 1
	return len(x.monos) - 1
}

func (x *LinCtx) atomLin(a *atom) *Lin {
	if a.lo.Cmp(a.hi) == 0 {
		return linConst(a.lo)
	}
	return &Lin{t: []mterm{{x.mono([]int{a.id}), bigOne}}, k: new(big.Int)}
}

func (x *LinCtx) mul(a, b *Lin) *Lin {
	if a.isConst() {
		return linScale(b, a.k)
	}
	if b.isConst() {
		return linScale(a, b.k)
	}
	acc := map[int]*big.Int{}
	add := func(m int, c *big.Int) {
		if o, ok := acc[m]; ok {
			o.Add(o, c)
		} else {
			acc[m] = new(big.Int).Set(c)
		}
	}
	for _, s := range a.t {
		for _, t := range b.t {
			sa, ta := x.monos[s.m].atoms, x.monos[t.m].atoms
			all := append(append([]int(nil), sa...), ta...)
			sort.Ints(all)
			// binary atoms are idempotent
			out := all[:0]
			for i, at := range all {
				if i > 0 && all[i-1] == at && x.isBin(x.atoms[at]) {
					continue
				}
				out = append(out, at)
			}
			add(x.mono(out), new(big.Int).Mul(s.c, t.c))
		}
	}
	for _, s := range a.t {
		add(s.m, new(big.Int).Mul(s.c, b.k))
	}
	for _, t := range b.t {
		add(t.m, new(big.Int).Mul(t.c, a.k))
	}
	r := &Lin{k: new(big.Int).Mul(a.k, b.k)}
	ids := make([]int, 0, len(acc))
	for m, c := range acc {
		if c.Sign() != 0 {
			ids = append(ids, m)
		}
	}
	sort.Ints(ids)
	for _, m := range ids {
		r.t = append(r.t, mterm{m, acc[m]})
	}
	if len(r.t) > 4000 {
		unsup("polynomial too large")
	}
	return r
}

func (x *LinCtx) isBin(a *atom) bool {
	return a.lo.Sign() == 0 && a.hi.Cmp(bigOne) == 0
}

func (x *LinCtx) monoRange(m int) (*big.Int, *big.Int) {
	at := x.monos[m].atoms
	lo, hi := x.atoms[at[0]].lo, x.atoms[at[0]].hi
	for _, a := range at[1:] {
		l2, h2 := x.atoms[a].lo, x.atoms[a].hi
		lo, hi = mulRange(lo, hi, l2, h2)
	}
	return lo, hi
}

func mulRange(a, b, c, d *big.Int) (*big.Int, *big.Int) {
	var lo, hi *big.Int
	for _, p := range [][2]*big.Int{{a, c}, {a, d}, {b, c}, {b, d}} {
		v := new(big.Int).Mul(p[0], p[1])
		if lo == nil || v.Cmp(lo) < 0 {
			lo = v
		}
		if hi == nil || v.Cmp(hi) > 0 {
			hi = v
		}
	}
	return lo, hi
}

func (x *LinCtx) rangeOf(l *Lin) (*big.Int, *big.Int) {
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	tmp := new(big.Int)
	for _, t := range l.t {
		a, b := x.monoRange(t.m)
		if t.c.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, tmp.Mul(t.c, a))
		hi.Add(hi, tmp.Mul(t.c, b))
	}
	return lo, hi
}

// norm applies the current substitutions.
func (x *LinCtx) norm(l *Lin) *Lin {
	if x.nsub == 0 {
		return l
	}
	dirty := false
	for _, t := range l.t {
		for _, a := range x.monos[t.m].atoms {
			if x.atoms[a].sub != nil {
				dirty = true
			}
		}
	}
	if !dirty {
		return l
	}
	r := linConst(l.k)
	keep := &Lin{k: new(big.Int)}
	for _, t := range l.t {
		d := false
		for _, a := range x.monos[t.m].atoms {
			if x.atoms[a].sub != nil {
				d = true
			}
		}
		if !d {
			keep.t = append(keep.t, t)
			continue
		}
		pr := linConst(t.c)
		for _, a := range x.monos[t.m].atoms {
			at := x.atoms[a]
			if at.sub != nil {
				pr = x.mul(pr, at.sub)
			} else {
				pr = x.mul(pr, x.atomLin(at))
			}
		}
		r = linAdd(r, pr)
	}
	return x.norm(linAdd(r, keep))
}

func symMod(c, m *big.Int) *big.Int {
	r := new(big.Int).Mod(c, m)
	h := new(big.Int).Rsh(m, 1)
	if r.Cmp(h) > 0 {
		r.Sub(r, m)
	}
	return r
}

// split returns floor(l/M) and l mod M.
func (x *LinCtx) split(l *Lin, M *big.Int) (hi, lo *Lin) {
	l = x.expandRem(l, M)
	lb := &Lin{k: new(big.Int).Mod(l.k, M)}
	for _, t := range l.t {
		c := symMod(t.c, M)
		if c.Sign() != 0 {
			lb.t = append(lb.t, mterm{t.m, c})
		}
	}
	f := x.floor(lb, M)
	d := linSub(l, lb) // divisible by M
	q := &Lin{k: new(big.Int).Quo(d.k, M)}
	for _, t := range d.t {
		q.t = append(q.t, mterm{t.m, new(big.Int).Quo(t.c, M)})
	}
	hi = linAdd(q, f)
	lo = linSub(lb, linScale(f, M))
	if !f.isConst() && len(lo.t) > 1 {
		k := lo.key()
		if x.krange == nil {
			x.krange = map[string]*big.Int{}
		}
		m1 := new(big.Int).Sub(M, bigOne)
		if o, ok := x.krange[k]; !ok || m1.Cmp(o) < 0 {
			x.krange[k] = m1
		}
	}
	return
}

// wrange is rangeOf refined by the known range of remainders.
func (x *LinCtx) wrange(l *Lin) (*big.Int, *big.Int) {
	lo, hi := x.rangeOf(l)
	if len(l.t) > 1 && len(x.krange) > 0 {
		h, ok := x.krange[l.key()]
		if !ok {
			// a multiple of a known remainder, or one with a constant offset
			g := new(big.Int).Abs(l.t[0].c)
			for _, t := range l.t {
				g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
			}
			if g.Cmp(bigOne) > 0 && new(big.Int).Rem(l.k, g).Sign() == 0 {
				d := &Lin{k: new(big.Int).Quo(l.k, g)}
				for _, t := range l.t {
					d.t = append(d.t, mterm{t.m, new(big.Int).Quo(t.c, g)})
				}
				if h2, ok2 := x.krange[d.key()]; ok2 {
					h, ok = new(big.Int).Mul(h2, g), true
				}
			}
		}
		if ok {
			if lo.Sign() < 0 {
				lo = new(big.Int)
			}
			if h.Cmp(hi) < 0 {
				hi = h
			}
		}
	}
	return lo, hi
}

// floor returns floor(l/M) as a linear form; l is a canonical residue.
func (x *LinCtx) floor(l *Lin, M *big.Int) *Lin {
	a, b := x.wrange(l)
	fa, fb := floorDiv(a, M), floorDiv(b, M)
	if fa.Cmp(fb) == 0 {
		return linConst(fa)
	}
	// single two-valued atom: floor is an affine function of it
	if len(l.t) == 1 && len(x.monos[l.t[0].m].atoms) == 1 {
		at := x.atoms[x.monos[l.t[0].m].atoms[0]]
		if new(big.Int).Sub(at.hi, at.lo).Cmp(bigOne) == 0 {
			v0 := new(big.Int).Mul(l.t[0].c, at.lo)
			v0.Add(v0, l.k)
			v1 := new(big.Int).Mul(l.t[0].c, at.hi)
			v1.Add(v1, l.k)
			f0, f1 := floorDiv(v0, M), floorDiv(v1, M)
			s := new(big.Int).Sub(f1, f0)
			k := new(big.Int).Mul(s, at.lo)
			k.Sub(f0, k)
			return linAddK(linScale(x.atomLin(at), s), k)
		}
	}
	// common factor of all coefficients with M: floor((gA+r)/(gM')) = floor((A+floor(r/g))/M')
	g := new(big.Int).Set(M)
	for _, t := range l.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if g.Cmp(bigOne) > 0 {
		l2 := &Lin{k: floorDiv(l.k, g)}
		for _, t := range l.t {
			l2.t = append(l2.t, mterm{t.m, new(big.Int).Quo(t.c, g)})
		}
		M2 := new(big.Int).Quo(M, g)
		if M2.Cmp(bigOne) == 0 {
			return l2
		}
		h, _ := x.split(l2, M2)
		return h
	}
	// merge a nested floor: floor((floor(A/M1)+B)/M) = floor((A+M1*B)/(M1*M))
	if i := x.mergeable(l); i >= 0 && x.depth < 30 {
		x.depth++
		defer func() { x.depth-- }()
		fat := x.atoms[x.monos[l.t[i].m].atoms[0]]
		rest := &Lin{k: l.k}
		for j, t := range l.t {
			if j != i {
				rest.t = append(rest.t, t)
			}
		}
		n := linAdd(x.norm(fat.def), linScale(rest, fat.M))
		MM := new(big.Int).Mul(fat.M, M)
		h, _ := x.split(n, MM)
		return h
	}
	key := l.key() + "/" + M.Text(62)
	if id, ok := x.floors[key]; ok {
		at := x.atoms[id]
		if at.sub != nil {
			return x.norm(at.sub)
		}
		return x.atomLin(at)
	}
	at := x.newAtom("f", fa, fb)
	at.floor, at.def, at.M = true, l, M
	x.floors[key] = at.id
	x.emitAtom(at)
	// 0 <= l - M f <= M-1
	d := linSub(l, linScale(x.atomLin(at), M))
	x.assertGE0(d)
	x.assertGE0(linSub(linConst(new(big.Int).Sub(M, bigOne)), d))
	return x.atomLin(at)
}

func (x *LinCtx) mergeable(l *Lin) int {
	idx := -1
	for i, t := range l.t {
		at := x.monos[t.m].atoms
		anyFloor := false
		for _, a := range at {
			if x.atoms[a].floor {
				anyFloor = true
			}
		}
		if !anyFloor {
			continue
		}
		if len(at) != 1 || t.c.Cmp(bigOne) != 0 || idx >= 0 {
			return -1
		}
		idx = i
	}
	return idx
}

func (x *LinCtx) emitAtom(a *atom) {
	x.p.solSend(fmt.Sprintf("(declare-const %s %s)(assert (and (>= %s %s) (<= %s %s)))", a.name, x.p.numSort(), a.name, smtInt(a.lo), a.name, smtInt(a.hi)))
}

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

// emitMonos declares the product monomials created since the last emission.
func (x *LinCtx) emitMonos() {
	for ; x.emitted < len(x.monos); x.emitted++ {
		m := x.monos[x.emitted]
		if len(m.atoms) == 1 {
			continue
		}
		lo, hi := x.monoRange(x.emitted)
		x.p.solSend(fmt.Sprintf("(declare-const %s %s)(assert (and (>= %s %s) (<= %s %s)))", m.name, x.p.numSort(), m.name, smtInt(lo), m.name, smtInt(hi)))
		if len(m.atoms) == 2 {
			a, b := x.atoms[m.atoms[0]], x.atoms[m.atoms[1]]
			// McCormick
			x.mccormick(m.name, a, b)
		}
	}
}

func (x *LinCtx) mccormick(p string, a, b *atom) {
	w := func(k *big.Int, s string) string { return "(* " + smtInt(k) + " " + s + ")" }
	mm := func(u, v *big.Int) string { return smtInt(new(big.Int).Mul(u, v)) }
	s := x.p.solSend
	s(fmt.Sprintf("(assert (>= (+ (- %s %s %s) %s) 0))", p, w(b.lo, a.name), w(a.lo, b.name), mm(a.lo, b.lo)))
	s(fmt.Sprintf("(assert (>= (+ (- %s %s %s) %s) 0))", p, w(b.hi, a.name), w(a.hi, b.name), mm(a.hi, b.hi)))
	s(fmt.Sprintf("(assert (<= (+ (- %s %s %s) %s) 0))", p, w(b.hi, a.name), w(a.lo, b.name), mm(a.lo, b.hi)))
	s(fmt.Sprintf("(assert (<= (+ (- %s %s %s) %s) 0))", p, w(b.lo, a.name), w(a.hi, b.name), mm(a.hi, b.lo)))
}

func (x *LinCtx) smt(l *Lin) string {
	if len(l.t) == 0 {
		return smtInt(l.k)
	}
	var sb strings.Builder
	sb.WriteString("(+")
	for _, t := range l.t {
		if t.c.Cmp(bigOne) == 0 {
			sb.WriteString(" " + x.monos[t.m].name)
		} else {
			sb.WriteString(" (* " + smtInt(t.c) + " " + x.monos[t.m].name + ")")
		}
	}
	sb.WriteString(" " + smtInt(l.k) + ")")
	return sb.String()
}

func (x *LinCtx) assertGE0(l *Lin) {
	if lo, _ := x.rangeOf(l); lo.Sign() >= 0 && l.isConst() {
		return
	}
	x.emitMonos()
	x.p.solSend("(assert (>= " + x.smt(l) + " 0))")
}

// opaque introduces an unconstrained value (over-approximation).
func (x *LinCtx) opaque(keyS string, lo, hi *big.Int) *Lin {
	if id, ok := x.opq[keyS]; ok {
		at := x.atoms[id]
		if at.sub != nil {
			return x.norm(at.sub)
		}
		return x.atomLin(at)
	}
	at := x.newAtom("o", lo, hi)
	x.opq[keyS] = at.id
	x.emitAtom(at)
	return x.atomLin(at)
}

// ---------------------------------------------------------------- lowering

func (x *LinCtx) lower(t *Term) *Lin {
	if t.op == OConst {
		if t.sort == SInt {
			return linConst(t.k)
		}
		return linConst(new(big.Int).SetUint64(t.u))
	}
	if t.low != nil {
		if t.low.gen != x.gen {
			t.low = &lowered{x.norm(t.low.lin), x.gen}
		}
		return t.low.lin
	}
	l := x.lower1(t)
	l = x.norm(l)
	t.low = &lowered{l, x.gen}
	return l
}

func (x *LinCtx) wrap(l *Lin, w int) *Lin {
	lo, hi := x.wrange(l)
	if lo.Sign() >= 0 && hi.BitLen() <= w {
		return x.norm(l)
	}
	_, r := x.split(l, pow2(w))
	return r
}

func (x *LinCtx) signed(t *Term) *Lin {
	l := x.lower(t)
	h, _ := x.split(l, pow2(t.w-1))
	return linSub(l, linScale(h, pow2(t.w)))
}

func trailingZeros(l *Lin) int {
	n := -1
	upd := func(c *big.Int) {
		if c.Sign() == 0 {
			return
		}
		z := int(c.TrailingZeroBits())
		if n < 0 || z < n {
			n = z
		}
	}
	upd(l.k)
	for _, t := range l.t {
		upd(t.c)
	}
	if n < 0 {
		return 1 << 20
	}
	return n
}

func (x *LinCtx) binMask(l *Lin, w int) (*Lin, bool) {
	// (2^w-1)*b with b binary, or (2^w-1)*(1-b)
	if len(l.t) != 1 || len(x.monos[l.t[0].m].atoms) != 1 {
		return nil, false
	}
	a := x.atoms[x.monos[l.t[0].m].atoms[0]]
	if !x.isBin(a) {
		return nil, false
	}
	full := new(big.Int).SetUint64(mask(w))
	if l.t[0].c.Cmp(full) == 0 && l.k.Sign() == 0 {
		return x.atomLin(a), true
	}
	if new(big.Int).Neg(l.t[0].c).Cmp(full) == 0 && l.k.Cmp(full) == 0 {
		return linSub(linInt(1), x.atomLin(a)), true
	}
	return nil, false
}

// negBit recognizes -c and c-1 for a carry c: all ones or zero.
func (x *LinCtx) negBit(t *Term) (*Lin, bool) {
	bit := func(t *Term) bool { return maybeOnes(t) <= 1 && !t.isConst() }
	if t.op == OSub && t.args[0].isConst() && t.args[0].u == 0 && bit(t.args[1]) {
		return x.lower(t.args[1]), true
	}
	if t.op == OSub && t.args[1].isConst() && t.args[1].u == 1 && bit(t.args[0]) {
		return linSub(linInt(1), x.lower(t.args[0])), true
	}
	if t.op == OAdd {
		for i, a := range t.args {
			if a.isConst() && a.u == mask(t.w) && bit(t.args[1-i]) {
				return linSub(linInt(1), x.lower(t.args[1-i])), true
			}
		}
	}
	return nil, false
}

func (x *LinCtx) lower1(t *Term) *Lin {
	switch t.op {
	case OVar:
		lo, hi := t.lo, t.hi
		if lo == nil {
			lo, hi = new(big.Int), new(big.Int).SetUint64(mask(t.w))
		}
		a := x.newAtom(t.name, lo, hi)
		a.input = true
		x.emitAtom(a)
		return x.atomLin(a)
	case OAdd:
		return x.wrap(linAdd(x.lower(t.args[0]), x.lower(t.args[1])), t.w)
	case OSub:
		return x.wrap(linSub(x.lower(t.args[0]), x.lower(t.args[1])), t.w)
	case OMul:
		return x.wrap(x.mul(x.lower(t.args[0]), x.lower(t.args[1])), t.w)
	case ONot:
		return linSub(linConst(new(big.Int).SetUint64(mask(t.w))), x.lower(t.args[0]))
	case OMulHi:
		h, _ := x.split(x.mul(x.lower(t.args[0]), x.lower(t.args[1])), pow2(64))
		return h
	case OCarry:
		h, _ := x.split(linAdd(linAdd(x.lower(t.args[0]), x.lower(t.args[1])), x.lower(t.args[2])), pow2(64))
		return h
	case OBorrow:
		h, _ := x.split(linSub(linSub(x.lower(t.args[0]), x.lower(t.args[1])), x.lower(t.args[2])), pow2(64))
		return linScale(h, bigMinus)
	case OZExt, OB2I:
		return x.lower(t.args[0])
	case OS2I:
		return x.signed(t.args[0])
	case OSExt:
		l := x.lower(t.args[0])
		h, _ := x.split(l, pow2(t.args[0].w-1))
		d := new(big.Int).Sub(pow2(t.w), pow2(t.args[0].w))
		return linAdd(l, linScale(h, d))
	case OTrunc:
		return x.wrap(x.lower(t.args[0]), t.w)
	case OI2B:
		l := x.lower(t.args[0])
		if lo, hi := x.wrange(l); lo.Sign() < 0 || hi.BitLen() > t.w {
			l = x.named(l)
		}
		return x.wrap(l, t.w)
	case OShl:
		if t.args[1].isConst() {
			return x.wrap(linScale(x.lower(t.args[0]), pow2(int(t.args[1].u))), t.w)
		}
		n := x.p.concretize(t.args[1])
		if n >= uint64(t.w) {
			return linInt(0)
		}
		return x.wrap(linScale(x.lower(t.args[0]), pow2(int(n))), t.w)
	case OLshr:
		var n uint64
		if t.args[1].isConst() {
			n = t.args[1].u
		} else {
			n = x.p.concretize(t.args[1])
		}
		if n >= uint64(t.w) {
			return linInt(0)
		}
		h, _ := x.split(x.lower(t.args[0]), pow2(int(n)))
		return h
	case OAshr:
		var n uint64
		if t.args[1].isConst() {
			n = t.args[1].u
		} else {
			n = x.p.concretize(t.args[1])
		}
		if n >= uint64(t.w) {
			n = uint64(t.w - 1)
		}
		h, _ := x.split(x.signed(t.args[0]), pow2(int(n)))
		return x.wrap(h, t.w)
	case OUDiv, OURem:
		if !t.args[1].isConst() {
			return x.opaque(fmt.Sprintf("t%d", t.id), new(big.Int), new(big.Int).SetUint64(mask(t.w)))
		}
		h, l := x.split(x.lower(t.args[0]), new(big.Int).SetUint64(t.args[1].u))
		if t.op == OUDiv {
			return h
		}
		return l
	case OSDiv, OSRem:
		if !t.args[1].isConst() || sx(t.args[1].u, t.w) <= 0 {
			return x.opaque(fmt.Sprintf("t%d", t.id), new(big.Int), new(big.Int).SetUint64(mask(t.w)))
		}
		s := x.signed(t.args[0])
		lo, _ := x.rangeOf(s)
		m := new(big.Int).SetUint64(t.args[1].u)
		if lo.Sign() < 0 {
			if !x.p.branch(x.p.c.op(OSle, SBool, 0, x.p.c.bv(t.w, 0), t.args[0])) {
				h, l := x.split(linScale(s, bigMinus), m)
				if t.op == OSRem {
					h = l
				}
				return x.wrap(linScale(h, bigMinus), t.w)
			}
		}
		h, l := x.split(x.signed(t.args[0]), m)
		if t.op == OSRem {
			h = l
		}
		return x.wrap(h, t.w)
	case OAnd:
		a, b := x.lower(t.args[0]), x.lower(t.args[1])
		if m, ok := x.negBit(t.args[0]); ok {
			return x.mul(m, b)
		}
		if m, ok := x.negBit(t.args[1]); ok {
			return x.mul(m, a)
		}
		if m, ok := x.binMask(a, t.w); ok {
			return x.mul(m, b)
		}
		if m, ok := x.binMask(b, t.w); ok {
			return x.mul(m, a)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			return x.andMask(a, b.k.Uint64())
		}
		// both binary: product
		if _, h := x.rangeOf(a); h.Cmp(bigOne) <= 0 {
			if _, h := x.rangeOf(b); h.Cmp(bigOne) <= 0 {
				return x.mul(a, b)
			}
			_, l := x.split(b, big.NewInt(2))
			return x.mul(a, l)
		}
		if _, h := x.rangeOf(b); h.Cmp(bigOne) <= 0 {
			_, l := x.split(a, big.NewInt(2))
			return x.mul(b, l)
		}
		return x.bitwise(t, a, b)
	case OOr:
		a, b := x.lower(t.args[0]), x.lower(t.args[1])
		if x.disjoint(a, b) || maybeOnes(t.args[0])&maybeOnes(t.args[1]) == 0 {
			return linAdd(a, b)
		}
		if b.isConst() {
			return linAdd(linSub(a, x.andMask(a, b.k.Uint64())), b)
		}
		if a.isConst() {
			return linAdd(linSub(b, x.andMask(b, a.k.Uint64())), a)
		}
		if _, ok := x.binMask(b, t.w); ok {
			a, b = b, a
		}
		if m, ok := x.binMask(a, t.w); ok {
			// a all ones or zero
			return linAdd(a, x.mul(linSub(linInt(1), m), b))
		}
		if x.binary(a) && x.binary(b) {
			return linSub(linAdd(a, b), x.mul(a, b))
		}
		return x.bitwise(t, a, b)
	case OXor:
		a, b := x.lower(t.args[0]), x.lower(t.args[1])
		if x.binary(a) && x.binary(b) {
			return linSub(linAdd(a, b), linScale(x.mul(a, b), big.NewInt(2)))
		}
		if x.disjoint(a, b) || maybeOnes(t.args[0])&maybeOnes(t.args[1]) == 0 {
			return linAdd(a, b)
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			// a ^ c = a + c - 2*(a&c)
			return linSub(linAdd(a, b), linScale(x.andMask(a, b.k.Uint64()), big.NewInt(2)))
		}
		if m, ok := x.binMask(a, t.w); ok {
			full := linConst(new(big.Int).SetUint64(mask(t.w)))
			// m ? ~b : b
			return linAdd(b, x.mul(m, linSub(full, linScale(b, big.NewInt(2)))))
		}
		if m, ok := x.binMask(b, t.w); ok {
			full := linConst(new(big.Int).SetUint64(mask(t.w)))
			return linAdd(a, x.mul(m, linSub(full, linScale(a, big.NewInt(2)))))
		}
		return x.bitwise(t, a, b)
	case OIte:
		if x.p.branch(t.args[0]) {
			return x.lower(t.args[1])
		}
		return x.lower(t.args[2])
	case OIAdd:
		return linAdd(x.lower(t.args[0]), x.lower(t.args[1]))
	case OISub:
		return linSub(x.lower(t.args[0]), x.lower(t.args[1]))
	case OIMul:
		return x.mul(x.lower(t.args[0]), x.lower(t.args[1]))
	case OIDiv, OIMod:
		if !t.args[1].isConst() {
			unsup("integer division by a symbolic value")
		}
		l := x.lower(t.args[0])
		if isPow2(t.args[1].k) {
			l = x.named(l)
		}
		if t.op == OIMod {
			return x.remainder(l, t.args[1].k)
		}
		h, _ := x.split(l, t.args[1].k)
		return h
	}
	unsup("int lowering of %s", opNames[t.op])
	return nil
}

func (x *LinCtx) binary(l *Lin) bool {
	lo, hi := x.rangeOf(l)
	return lo.Sign() >= 0 && hi.Cmp(bigOne) <= 0
}

func (x *LinCtx) disjoint(a, b *Lin) bool {
	_, ha := x.wrange(a)
	_, hb := x.wrange(b)
	return trailingZeros(a) >= hb.BitLen() || trailingZeros(b) >= ha.BitLen()
}

// maybeOnes is the set of bits of a word that can be one.
func maybeOnes(t *Term) uint64 {
	return maybeOnesD(t, 24)
}

func maybeOnesD(t *Term, d int) uint64 {
	m := mask(t.w)
	if t.op == OConst {
		return t.u
	}
	if d == 0 || t.sort != SBV {
		return m
	}
	fill := func(v uint64) uint64 { // all bits up to the highest one
		return (uint64(1) << uint(bits.Len64(v))) - 1
	}
	switch t.op {
	case OZExt:
		return maybeOnesD(t.args[0], d-1)
	case OTrunc:
		return maybeOnesD(t.args[0], d-1) & m
	case OOr, OXor:
		return maybeOnesD(t.args[0], d-1) | maybeOnesD(t.args[1], d-1)
	case OAnd:
		return maybeOnesD(t.args[0], d-1) & maybeOnesD(t.args[1], d-1)
	case OShl:
		if t.args[1].isConst() && t.args[1].u < 64 {
			return maybeOnesD(t.args[0], d-1) << t.args[1].u & m
		}
	case OLshr:
		if t.args[1].isConst() && t.args[1].u < 64 {
			return maybeOnesD(t.args[0], d-1) >> t.args[1].u
		}
	case OIte:
		return maybeOnesD(t.args[1], d-1) | maybeOnesD(t.args[2], d-1)
	case OCarry, OBorrow:
		return 1
	case OUDiv:
		return fill(maybeOnesD(t.args[0], d-1))
	}
	return m
}

// andMask computes a & c for a constant mask as a sum of contiguous segments.
func (x *LinCtx) andMask(a *Lin, c uint64) *Lin {
	r := linInt(0)
	for i := 0; i < 64; {
		if c>>uint(i)&1 == 0 {
			i++
			continue
		}
		j := i
		for j < 64 && c>>uint(j)&1 == 1 {
			j++
		}
		// bits i..j-1
		_, lo := x.split(a, pow2(j))
		h, _ := x.split(lo, pow2(i))
		r = linAdd(r, linScale(h, pow2(i)))
		i = j
	}
	return r
}

// bitwise: decompose into bits when narrow, otherwise opaque bounds.
func (x *LinCtx) bitwise(t *Term, a, b *Lin) *Lin {
	_, ha := x.rangeOf(a)
	_, hb := x.rangeOf(b)
	n := ha.BitLen()
	if hb.BitLen() > n {
		n = hb.BitLen()
	}
	if n <= 8 {
		r := linInt(0)
		for i := 0; i < n; i++ {
			bit := func(l *Lin) *Lin {
				_, lo := x.split(l, pow2(i+1))
				h, _ := x.split(lo, pow2(i))
				return h
			}
			p, q := bit(a), bit(b)
			pq := x.mul(p, q)
			var v *Lin
			switch t.op {
			case OAnd:
				v = pq
			case OOr:
				v = linSub(linAdd(p, q), pq)
			default:
				v = linSub(linAdd(p, q), linScale(pq, big.NewInt(2)))
			}
			r = linAdd(r, linScale(v, pow2(i)))
		}
		return r
	}
	hi := new(big.Int).Sub(pow2(n), bigOne)
	o := x.opaque(fmt.Sprintf("%s|%s|%s", opNames[t.op], a.key(), b.key()), new(big.Int), hi)
	switch t.op {
	case OAnd:
		x.assertGE0(linSub(a, o))
		x.assertGE0(linSub(b, o))
		x.assertGE0(linAddK(linSub(linAdd(o, linConst(hi)), linAdd(a, b)), new(big.Int)))
	case OOr:
		x.assertGE0(linSub(o, a))
		x.assertGE0(linSub(o, b))
		x.assertGE0(linSub(linAdd(a, b), o))
	default:
		x.assertGE0(linSub(linAdd(a, b), o))
	}
	return o
}

// ---------------------------------------------------------------- formulas

type fkind uint8

const (
	fTrue fkind = iota
	fFalse
	fLE // lin <= 0
	fEQ // lin == 0
	fNE
	fAnd
	fOr
)

type Form struct {
	k    fkind
	l    *Lin
	args []*Form
}

var formT, formF = &Form{k: fTrue}, &Form{k: fFalse}

func (x *LinCtx) mkLE(l *Lin) *Form {
	l = x.norm(l)
	lo, hi := x.wrange(l)
	if hi.Sign() <= 0 {
		return formT
	}
	if lo.Sign() > 0 {
		return formF
	}
	return &Form{k: fLE, l: l}
}
func (x *LinCtx) mkEQ(l *Lin) *Form {
	l = x.norm(l)
	lo, hi := x.wrange(l)
	if lo.Sign() == 0 && hi.Sign() == 0 {
		return formT
	}
	if lo.Sign() > 0 || hi.Sign() < 0 {
		return formF
	}
	// divide by the gcd of the coefficients
	g := new(big.Int)
	for _, t := range l.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
	}
	if g.Cmp(bigOne) > 0 {
		if new(big.Int).Mod(l.k, g).Sign() != 0 {
			return formF
		}
		l2 := &Lin{k: new(big.Int).Quo(l.k, g)}
		for _, t := range l.t {
			l2.t = append(l2.t, mterm{t.m, new(big.Int).Quo(t.c, g)})
		}
		l = l2
	}
	if r := x.unitEQ(l); r != nil {
		return x.mkEQ(r)
	}
	return &Form{k: fEQ, l: l}
}

// unitEQ solves (c*a + k) mod M + d = 0 for a when c is a unit modulo M and a is in [0, M).
func (x *LinCtx) unitEQ(l *Lin) *Lin {
	if len(l.t) != 2 {
		return nil
	}
	for i := 0; i < 2; i++ {
		fm, am := x.monos[l.t[i].m], x.monos[l.t[1-i].m]
		if len(fm.atoms) != 1 || len(am.atoms) != 1 {
			continue
		}
		f, a := x.atoms[fm.atoms[0]], x.atoms[am.atoms[0]]
		if !f.floor || f.sub != nil || f.def == nil || l.t[i].c.CmpAbs(f.M) != 0 || a.lo.Sign() < 0 || a.hi.Cmp(f.M) >= 0 {
			continue
		}
		n := l
		if l.t[i].c.Sign() > 0 {
			n = linScale(l, bigMinus)
		}
		d := x.norm(f.def)
		if len(d.t) != 1 || d.t[0].m != l.t[1-i].m || d.t[0].c.Cmp(n.t[1-i].c) != 0 {
			continue
		}
		inv := new(big.Int).ModInverse(new(big.Int).Mod(d.t[0].c, f.M), f.M)
		if inv == nil {
			continue
		}
		// n = d - M*f + (n.k - d.k), and d - M*f is d mod M
		rem := new(big.Int).Sub(d.k, n.k)
		if rem.Sign() < 0 || rem.Cmp(f.M) >= 0 {
			return linConst(bigOne)
		}
		v := new(big.Int).Sub(rem, d.k)
		v.Mod(v.Mul(v, inv), f.M)
		return linSub(x.atomLin(a), linConst(v))
	}
	return nil
}

func formNot(x *LinCtx, f *Form) *Form {
	switch f.k {
	case fTrue:
		return formF
	case fFalse:
		return formT
	case fLE:
		return x.mkLE(linAddK(linScale(f.l, bigMinus), bigOne))
	case fEQ:
		return &Form{k: fNE, l: f.l}
	case fNE:
		return &Form{k: fEQ, l: f.l}
	}
	r := &Form{}
	for _, a := range f.args {
		r.args = append(r.args, formNot(x, a))
	}
	if f.k == fAnd {
		return mkOr(r.args)
	}
	return mkAnd(r.args)
}

func mkAnd(a []*Form) *Form {
	var out []*Form
	for _, f := range a {
		switch f.k {
		case fFalse:
			return formF
		case fTrue:
		case fAnd:
			out = append(out, f.args...)
		default:
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		return formT
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Form{k: fAnd, args: out}
}
func mkOr(a []*Form) *Form {
	var out []*Form
	for _, f := range a {
		switch f.k {
		case fTrue:
			return formT
		case fFalse:
		case fOr:
			out = append(out, f.args...)
		default:
			out = append(out, f)
		}
	}
	if len(out) == 0 {
		return formF
	}
	if len(out) == 1 {
		return out[0]
	}
	return &Form{k: fOr, args: out}
}

func (x *LinCtx) orLeaves(t *Term, out []*Term) []*Term {
	if t.op == OOr {
		return x.orLeaves(t.args[1], x.orLeaves(t.args[0], out))
	}
	return append(out, t)
}

func (x *LinCtx) form(t *Term) *Form {
	switch t.op {
	case OConst:
		if t.u != 0 {
			return formT
		}
		return formF
	case OVar: // boolean input
		return x.mkEQ(linAddK(x.lower(t), bigMinus))
	case OBNot:
		return formNot(x, x.form(t.args[0]))
	case OBAnd:
		return mkAnd([]*Form{x.form(t.args[0]), x.form(t.args[1])})
	case OBOr:
		return mkOr([]*Form{x.form(t.args[0]), x.form(t.args[1])})
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.sort == SBool {
			fa, fb := x.form(a), x.form(b)
			return mkOr([]*Form{mkAnd([]*Form{fa, fb}), mkAnd([]*Form{formNot(x, fa), formNot(x, fb)})})
		}
		if b.isConst() && b.sort == SBV && b.u == 0 && a.op == OOr && maybeOnes(a.args[0])&maybeOnes(a.args[1]) != 0 {
			var fs []*Form
			for _, l := range x.orLeaves(a, nil) {
				fs = append(fs, x.form(x.p.c.op(OEq, SBool, 0, l, b)))
			}
			return mkAnd(fs)
		}
		if b.isConst() && b.sort == SBV && b.u == 0 && a.op == OXor {
			return x.mkEQ(linSub(x.lower(a.args[0]), x.lower(a.args[1])))
		}
		// congruences
		if a.op == OIMod || b.op == OIMod {
			if b.op == OIMod && a.op != OIMod {
				a, b = b, a
			}
			if a.args[1].isConst() {
				m := a.args[1].k
				if b.op == OIMod && b.args[1].isConst() && b.args[1].k.Cmp(m) == 0 {
					return x.congr(linSub(x.lower(a.args[0]), x.lower(b.args[0])), m)
				}
				lb := x.lower(b)
				if lo, hi := x.rangeOf(lb); lo.Sign() >= 0 && hi.Cmp(m) < 0 {
					return x.congr(linSub(x.lower(a.args[0]), lb), m)
				}
			}
		}
		return x.mkEQ(linSub(x.lower(a), x.lower(b)))
	case OUlt:
		return x.mkLE(linAddK(linSub(x.lower(t.args[0]), x.lower(t.args[1])), bigOne))
	case OUle, OILe:
		return x.mkLE(linSub(x.lower(t.args[0]), x.lower(t.args[1])))
	case OSlt:
		return x.mkLE(linAddK(linSub(x.signed(t.args[0]), x.signed(t.args[1])), bigOne))
	case OSle:
		return x.mkLE(linSub(x.signed(t.args[0]), x.signed(t.args[1])))
	case OIte:
		f := x.form(t.args[0])
		return mkOr([]*Form{mkAnd([]*Form{f, x.form(t.args[1])}), mkAnd([]*Form{formNot(x, f), x.form(t.args[2])})})
	}
	unsup("form of %s", opNames[t.op])
	return nil
}

// remainder returns l mod M. For a modulus that is not a power of two the
// remainder gets an atom of its own (with l = M*q + r as a side condition), so
// that later splits into words see a plain value.
func (x *LinCtx) remainder(l *Lin, M *big.Int) *Lin {
	if lo, hi := x.wrange(l); lo.Sign() >= 0 && hi.Cmp(M) < 0 {
		return l
	}
	h, lo := x.split(l, M)
	if isPow2(M) || h.isConst() || lo.isConst() {
		return lo
	}
	key := "r" + lo.key() + "/" + M.Text(62)
	if id, ok := x.opq[key]; ok {
		at := x.atoms[id]
		if at.sub != nil {
			return x.norm(at.sub)
		}
		return x.atomLin(at)
	}
	at := x.newAtom("r", new(big.Int), new(big.Int).Sub(M, bigOne))
	x.opq[key] = at.id
	at.rem, at.def, at.M = true, lo, M
	x.addModulus(M)
	x.emitAtom(at)
	d := linSub(lo, x.atomLin(at))
	x.emitMonos()
	x.p.solSend("(assert (= " + x.smt(d) + " 0))")
	return x.atomLin(at)
}

func isPow2(m *big.Int) bool { return m.TrailingZeroBits() == uint(m.BitLen()-1) }

// named gives a compound value an atom of its own before it is split into words.
func (x *LinCtx) named(l *Lin) *Lin {
	l = x.norm(l)
	if l.isConst() || len(l.t) == 1 && l.k.Sign() == 0 && l.t[0].c.Cmp(bigOne) == 0 && len(x.monos[l.t[0].m].atoms) == 1 {
		return l
	}
	key := "n" + l.key()
	if id, ok := x.opq[key]; ok {
		at := x.atoms[id]
		if at.sub != nil {
			return x.norm(at.sub)
		}
		return x.atomLin(at)
	}
	x.emitMonos()
	lo, hi := x.wrange(l)
	if e := x.smt(l); lo.Sign() < 0 || hi.BitLen() > 64 {
		if lo.Sign() < 0 {
			if x.p.solUnsat("(< " + e + " 0)") {
				lo = new(big.Int)
			} else {
				a, b := 0, lo.BitLen()
				for a < b {
					m := (a + b) / 2
					if x.p.solUnsat("(< " + e + " " + smtInt(new(big.Int).Neg(pow2(m))) + ")") {
						b = m
					} else {
						a = m + 1
					}
				}
				if n := new(big.Int).Neg(pow2(b)); n.Cmp(lo) > 0 {
					lo = n
				}
			}
		}
		if hi.Sign() > 0 {
			a, b := 0, hi.BitLen()
			for a < b {
				m := (a + b) / 2
				if x.p.solUnsat("(>= " + e + " " + smtInt(pow2(m)) + ")") {
					b = m
				} else {
					a = m + 1
				}
			}
			if n := new(big.Int).Sub(pow2(b), bigOne); n.Cmp(hi) < 0 {
				hi = n
			}
		}
		if lo.Cmp(hi) > 0 {
			panic(pathAbort{"infeasible"})
		}
	}
	if lo.Cmp(hi) == 0 {
		x.learnEQ(linSub(l, linConst(lo)))
		return linConst(lo)
	}
	at := x.newAtom("v", lo, hi)
	x.opq[key] = at.id
	at.rem, at.def, at.M = true, l, new(big.Int)
	x.emitAtom(at)
	x.p.solSend("(assert (= " + x.smt(linSub(l, x.atomLin(at))) + " 0))")
	return x.atomLin(at)
}

// expandRem replaces remainders modulo a multiple of m by their definitions.
func (x *LinCtx) expandRem(l *Lin, m *big.Int) *Lin {
	if isPow2(m) {
		return x.norm(l)
	}
	for {
		l = x.norm(l)
		again := false
		for _, t := range l.t {
			for _, a := range x.monos[t.m].atoms {
				at := x.atoms[a]
				if at.rem && at.sub == nil && new(big.Int).Rem(at.M, m).Sign() == 0 {
					again = true
				}
			}
		}
		if !again {
			return l
		}
		r := linConst(l.k)
		for _, t := range l.t {
			pr := linConst(t.c)
			for _, a := range x.monos[t.m].atoms {
				at := x.atoms[a]
				if at.rem && at.sub == nil && new(big.Int).Rem(at.M, m).Sign() == 0 {
					pr = x.mul(pr, at.def)
				} else {
					pr = x.mul(pr, x.atomLin(at))
				}
			}
			r = linAdd(r, pr)
		}
		l = r
	}
}

type pivot struct {
	e *Lin
	m int
}

// reduceMod eliminates with the known equalities, which hold modulo m as well (Gaussian elimination, newest monomials first).
func (x *LinCtx) reduceMod(l *Lin, m *big.Int) (r *Lin) {
	modl := func(l *Lin) *Lin {
		r := &Lin{k: new(big.Int).Mod(l.k, m)}
		for _, t := range l.t {
			if c := new(big.Int).Mod(t.c, m); c.Sign() != 0 {
				r.t = append(r.t, mterm{t.m, c})
			}
		}
		return r
	}
	coef := func(l *Lin, mo int) *big.Int {
		i := sort.Search(len(l.t), func(i int) bool { return l.t[i].m >= mo })
		if i < len(l.t) && l.t[i].m == mo {
			return l.t[i].c
		}
		return nil
	}
	elim := func(l *Lin, p *pivot) *Lin {
		if c := coef(l, p.m); c != nil {
			if r := new(big.Int).Mod(c, m); r.Sign() != 0 {
				l = addScaled(l, p.e, r.Neg(r))
			}
		}
		return l
	}
	var pv []*pivot
	n0 := len(x.monos)
	l = modl(l)
	eqs := make([]*Lin, 0, len(x.eqs))
	for _, e := range x.eqs {
		if e = modl(x.expandRem(e, m)); len(e.t) > 0 {
			eqs = append(eqs, e)
		}
	}
	eqs = x.multiples(l, eqs, modl)
	defer func() {
		// monomials which cancelled need not be known to the solver
		for _, t := range r.t {
			if t.m >= n0 {
				return
			}
		}
		for k, i := range x.monoIdx {
			if i >= n0 {
				delete(x.monoIdx, k)
			}
		}
		x.monos = x.monos[:n0]
	}()
	for _, e := range eqs {
		for _, p := range pv {
			e = modl(elim(e, p))
		}
		for i := len(e.t) - 1; i >= 0; i-- {
			if inv := new(big.Int).ModInverse(e.t[i].c, m); inv != nil {
				n := &pivot{modl(linScale(e, inv)), e.t[i].m}
				for _, p := range pv {
					p.e = modl(elim(p.e, n))
				}
				pv = append(pv, n)
				break
			}
		}
	}
	for _, p := range pv {
		l = elim(l, p)
	}
	return l
}

// multiples adds to the equations their products with monomials that can help to
// eliminate the nonlinear monomials of l (up to the degree of l).
func (x *LinCtx) multiples(l *Lin, eqs []*Lin, modl func(*Lin) *Lin) []*Lin {
	deg := 0
	var work []int
	seen := map[int]bool{}
	see := func(l *Lin) {
		for _, t := range l.t {
			if !seen[t.m] && len(x.monos[t.m].atoms) > 1 {
				seen[t.m] = true
				work = append(work, t.m)
			}
		}
	}
	for _, t := range l.t {
		deg = max(deg, len(x.monos[t.m].atoms))
	}
	if deg < 2 {
		return eqs
	}
	see(l)
	type key struct {
		e int
		u string
	}
	done := map[key]bool{}
	n := len(eqs)
	out := eqs
	for len(work) > 0 && len(out) < n+600 {
		mo := x.monos[work[0]].atoms
		work = work[1:]
		for i := 0; i < n; i++ {
			e := eqs[i]
			d := 0
			for _, t := range e.t {
				d = max(d, len(x.monos[t.m].atoms))
			}
			for _, t := range e.t {
				u, ok := quotient(mo, x.monos[t.m].atoms)
				if !ok || len(u) == 0 || len(u)+d > deg {
					continue
				}
				k := key{i, fmt.Sprint(u)}
				if done[k] {
					continue
				}
				done[k] = true
				p := modl(x.mul(e, &Lin{t: []mterm{{x.mono(u), bigOne}}, k: new(big.Int)}))
				out = append(out[:len(out):len(out)], p)
				see(p)
			}
		}
	}
	return out
}

// quotient of monomials, given as sorted multisets of atoms.
func quotient(a, b []int) ([]int, bool) {
	var u []int
	for _, t := range a {
		if len(b) > 0 && b[0] == t {
			b = b[1:]
		} else {
			u = append(u, t)
		}
	}
	return u, len(b) == 0
}

func (x *LinCtx) congr(l *Lin, m *big.Int) *Form {
	// eliminate with the known equalities, modulo m
	l = x.expandRem(l, m)
	l = x.reduceMod(l, m)
	if os.Getenv("VSYM_CONGR") != "" {
		fmt.Fprintln(os.Stderr, "CONGR", len(x.eqs), clip(x.smt(l)))
		for _, e := range x.eqs {
			fmt.Fprintln(os.Stderr, "   eq", x.smt(e))
		}
	}
	_, lo := x.split(l, m)
	return x.mkEQ(lo)
}

func (x *LinCtx) smtForm(f *Form) string {
	switch f.k {
	case fTrue:
		return "true"
	case fFalse:
		return "false"
	case fLE:
		return "(<= " + x.smt(f.l) + " 0)"
	case fEQ:
		return "(= " + x.smt(f.l) + " 0)"
	case fNE:
		return "(or (<= (+ 1 " + x.smt(f.l) + ") 0) (>= (- " + x.smt(f.l) + " 1) 0))"
	}
	s := "(and"
	if f.k == fOr {
		s = "(or"
	}
	for _, a := range f.args {
		s += " " + x.smtForm(a)
	}
	return s + ")"
}

// assume adds a formula to the path: emits it and extracts substitutions.
func (x *LinCtx) assume(f *Form) {
	x.emitMonos()
	if f.k == fTrue {
		return
	}
	x.p.solSend("(assert " + x.smtForm(f) + ")")
	x.learn(f)
}

func (x *LinCtx) learn(f *Form) {
	if os.Getenv("VSYM_LEARN") != "" {
		fmt.Fprintln(os.Stderr, "LEARN", clip(x.smtForm(f)))
	}
	switch f.k {
	case fAnd:
		for _, a := range f.args {
			x.learn(a)
		}
	case fLE:
		l := x.norm(f.l)
		if len(l.t) == 1 && len(x.monos[l.t[0].m].atoms) == 1 {
			x.refine(l, true)
		}
		if len(l.t) > 1 {
			x.facts = append(x.facts, linScale(l, bigMinus))
		}
	case fEQ:
		x.learnEQ(x.norm(f.l))
	case fNE:
		l := x.norm(f.l)
		if len(l.t) == 1 && len(x.monos[l.t[0].m].atoms) == 1 {
			a := x.atoms[x.monos[l.t[0].m].atoms[0]]
			// excluded value
			q, r := new(big.Int).QuoRem(new(big.Int).Neg(l.k), l.t[0].c, new(big.Int))
			if r.Sign() == 0 {
				if q.Cmp(a.lo) == 0 {
					a.lo = new(big.Int).Add(a.lo, bigOne)
					x.ranged(a)
				} else if q.Cmp(a.hi) == 0 {
					a.hi = new(big.Int).Sub(a.hi, bigOne)
					x.ranged(a)
				}
			}
		}
	}
}

func (x *LinCtx) refine(l *Lin, _ bool) {
	// c*a + k <= 0
	a := x.atoms[x.monos[l.t[0].m].atoms[0]]
	c := l.t[0].c
	if c.Sign() > 0 {
		// a <= floor(-k/c)
		b := floorDiv(new(big.Int).Neg(l.k), c)
		if b.Cmp(a.hi) < 0 {
			a.hi = b
			x.ranged(a)
		}
	} else {
		// a >= ceil(k/-c)
		n := new(big.Int).Neg(c)
		b := floorDiv(new(big.Int).Sub(new(big.Int).Add(l.k, n), bigOne), n)
		if b.Cmp(a.lo) > 0 {
			a.lo = b
			x.ranged(a)
		}
	}
}

// ranged is called when the range of an atom shrank.
func (x *LinCtx) ranged(a *atom) {
	if a.lo.Cmp(a.hi) > 0 {
		panic(pathAbort{"infeasible"})
	}
	if a.lo.Cmp(a.hi) == 0 {
		x.substitute(a, linConst(a.lo))
	} else {
		x.rekey()
	}
}

func (x *LinCtx) mentions(l *Lin, id int) bool {
	for _, t := range l.t {
		for _, a := range x.monos[t.m].atoms {
			if a == id {
				return true
			}
		}
	}
	return false
}

func (x *LinCtx) learnEQ(l *Lin) {
	n := x.nsub
	x.learnEQ1(l)
	if n == x.nsub || len(x.mods) == 0 {
		return
	}
	// the substitution may have made an earlier equation decisive
	for i := 0; i < len(x.eqs); i++ {
		if x.modSolve(x.norm(x.eqs[i])) {
			i = -1
		}
	}
}

func (x *LinCtx) learnEQ1(l *Lin) {
	l = x.norm(l)
	if l.isConst() {
		if l.k.Sign() != 0 {
			panic(pathAbort{"infeasible"})
		}
		return
	}
	if x.modSolve(l) {
		x.learnEQ1(l)
		return
	}
	// pick the newest atom with a unit coefficient that occurs only linearly
	best := -1
	for i, t := range l.t {
		at := x.monos[t.m].atoms
		if len(at) != 1 || t.c.CmpAbs(bigOne) != 0 {
			continue
		}
		used := false
		for j, u := range l.t {
			if j == i {
				continue
			}
			for _, b := range x.monos[u.m].atoms {
				if b == at[0] {
					used = true
				}
			}
		}
		if used {
			continue
		}
		if best < 0 || at[0] > x.monos[l.t[best].m].atoms[0] {
			best = i
		}
	}
	if best < 0 {
		if len(l.t) == 1 && len(x.monos[l.t[0].m].atoms) == 1 {
			q, r := new(big.Int).QuoRem(new(big.Int).Neg(l.k), l.t[0].c, new(big.Int))
			if r.Sign() != 0 {
				panic(pathAbort{"infeasible"})
			}
			x.substitute(x.atoms[x.monos[l.t[0].m].atoms[0]], linConst(q))
			return
		}
		x.eqs = append(x.eqs, l)
		return
	}
	a := x.atoms[x.monos[l.t[best].m].atoms[0]]
	rest := &Lin{k: l.k}
	for j, t := range l.t {
		if j != best {
			rest.t = append(rest.t, t)
		}
	}
	if l.t[best].c.Sign() > 0 {
		rest = linScale(rest, bigMinus)
	}
	if !rest.isConst() && len(rest.t) > 6 {
		x.eqs = append(x.eqs, l)
		return // too dense to be useful as a substitution
	}
	x.substitute(a, rest)
}

func (x *LinCtx) addModulus(M *big.Int) {
	for _, m := range x.mods {
		if m.Cmp(M) == 0 {
			return
		}
	}
	x.mods = append(x.mods, M)
}

// modSolve: if the equation determines a single atom modulo one of the moduli
// in use, and the atom's range has at most one such value, the atom is fixed.
func (x *LinCtx) modSolve(l *Lin) bool {
	for _, M := range x.mods {
		e := x.expandRem(l, M)
		var only *mterm
		n := 0
		for i := range e.t {
			if new(big.Int).Mod(e.t[i].c, M).Sign() != 0 {
				only = &e.t[i]
				n++
			}
		}
		if n != 1 || len(x.monos[only.m].atoms) != 1 {
			continue
		}
		a := x.atoms[x.monos[only.m].atoms[0]]
		inv := new(big.Int).ModInverse(new(big.Int).Mod(only.c, M), M)
		if inv == nil || a.sub != nil || spread(a).Cmp(M) >= 0 {
			continue
		}
		v := new(big.Int).Mul(new(big.Int).Neg(e.k), inv)
		v.Sub(v, a.lo).Mod(v, M).Add(v, a.lo)
		if v.Cmp(a.hi) > 0 {
			panic(pathAbort{"infeasible"})
		}
		x.substitute(a, linConst(v))
		return true
	}
	return false
}

func (x *LinCtx) substitute(a *atom, l *Lin) {
	if l.isConst() && (l.k.Cmp(a.lo) < 0 || l.k.Cmp(a.hi) > 0) {
		panic(pathAbort{"infeasible"})
	}
	x.emitMonos()
	x.p.solSend("(assert (= " + a.name + " " + x.smt(l) + "))")
	a.sub = l
	x.nsub++
	x.gen++
	if a.rem {
		x.eqs = append(x.eqs, linSub(a.def, l)) // what the atom stood for
	}
	if l.isConst() {
		// product monomials over a fixed atom become linear
		for i, m := range x.monos {
			if len(m.atoms) < 2 {
				continue
			}
			for _, b := range m.atoms {
				if b == a.id {
					one := &Lin{t: []mterm{{i, bigOne}}, k: new(big.Int)}
					n := x.norm(one)
					x.emitMonos()
					x.p.solSend("(assert (= " + x.monos[i].name + " " + x.smt(n) + "))")
					break
				}
			}
		}
	} else {
		for i := 0; i < len(x.monos); i++ {
			m := x.monos[i]
			if len(m.atoms) != 2 {
				continue
			}
			for _, b := range m.atoms {
				if b == a.id {
					n := x.norm(&Lin{t: []mterm{{i, bigOne}}, k: new(big.Int)})
					x.emitMonos()
					x.p.solSend("(assert (= " + x.monos[i].name + " " + x.smt(n) + "))")
					break
				}
			}
		}
	}
	x.rekey()
}

// rekey recomputes the canonical keys of the floor atoms after substitutions.
func (x *LinCtx) rekey() {
	x.gen++
	for changed := true; changed; {
		changed = false
		nf := map[string]int{}
		for id := 0; id < len(x.atoms); id++ {
			at := x.atoms[id]
			if at.rem && at.sub == nil {
				// a remainder or abbreviation of something that became simple
				d := x.norm(at.def)
				if at.M.Sign() != 0 {
					r := &Lin{k: new(big.Int).Mod(d.k, at.M)}
					for _, t := range d.t {
						if c := symMod(t.c, at.M); c.Sign() != 0 {
							r.t = append(r.t, mterm{t.m, c})
						}
					}
					d = r
					if lo, hi := x.rangeOf(d); lo.Sign() < 0 || hi.Cmp(at.M) >= 0 {
						continue
					}
				}
				if len(d.t) > 1 || x.mentions(d, at.id) {
					continue
				}
				if d.isConst() && (d.k.Cmp(at.lo) < 0 || d.k.Cmp(at.hi) > 0) {
					panic(pathAbort{"infeasible"})
				}
				x.emitMonos()
				x.p.solSend("(assert (= " + at.name + " " + x.smt(d) + "))")
				at.sub = d
				x.nsub++
				x.gen++
				changed = true
				continue
			}
			if !at.floor || at.sub != nil {
				continue
			}
			d := x.norm(at.def)
			lo, hi := x.rangeOf(d)
			fl, fh := floorDiv(lo, at.M), floorDiv(hi, at.M)
			if fl.Cmp(at.lo) > 0 {
				at.lo = fl
			}
			if fh.Cmp(at.hi) < 0 {
				at.hi = fh
			}
			if at.lo.Cmp(at.hi) > 0 {
				panic(pathAbort{"infeasible"})
			}
			if at.lo.Cmp(at.hi) == 0 {
				x.p.solSend("(assert (= " + at.name + " " + smtInt(at.lo) + "))")
				at.sub = linConst(at.lo)
				x.nsub++
				x.gen++
				changed = true
				continue
			}
			if d == at.def {
				nf[at.def.key()+"/"+at.M.Text(62)] = id
				continue
			}
			// re-canonicalise: def may have coefficients reducible mod M now
			lb := &Lin{k: new(big.Int).Mod(d.k, at.M)}
			for _, t := range d.t {
				c := symMod(t.c, at.M)
				if c.Sign() != 0 {
					lb.t = append(lb.t, mterm{t.m, c})
				}
			}
			key := lb.key() + "/" + at.M.Text(62)
			if o, ok := nf[key]; ok && o != id {
				// value = (d-lb)/M + other
				q := linSub(d, lb)
				r := &Lin{k: new(big.Int).Quo(q.k, at.M)}
				for _, t := range q.t {
					r.t = append(r.t, mterm{t.m, new(big.Int).Quo(t.c, at.M)})
				}
				r = x.norm(linAdd(r, x.norm(x.atomLin(x.atoms[o]))))
				x.emitMonos()
				x.p.solSend("(assert (= " + at.name + " " + x.smt(r) + "))")
				if x.mentions(r, at.id) {
					continue // an equation about the atom itself
				}
				at.sub = r
				x.nsub++
				x.gen++
				changed = true
				continue
			}
			if linSub(d, lb).isConst() && linSub(d, lb).k.Sign() == 0 {
				nf[key] = id
			}
		}
		if !changed {
			x.floors = nf
		}
	}
}

// rlt adds products of known linear facts with single atoms, when every
// resulting monomial already exists.
func (x *LinCtx) rlt() {
	has := map[int]map[int]bool{} // atom -> partner atoms in degree-2 monomials
	for _, m := range x.monos {
		if len(m.atoms) == 2 {
			for k := 0; k < 2; k++ {
				a, b := m.atoms[k], m.atoms[1-k]
				if has[a] == nil {
					has[a] = map[int]bool{}
				}
				has[a][b] = true
			}
		}
	}
	if len(has) == 0 {
		return
	}
	ids := make([]int, 0, len(has))
	for y := range has {
		ids = append(ids, y)
	}
	sort.Ints(ids)
	for fi, f := range x.facts {
		for _, y := range ids {
			if x.rltDone[[2]int{fi, y}] {
				continue
			}
			ok := true
			for _, t := range f.t {
				at := x.monos[t.m].atoms
				if len(at) != 1 || !has[y][at[0]] {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			x.rltDone[[2]int{fi, y}] = true
			a := x.atoms[y]
			yl := &Lin{t: []mterm{{x.mono([]int{a.id}), bigOne}}, k: new(big.Int)}
			x.assertGE0(x.mul(f, linSub(yl, linConst(a.lo))))
			x.assertGE0(x.mul(f, linSub(linConst(a.hi), yl)))
		}
	}
	// products of two facts over existing monomials
	for i, f := range x.facts {
		for j := i; j < len(x.facts); j++ {
			kk := [2]int{-1 - i, j}
			if x.rltDone[kk] {
				continue
			}
			g := x.facts[j]
			ok := true
			for _, t := range f.t {
				for _, u := range g.t {
					ta, ua := x.monos[t.m].atoms, x.monos[u.m].atoms
					if len(ta) != 1 || len(ua) != 1 || !has[ta[0]][ua[0]] {
						ok = false
					}
				}
			}
			if ok && len(f.t) > 0 && len(g.t) > 0 {
				x.rltDone[kk] = true
				x.assertGE0(x.mul(f, g))
			}
		}
	}
}

// support returns the floor atoms (transitively) relevant to f, oldest first.
func (x *LinCtx) support(f *Form) []*atom {
	seen := map[int]bool{}
	var visitLin func(l *Lin)
	visitLin = func(l *Lin) {
		for _, t := range l.t {
			for _, a := range x.monos[t.m].atoms {
				if seen[a] {
					continue
				}
				seen[a] = true
				at := x.atoms[a]
				if at.floor || at.rem {
					visitLin(x.norm(at.def))
				}
			}
		}
	}
	var visit func(f *Form)
	visit = func(f *Form) {
		if f.l != nil {
			visitLin(x.norm(f.l))
		}
		for _, a := range f.args {
			visit(a)
		}
	}
	visit(f)
	var ids []int
	for a := range seen {
		ids = append(ids, a)
	}
	sort.Ints(ids)
	var out []*atom
	for _, a := range ids {
		if x.atoms[a].sub == nil {
			out = append(out, x.atoms[a])
		}
	}
	return out
}

func (x *LinCtx) directAtoms(f *Form) []*atom {
	seen := map[int]bool{}
	var visit func(f *Form)
	visit = func(f *Form) {
		if f.l != nil {
			for _, t := range x.norm(f.l).t {
				for _, a := range x.monos[t.m].atoms {
					seen[a] = true
				}
			}
		}
		for _, a := range f.args {
			visit(a)
		}
	}
	visit(f)
	var ids []int
	for a := range seen {
		ids = append(ids, a)
	}
	sort.Ints(ids)
	var out []*atom
	for _, a := range ids {
		out = append(out, x.atoms[a])
	}
	return out
}

func spread(a *atom) *big.Int { return new(big.Int).Sub(a.hi, a.lo) }

var bigThree, bigTwo, bigMinusTwo = big.NewInt(3), big.NewInt(2), big.NewInt(-2)

// fixAtoms tries to prove that small-range floor atoms have a single value.
func (x *LinCtx) fixAtoms(f *Form) bool {
	changed := false
	for _, a := range x.support(f) {
		if !a.floor || a.sub != nil || a.tried == x.gen {
			continue
		}
		if x.p.nUnknown > 6 {
			break
		}
		if spread(a).Cmp(bigThree) > 0 {
			// a wide interval may come from lost correlations: try a small window around zero
			a.tried = x.gen
			if a.lo.Cmp(bigTwo) > 0 || a.hi.Cmp(bigMinusTwo) < 0 || !x.p.solUnsat("(or (>= "+a.name+" 3) (<= "+a.name+" (- 3)))") {
				continue
			}
			if a.lo.Cmp(bigMinusTwo) < 0 {
				a.lo = bigMinusTwo
			}
			if a.hi.Cmp(bigTwo) > 0 {
				a.hi = bigTwo
			}
			x.ranged(a)
			changed = true
			if a.sub != nil {
				continue
			}
		}
		for a.sub == nil {
			// can it be > lo ?
			if x.p.solUnsat("(>= " + a.name + " " + smtInt(new(big.Int).Add(a.lo, bigOne)) + ")") {
				a.hi = a.lo
				x.p.nLemmas++
				x.ranged(a)
				changed = true
				break
			}
			if x.p.solUnsat("(<= " + a.name + " " + smtInt(new(big.Int).Sub(a.hi, bigOne)) + ")") {
				a.lo = a.hi
				x.p.nLemmas++
				x.ranged(a)
				changed = true
				break
			}
			if spread(a).Cmp(bigOne) <= 0 {
				break
			}
			// shrink one end
			lo1 := new(big.Int).Add(a.lo, bigOne)
			if x.p.solUnsat("(<= " + a.name + " " + smtInt(a.lo) + ")") {
				a.lo = lo1
				x.ranged(a)
				changed = true
				continue
			}
			hi1 := new(big.Int).Sub(a.hi, bigOne)
			if x.p.solUnsat("(>= " + a.name + " " + smtInt(a.hi) + ")") {
				a.hi = hi1
				x.ranged(a)
				changed = true
				continue
			}
			break
		}
		a.tried = x.gen
	}
	return changed
}
