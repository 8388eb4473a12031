package main

// Field mode: elements of the base field are fractions of polynomials in symbolic
// variables over F_q. The operations of field elements are replaced by the operations of
// the field, which is what the F properties prove about the real ones. A path knows an ideal of polynomials that
// vanish, polynomials that do not, quadratic characters and signs. Every conclusion drawn
// from the ideal is discharged as a query by the solver.

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"strings"
	"sync"
)

type ffac struct {
	p *Poly // monic, not constant
	e int   // exponent, may be negative
}

// FVal is c * prod p^e.
type FVal struct {
	c *big.Int
	f []ffac
}

type chiRec struct {
	ps  []*Poly // product
	chi int
}
type signRec struct {
	v    *FVal
	sign int
}

type FldCtx struct {
	names  map[int]string // of the variables that are inputs
	p      *Path
	vals   map[*Term]*FVal
	nv     int
	nr     int
	basis  []*Poly
	nz     []*Poly
	chis   []chiRec
	signs  []signRec
	roots  []rootRec
	queue  []*FVal // the elements that the code will get from the random generator
	incons bool
}

var fldCert sync.Map // discharged queries

type rootRec struct{ sq, root *FVal }

func newFldCtx(p *Path) *FldCtx {
	return &FldCtx{p: p, vals: map[*Term]*FVal{}, names: map[int]string{}}
}

// fldNamed collects the choices of the path and the values of the variables which it determines.
func (p *Path) fldNamed() map[string][]string {
	r := map[string][]string{}
	for i, v := range p.model() {
		if n := p.inputs[i]; n.t == nil || n.t.sort != SFld {
			r[n.Name] = append(r[n.Name], v.String())
		}
	}
	// scale factors: take the free ones at random and solve for the others
	x := p.fld
	val := map[int]*big.Int{}
	solve := func() bool {
		for _, g := range x.basis {
			un, other := -1, false
			for _, t := range g.t {
				for i, e := range t.m {
					if e == 0 || val[i] != nil {
						continue
					}
					if e > 1 || un >= 0 && un != i {
						other = true
					}
					un = i
				}
			}
			if other || un < 0 || x.names[un] == "" {
				continue
			}
			a, b := new(big.Int), new(big.Int)
			for _, t := range g.t {
				c := new(big.Int).Set(t.c)
				d := b
				for i, e := range t.m {
					if i == un && e > 0 {
						d = a
						continue
					}
					for ; e > 0; e-- {
						c.Mul(c, val[i]).Mod(c, fldQ)
					}
				}
				d.Add(d, c).Mod(d, fldQ)
			}
			if a.Sign() == 0 {
				continue
			}
			v := a.ModInverse(a, fldQ)
			v.Mul(v, b.Neg(b)).Mod(v, fldQ)
			val[un] = v
			return true
		}
		return false
	}
	for solve() {
	}
	for i, n := range x.names {
		if v := val[i]; v != nil {
			if v.Bit(0) == 0 {
				v = new(big.Int).Add(v, fldQ) // see zzVar
			}
			r[n] = append(r[n], v.String())
		}
	}
	return r
}

func (f *FldCtx) feasible(t *Term) bool       { return true }
func (f *FldCtx) assume(t *Term)              {}
func (f *FldCtx) decide(t *Term) (bool, bool) { return false, false }
func (f *FldCtx) prove(t *Term) bool          { return false }

var fldTab = map[string]intrinsic{}

func fvConst(c *big.Int) *FVal { return &FVal{c: new(big.Int).Mod(c, fldQ)} }

func (v *FVal) isConst() bool { return v.c.Sign() == 0 || len(v.f) == 0 }

// fvPoly makes a value of a polynomial, with its monomial content as factors.
func (x *FldCtx) fvPoly(p *Poly) *FVal {
	p, _ = reduce(p, x.basis, false)
	if p.isConst() {
		return fvConst(p.constVal())
	}
	r := &FVal{}
	m := p.content()
	if m != (fmono{}) {
		p = p.divMono(m)
		for i, e := range m {
			if e > 0 {
				r.f = append(r.f, ffac{polyVar(i), int(e)})
			}
		}
	}
	p, r.c = p.monic()
	for _, n := range x.nz {
		if n.isConst() || len(n.t) < 2 {
			continue
		}
		for {
			q, ok := p.divExact(n)
			if !ok {
				break
			}
			r.f = addFac(r.f, ffac{n, 1})
			p = q
		}
	}
	if !p.isConst() {
		r.f = addFac(r.f, ffac{p, 1})
	} else {
		r.c = new(big.Int).Mul(r.c, p.constVal())
		r.c.Mod(r.c, fldQ)
	}
	return r
}

func addFac(fs []ffac, g ffac) []ffac {
	for i, h := range fs {
		if h.p.str() == g.p.str() {
			r := append([]ffac(nil), fs...)
			r[i].e += g.e
			if r[i].e == 0 {
				r = append(r[:i], r[i+1:]...)
			}
			return r
		}
	}
	return append(append([]ffac(nil), fs...), g)
}

func (x *FldCtx) mul(a, b *FVal) *FVal {
	r := &FVal{c: new(big.Int).Mul(a.c, b.c)}
	r.c.Mod(r.c, fldQ)
	if r.c.Sign() == 0 {
		return r
	}
	r.f = a.f
	for _, g := range b.f {
		r.f = addFac(r.f, g)
	}
	return r
}

func (x *FldCtx) inv(a *FVal) *FVal {
	r := &FVal{c: new(big.Int).ModInverse(a.c, fldQ)}
	for _, g := range a.f {
		r.f = append(r.f, ffac{g.p, -g.e})
	}
	return r
}

func (x *FldCtx) expand(c *big.Int, fs []ffac) *Poly {
	r := polyConst(c)
	for _, g := range fs {
		for i := 0; i < g.e; i++ {
			r, _ = reduce(r.mul(g.p), x.basis, false)
		}
	}
	return r
}

func (x *FldCtx) add(a, b *FVal, sgn int64) *FVal {
	bc := new(big.Int).Mul(b.c, big.NewInt(sgn))
	bc.Mod(bc, fldQ)
	if a.c.Sign() == 0 {
		return &FVal{c: bc, f: b.f}
	}
	if bc.Sign() == 0 {
		return a
	}
	// common factors (smaller exponent of each)
	ea, eb := map[string]int{}, map[string]int{}
	ps := map[string]*Poly{}
	var order []string
	for _, g := range a.f {
		ea[g.p.str()] = g.e
		ps[g.p.str()] = g.p
		order = append(order, g.p.str())
	}
	for _, g := range b.f {
		k := g.p.str()
		eb[k] = g.e
		if ps[k] == nil {
			ps[k] = g.p
			order = append(order, k)
		}
	}
	var com, fa, fb []ffac
	for _, k := range order {
		m := ea[k]
		if eb[k] < m {
			m = eb[k]
		}
		if m != 0 {
			com = append(com, ffac{ps[k], m})
		}
		if ea[k] > m {
			fa = append(fa, ffac{ps[k], ea[k] - m})
		}
		if eb[k] > m {
			fb = append(fb, ffac{ps[k], eb[k] - m})
		}
	}
	s := x.fvPoly(x.expand(a.c, fa).add(x.expand(bc, fb)))
	return x.mul(s, &FVal{c: big.NewInt(1), f: com})
}

func (x *FldCtx) newVar(root bool) int {
	if root {
		if x.nr >= nVars-nPlain {
			panic(pathAbort{"too many roots"})
		}
		x.nr++
		return nPlain + x.nr - 1
	}
	if x.nv >= nPlain {
		panic(pathAbort{"too many field variables"})
	}
	x.nv++
	return x.nv - 1
}

func (x *FldCtx) infeasible() { panic(pathAbort{"infeasible"}) }

// nf is the normal form; if it is zero although p is not, the solver confirms it.
func (x *FldCtx) nf(p *Poly) *Poly {
	r, uses := reduce(p, x.basis, true)
	if r.isZero() && !p.isZero() {
		x.certify(p, uses)
	}
	return r
}

// certify has the solver confirm that p vanishes if the generators in uses do, p being congruent to
// the sum of the given multiples: whatever integers stand for the monomials, if every multiple is
// divisible by q (its quotient being k_i), then p = rr + q*kk is q times an integer.
func (x *FldCtx) certify(p *Poly, uses []puse) {
	var kb strings.Builder
	kb.WriteString(p.str())
	for _, u := range uses {
		kb.WriteString("|")
		kb.Write(u.m[:])
		kb.Write(u.c.Bytes())
		kb.WriteString(u.g.str())
	}
	key := sha256.Sum256([]byte(kb.String()))
	if _, ok := fldCert.Load(key); ok {
		return
	}
	var names = map[fmono]string{}
	var decl, sb strings.Builder
	name := func(m fmono) string {
		if s, ok := names[m]; ok {
			return s
		}
		s := fmt.Sprintf("m%d", len(names))
		if m == (fmono{}) {
			s = "1"
		} else {
			fmt.Fprintf(&decl, "(declare-const %s Int)", s)
		}
		names[m] = s
		return s
	}
	num := func(c *big.Int) string {
		if c.Sign() < 0 {
			return fmt.Sprintf("(- %s)", new(big.Int).Neg(c))
		}
		return c.String()
	}
	sum := map[fmono]*big.Int{} // p minus the multiples, over the integers
	var order []fmono
	lin := func(q *Poly, m fmono, f *big.Int) string {
		var b strings.Builder
		b.WriteString("(+ 0")
		for _, t := range q.t {
			c := t.c
			if c.BitLen() > 200 {
				c = new(big.Int).Sub(c, fldQ)
			}
			n := t.m.mul(m)
			if sum[n] == nil {
				sum[n] = new(big.Int)
				order = append(order, n)
			}
			sum[n].Add(sum[n], new(big.Int).Mul(f, c))
			fmt.Fprintf(&b, " (* %s %s)", num(c), name(n))
		}
		b.WriteString(")")
		return b.String()
	}
	fmt.Fprintf(&sb, "(assert (= (+ rr (* %s kk)) %s))", fldQ, lin(p, fmono{}, big.NewInt(1)))
	var w strings.Builder
	w.WriteString("(+ (- kk)")
	for i, u := range uses {
		fmt.Fprintf(&decl, "(declare-const k%d Int)", i)
		c := u.c
		if c.BitLen() > 200 {
			c = new(big.Int).Sub(c, fldQ)
		}
		fmt.Fprintf(&sb, "(assert (= (* %s k%d) %s))", fldQ, i, lin(u.g, u.m, new(big.Int).Neg(c)))
		fmt.Fprintf(&w, " (* %s k%d)", num(c), i)
	}
	for _, n := range order {
		if sum[n].Sign() != 0 {
			e := new(big.Int).Quo(sum[n], fldQ)
			fmt.Fprintf(&w, " (* %s %s)", num(e), name(n))
		}
	}
	w.WriteString(")")
	fmt.Fprintf(&decl, "(declare-const kk Int)(declare-const rr Int)")
	txt := decl.String() + sb.String() + fmt.Sprintf("(assert (not (= rr (* %s %s))))", fldQ, w.String())
	x.discharge(txt, p, uses)
	// and no remainder is a nonzero multiple of q
	x.discharge(fmt.Sprintf("(declare-const rr Int)(declare-const w Int)(assert (= rr (* %s w)))(assert (< 0 rr %s))", fldQ, fldQ), p, uses)
	fldCert.Store(key, true)
}

func (x *FldCtx) discharge(txt string, p *Poly, uses []puse) {
	h := sha256.Sum256([]byte(txt))
	if _, ok := fldCert.Load(h); ok {
		return
	}
	x.p.addObl(true, false)
	s := x.p.sol
	s.send("(push)")
	s.send(txt)
	r := s.checkWith("(check-sat-using (then simplify solve-eqs smt))")
	if r == "unknown" {
		r = s.check()
	}
	s.send("(pop)")
	if r != "unsat" {
		if os.Getenv("VSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "certificate not confirmed:", r, len(uses), len(p.t))
			if d := os.Getenv("VSYM_CERT"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/%x.smt2", d, h[:4]), []byte(txt+"(check-sat)"), 0o644)
			}
		}
		panic(pathAbort{"certificate not confirmed by the solver: " + r})
	}
	fldCert.Store(h, true)
}

// simp removes factors that are known not to vanish from p.
func (x *FldCtx) simp(p *Poly) *Poly {
	if p.isZero() {
		return p
	}
	m := p.content()
	for i, e := range m {
		if e > 0 && !x.nzVar(i) {
			m[i] = 0
		}
	}
	if m != (fmono{}) {
		p = p.divMono(m)
	}
	for _, n := range x.nz {
		if n.isConst() || len(n.t) < 2 {
			continue
		}
		for {
			q, ok := p.divExact(n)
			if !ok {
				break
			}
			p = q
		}
	}
	p, _ = p.monic()
	return p
}

func (x *FldCtx) nzVar(i int) bool {
	for _, n := range x.nz {
		if len(n.t) == 1 && n.t[0].m[i] > 0 {
			return true
		}
	}
	return false
}

// known: 1 vanishes, 0 does not, -1 open.
func (x *FldCtx) knownPoly(p *Poly) int {
	if p.isConst() {
		if p.isZero() {
			return 1
		}
		return 0
	}
	r := x.nf(p)
	if r.isZero() {
		return 1
	}
	r = x.simp(r)
	if r.isConst() {
		return 0
	}
	for _, n := range x.nz {
		if n.str() == r.str() {
			return 0
		}
		d, _ := reduce(n, x.basis, false)
		d, _ = d.monic()
		if d.str() == r.str() {
			return 0
		}
	}
	return -1
}

func (x *FldCtx) known(v *FVal) int {
	if v.c.Sign() == 0 {
		return 1
	}
	all := 0
	for _, g := range v.f {
		if g.e < 0 {
			continue
		}
		switch x.knownPoly(g.p) {
		case 1:
			return 1
		case -1:
			all = -1
		}
	}
	if all == -1 {
		// the product may vanish by a relation between the factors
		if x.nf(x.expand2(v)).isZero() {
			return 1
		}
	}
	return all
}

// expand2 is the numerator.
func (x *FldCtx) expand2(v *FVal) *Poly {
	r := polyConst(v.c)
	for _, g := range v.f {
		for i := 0; i < g.e; i++ {
			r = r.mul(g.p)
		}
	}
	return r
}

func (x *FldCtx) assumeNZ(p *Poly) {
	switch x.knownPoly(p) {
	case 1:
		x.infeasible()
	case 0:
		return
	}
	r, _ := reduce(p, x.basis, false)
	r = x.simp(r)
	x.nz = append(x.nz, r)
	if c := r.content(); c != (fmono{}) {
		// every variable of the content
		for i, e := range c {
			if e > 0 && !x.nzVar(i) {
				x.nz = append(x.nz, polyVar(i))
			}
		}
		q, _ := r.divMono(c).monic()
		if !q.isConst() {
			x.nz = append(x.nz, q)
		}
	}
	x.saturate()
}

// saturate removes nonvanishing factors from the basis.
func (x *FldCtx) saturate() {
	for i, g := range x.basis {
		s := x.simp(g)
		if s.str() != g.str() {
			x.basis = append(x.basis[:i:i], x.basis[i+1:]...)
			x.assumeZ(s)
			return
		}
	}
}

func (x *FldCtx) assumeZ(p *Poly) {
	todo := []*Poly{p}
	type pair struct{ a, b *Poly }
	n := 0
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		r, uses := reduce(p, x.basis, true)
		if r.isZero() {
			continue
		}
		if len(uses) > 0 {
			x.certify(p.sub(r), uses) // p is congruent to r
		}
		if r.isConst() {
			x.infeasible()
		}
		r = x.simp(r)
		if r.isConst() {
			x.infeasible()
		}
		// inter-reduce
		var keep []*Poly
		for _, g := range x.basis {
			if r.t[0].m.divides(g.t[0].m) {
				todo = append(todo, g)
			} else {
				keep = append(keep, g)
			}
		}
		x.basis = append(keep, r)
		for _, g := range keep {
			if g.t[0].m.coprime(r.t[0].m) {
				continue
			}
			l := g.t[0].m.lcm(r.t[0].m)
			s := (&Poly{}).axpy(big.NewInt(1), l.div(g.t[0].m), g).axpy(big.NewInt(-1), l.div(r.t[0].m), r)
			if l.deg(0, nVars) <= 40 && !s.isZero() {
				x.certify(s, []puse{{g, l.div(g.t[0].m), big.NewInt(1)}, {r, l.div(r.t[0].m), big.NewInt(-1)}})
				todo = append(todo, s)
			}
		}
		if n++; n > 60 {
			break // the basis need not be complete
		}
	}
	// tails
	for i, g := range x.basis {
		rest := append(append([]*Poly(nil), x.basis[:i]...), x.basis[i+1:]...)
		t, _ := reduce(&Poly{t: g.t[1:]}, rest, false)
		x.basis[i] = &Poly{t: append([]pterm{g.t[0]}, t.t...)}
	}
	nz := x.nz
	x.nz = nil
	for _, n := range nz {
		r := x.nf(n)
		if r.isZero() {
			x.infeasible()
		}
		r, _ = r.monic()
		if !r.isConst() {
			x.nz = append(x.nz, r)
		}
	}
	x.saturate()
}

// isZero decides whether v vanishes, forking where it is open.
func (x *FldCtx) isZero(v *FVal) bool {
	switch x.known(v) {
	case 1:
		return true
	case 0:
		return false
	}
	for _, g := range v.f {
		if g.e < 0 {
			continue
		}
		if x.isZeroPoly(g.p) {
			return true
		}
	}
	return false
}

func (x *FldCtx) isZeroPoly(p *Poly) bool {
	switch x.knownPoly(p) {
	case 1:
		return true
	case 0:
		return false
	}
	r, _ := reduce(p, x.basis, false)
	r = x.simp(r)
	c := r.content()
	if c != (fmono{}) && !(len(r.t) == 1 && r.t[0].m.deg(0, nVars) == 1) {
		for i, e := range c {
			if e > 0 && x.isZeroPoly(polyVar(i)) {
				return true
			}
		}
		q, _ := r.divMono(c).monic()
		return x.isZeroPoly(q)
	}
	// difference of two squares of monomials with known root
	if a, b, ok := splitSquares(r); ok {
		return x.isZeroPoly(a) || x.isZeroPoly(b)
	}
	if x.p.choose(2) == 1 {
		x.assumeZ(r)
		return true
	}
	x.assumeNZ(r)
	return false
}

// splitSquares factors u^2 - c v^2 for monomials u, v and a square c.
func splitSquares(p *Poly) (*Poly, *Poly, bool) {
	if len(p.t) != 2 {
		return nil, nil, false
	}
	half := func(m fmono) (fmono, bool) {
		for i := range m {
			if m[i]%2 != 0 {
				return m, false
			}
			m[i] /= 2
		}
		return m, true
	}
	u, ok1 := half(p.t[0].m)
	v, ok2 := half(p.t[1].m)
	if !ok1 || !ok2 {
		return nil, nil, false
	}
	c := new(big.Int).Neg(p.t[1].c)
	c.Mod(c, fldQ)
	s := new(big.Int).ModSqrt(c, fldQ)
	if s == nil {
		return nil, nil, false
	}
	one := big.NewInt(1)
	a := (&Poly{t: []pterm{{u, one}}}).axpy(s, v, polyConst(one))
	b := (&Poly{t: []pterm{{u, one}}}).axpy(new(big.Int).Neg(s), v, polyConst(one))
	return a, b, true
}

// chiSet is a product of polynomials with a sign, for the purpose of quadratic characters.
type chiSet struct {
	s    map[string]*Poly
	sign int
}

// toggle multiplies by a polynomial known not to vanish.
func (x *FldCtx) chiToggle(c *chiSet, p *Poly) bool {
	r, _ := reduce(p, x.basis, false)
	if r.isZero() {
		return false
	}
	m, l := r.monic()
	c.sign *= big.Jacobi(l, fldQ)
	if m.isConst() || polySqrt(m) != nil {
		return true
	}
	if a, b, ok := splitSquares(m); ok {
		return x.chiToggle(c, a) && x.chiToggle(c, b)
	}
	k := m.str()
	if _, ok := c.s[k]; ok {
		delete(c.s, k)
	} else {
		c.s[k] = m
	}
	return true
}

func (x *FldCtx) chiSetOf(ps []*Poly, sign int) (*chiSet, bool) {
	c := &chiSet{map[string]*Poly{}, sign}
	for _, p := range ps {
		if !x.chiToggle(c, p) {
			return nil, false
		}
	}
	return c, true
}

func (c *chiSet) add(d *chiSet) {
	c.sign *= d.sign
	for k, p := range d.s {
		if _, ok := c.s[k]; ok {
			delete(c.s, k)
		} else {
			c.s[k] = p
		}
	}
}

// chiReduce multiplies c by known relations, so that it becomes empty if its sign is known.
func (x *FldCtx) chiReduce(c *chiSet) {
	type row struct {
		piv string
		c   *chiSet
	}
	var rows []row
	red := func(d *chiSet) {
		for _, r := range rows {
			if _, ok := d.s[r.piv]; ok {
				d.add(r.c)
			}
		}
	}
	for _, k := range x.chis {
		d, ok := x.chiSetOf(k.ps, k.chi)
		if !ok {
			continue
		}
		red(d)
		if len(d.s) == 0 {
			if d.sign != 1 {
				x.infeasible()
			}
			continue
		}
		piv := ""
		for n := range d.s {
			if piv == "" || n < piv {
				piv = n
			}
		}
		rows = append(rows, row{piv, d})
	}
	red(c)
}

func (v *FVal) oddPolys() (r []*Poly) {
	for _, g := range v.f {
		if g.e%2 != 0 {
			r = append(r, g.p)
		}
	}
	return
}

// polySqrt finds s with s^2 = p for monic p, or nil.
func polySqrt(p *Poly) *Poly {
	half := func(m fmono) (fmono, bool) {
		for i := range m {
			if m[i]%2 != 0 {
				return m, false
			}
			m[i] /= 2
		}
		return m, true
	}
	lm, ok := half(p.t[0].m)
	if !ok {
		return nil
	}
	s := &Poly{t: []pterm{{lm, big.NewInt(1)}}}
	inv2 := new(big.Int).ModInverse(big.NewInt(2), fldQ)
	for i := 0; i < 200; i++ {
		d := p.sub(s.mul(s))
		if d.isZero() {
			return s
		}
		if !lm.divides(d.t[0].m) {
			return nil
		}
		m := d.t[0].m.div(lm)
		if m.cmp(s.t[len(s.t)-1].m) >= 0 {
			return nil
		}
		c := new(big.Int).Mul(d.t[0].c, inv2)
		s = s.axpy(c, m, polyConst(big.NewInt(1)))
	}
	return nil
}

// chi is the quadratic character (0 for zero).
func (x *FldCtx) chi(v *FVal) int {
	if x.isZero(v) {
		return 0
	}
	ps := v.oddPolys()
	c, ok := x.chiSetOf(ps, big.Jacobi(v.c, fldQ))
	if !ok {
		unsup("vanishing factor")
	}
	x.chiReduce(c)
	if len(c.s) == 0 {
		return c.sign
	}
	r := 1 - 2*x.p.choose(2)
	if os.Getenv("VSYM_CHI") != "" {
		dump := func(c *chiSet) {
			for _, p := range c.s {
				fmt.Fprintln(os.Stderr, "    ", p.dump())
			}
		}
		fmt.Fprintln(os.Stderr, "CHI", r)
		dump(c)
		for _, k := range x.chis {
			if d, ok := x.chiSetOf(k.ps, k.chi); ok {
				fmt.Fprintln(os.Stderr, "  known", d.sign)
				dump(d)
			}
		}
	}
	x.chis = append(x.chis, chiRec{ps, r * big.Jacobi(v.c, fldQ)})
	return r
}

// chiIs records the character of v, which does not vanish.
func (x *FldCtx) chiIs(v *FVal, want int) {
	want *= big.Jacobi(v.c, fldQ)
	ps := v.oddPolys()
	c, ok := x.chiSetOf(ps, want)
	if !ok {
		unsup("vanishing factor")
	}
	x.chiReduce(c)
	if len(c.s) == 0 {
		if c.sign != 1 {
			x.infeasible()
		}
		return
	}
	x.chis = append(x.chis, chiRec{ps, want})
}

func (x *FldCtx) eqKnown(a, b *FVal, sgn int64) bool { return x.known(x.add(a, b, sgn)) == 1 }

func (x *FldCtx) sign(v *FVal) int {
	if x.isZero(v) {
		return 0
	}
	if v.isConst() {
		if v.c.Cmp(new(big.Int).Rsh(fldQ, 1)) > 0 {
			return -1
		}
		return 1
	}
	for _, s := range x.signs {
		if x.eqKnown(v, s.v, -1) {
			return s.sign
		}
		if x.eqKnown(v, s.v, 1) {
			return -s.sign
		}
	}
	s := 1 - 2*x.p.choose(2)
	x.signs = append(x.signs, signRec{v, s})
	return s
}

// sqrt returns a root of v, which must have character 1.
func (x *FldCtx) sqrt(v *FVal) *FVal {
	for _, k := range x.roots {
		if x.eqKnown(v, k.sq, -1) {
			if x.p.choose(2) == 1 {
				return x.mul(k.root, fvConst(big.NewInt(-1)))
			}
			return k.root
		}
	}
	r := &FVal{c: big.NewInt(1)}
	rest := &FVal{c: v.c}
	for _, g := range v.f {
		if g.e%2 == 0 {
			r.f = append(r.f, ffac{g.p, g.e / 2})
		} else {
			// p^(2k+1) = (p^k)^2 p
			k := (g.e - 1) / 2
			if g.e < 0 {
				k = -((1 - g.e) / 2)
			}
			if k != 0 {
				r.f = append(r.f, ffac{g.p, k})
			}
			rest.f = append(rest.f, ffac{g.p, 1})
		}
	}
	if len(rest.f) == 0 {
		if s := new(big.Int).ModSqrt(rest.c, fldQ); s != nil {
			// one of both roots
			if x.p.choose(2) == 1 {
				s.Sub(fldQ, s)
			}
			r.c = s
			return r
		}
		x.infeasible()
	}
	s := x.newVar(true)
	sv := polyVar(s)
	e := x.expand2(rest)
	x.assumeNZ(sv)
	x.assumeZ(sv.mul(sv).sub(e))
	return x.mul(r, &FVal{c: big.NewInt(1), f: []ffac{{sv, 1}}})
}

// ---- field elements in memory

var montR = new(big.Int).Lsh(big.NewInt(1), 256)
var montRInv = new(big.Int).ModInverse(montR, fldQ)

func feWords(v Value) Array {
	p, ok := v.(*Value)
	if !ok || p == nil {
		unsup("field element pointer %T", v)
	}
	return feArr(*p)
}

func feArr(v Value) Array {
	s, ok := v.(Struct)
	if !ok {
		unsup("field element layout %T", v)
	}
	for _, f := range s {
		if a, ok := f.(Array); ok && len(a) == 4 {
			return a
		}
	}
	unsup("field element layout")
	return nil
}

// fget returns the value of a field element; the context may be nil if it is concrete.
func (in *Interp) fget(v Value) *FVal { return in.fgetA(feWords(v)) }
func (in *Interp) fgetA(a Array) *FVal {
	if t, ok := a[0].(*Term); ok && t.sort == SFld {
		r := in.path.fld.vals[t]
		if r == nil {
			unsup("unknown field value")
		}
		return r
	}
	n := new(big.Int)
	for i := 3; i >= 0; i-- {
		u, ok := a[i].(uint64)
		if !ok {
			unsup("partly symbolic field element")
		}
		n.Lsh(n, 64)
		n.Or(n, new(big.Int).SetUint64(u))
	}
	n.Mul(n, montRInv)
	return fvConst(n)
}

func (in *Interp) fput(v Value, x *FVal) {
	a := feWords(v)
	if x.isConst() {
		n := new(big.Int).Mul(x.c, montR)
		n.Mod(n, fldQ)
		m := new(big.Int).SetUint64(^uint64(0))
		for i := 0; i < 4; i++ {
			in.set(&a[i], new(big.Int).And(new(big.Int).Rsh(n, uint(64*i)), m).Uint64())
		}
		return
	}
	c := in.path.fld
	t := in.path.c.newVar(fmt.Sprintf("f%d", len(c.vals)), SFld, 64, nil, nil)
	c.vals[t] = x
	in.set(&a[0], t)
	for i := 1; i < 4; i++ {
		in.set(&a[i], uint64(0))
	}
}

func (in *Interp) fctx() *FldCtx {
	if in.path != nil {
		return in.path.fld
	}
	return newFldCtx(nil)
}

func init() {
	const F = "(*" + repoModule + "/bandersnatch/fieldElements.bsFieldElement_MontgomeryNonUnique)."
	reg := func(n string, f intrinsic) { fldTab[F+n] = f }
	five := big.NewInt(5)
	bin := func(f func(x *FldCtx, a, b *FVal) *FVal) (intrinsic, intrinsic) {
		return func(in *Interp, fr *frame, a []Value) Value {
				in.fput(a[0], f(in.fctx(), in.fget(a[1]), in.fget(a[2])))
				return nil
			}, func(in *Interp, fr *frame, a []Value) Value {
				in.fput(a[0], f(in.fctx(), in.fget(a[0]), in.fget(a[1])))
				return nil
			}
	}
	un := func(f func(x *FldCtx, a *FVal) *FVal) (intrinsic, intrinsic) {
		return func(in *Interp, fr *frame, a []Value) Value {
				in.fput(a[0], f(in.fctx(), in.fget(a[1])))
				return nil
			}, func(in *Interp, fr *frame, a []Value) Value {
				in.fput(a[0], f(in.fctx(), in.fget(a[0])))
				return nil
			}
	}
	two := func(n1, n2 string, i1, i2 intrinsic) { reg(n1, i1); reg(n2, i2) }
	i1, i2 := bin(func(x *FldCtx, a, b *FVal) *FVal { return x.add(a, b, 1) })
	two("Add", "AddEq", i1, i2)
	i1, i2 = bin(func(x *FldCtx, a, b *FVal) *FVal { return x.add(a, b, -1) })
	two("Sub", "SubEq", i1, i2)
	i1, i2 = bin(func(x *FldCtx, a, b *FVal) *FVal { return x.mul(a, b) })
	two("Mul", "MulEq", i1, i2)
	i1, i2 = un(func(x *FldCtx, a *FVal) *FVal { return x.mul(a, a) })
	two("Square", "SquareEq", i1, i2)
	i1, i2 = un(func(x *FldCtx, a *FVal) *FVal { return x.mul(fvConst(big.NewInt(2)), a) })
	two("Double", "DoubleEq", i1, i2)
	i1, i2 = un(func(x *FldCtx, a *FVal) *FVal { return x.mul(fvConst(big.NewInt(-1)), a) })
	two("Neg", "NegEq", i1, i2)
	i1, i2 = un(func(x *FldCtx, a *FVal) *FVal { return x.mul(fvConst(five), a) })
	two("MulFive", "MulEqFive", i1, i2)
	inv := func(in *Interp, v *FVal) *FVal {
		if in.fctx().isZero(v) {
			panic(targetPanic{in.mkError("division by zero")})
		}
		return in.fctx().inv(v)
	}
	reg("Inv", func(in *Interp, fr *frame, a []Value) Value { in.fput(a[0], inv(in, in.fget(a[1]))); return nil })
	reg("InvEq", func(in *Interp, fr *frame, a []Value) Value { in.fput(a[0], inv(in, in.fget(a[0]))); return nil })
	reg("Divide", func(in *Interp, fr *frame, a []Value) Value {
		n := in.fget(a[1])
		in.fput(a[0], in.fctx().mul(n, inv(in, in.fget(a[2]))))
		return nil
	})
	reg("DivideEq", func(in *Interp, fr *frame, a []Value) Value {
		n := in.fget(a[0])
		in.fput(a[0], in.fctx().mul(n, inv(in, in.fget(a[1]))))
		return nil
	})
	reg("IsZero", func(in *Interp, fr *frame, a []Value) Value { return in.fctx().isZero(in.fget(a[0])) })
	reg("IsOne", func(in *Interp, fr *frame, a []Value) Value {
		x := in.fctx()
		return x.isZero(x.add(in.fget(a[0]), fvConst(big.NewInt(1)), -1))
	})
	reg("IsEqual", func(in *Interp, fr *frame, a []Value) Value {
		x := in.fctx()
		return x.isZero(x.add(in.fget(a[0]), in.fget(a[1]), -1))
	})
	reg("Normalize", func(in *Interp, fr *frame, a []Value) Value { in.fput(a[0], in.fget(a[0])); return nil })
	reg("Sign", func(in *Interp, fr *frame, a []Value) Value { return uint64(int64(in.fctx().sign(in.fget(a[0])))) })
	reg("Jacobi", func(in *Interp, fr *frame, a []Value) Value { return uint64(int64(in.fctx().chi(in.fget(a[0])))) })
	reg("SquareRoot", func(in *Interp, fr *frame, a []Value) Value {
		x := in.fctx()
		v := in.fget(a[1])
		switch x.chi(v) {
		case 0:
			in.fput(a[0], fvConst(new(big.Int)))
			return true
		case 1:
			in.fput(a[0], x.sqrt(v))
			return true
		}
		return false
	})

	// random elements are those which the harness provides; runs that need more are outside of the bound
	drawn := func(in *Interp, p Value) *FVal {
		x := in.fctx()
		if len(x.queue) == 0 {
			x.infeasible()
		}
		v := x.queue[0]
		x.queue = x.queue[1:]
		in.fput(p, v)
		return v
	}
	reg("SetRandomUnsafe", func(in *Interp, fr *frame, a []Value) Value { drawn(in, a[0]); return nil })
	reg("SetRandomUnsafeNonZero", func(in *Interp, fr *frame, a []Value) Value {
		x := in.fctx()
		v := drawn(in, a[0])
		for _, g := range v.f {
			x.assumeNZ(g.p)
		}
		if v.c.Sign() == 0 {
			x.infeasible()
		}
		return nil
	})

	for _, n := range []string{"Intn", "Int31n", "Int63n"} {
		n := n
		intrTab["(*math/rand.Rand)."+n] = func(in *Interp, fr *frame, a []Value) Value {
			k, ok := a[1].(uint64)
			if in.path.concrete != nil || in.path.h.mode != "fld" || !ok || k == 0 || k > 16 {
				unsup("math/rand.%s", n)
			}
			return uint64(in.path.choose(int(k)))
		}
	}

	// ---- harness interface; all of these do nothing in native runs
	h := func(n string, f func(in *Interp, x *FldCtx, a []Value) Value) {
		intrTab[zz+n] = func(in *Interp, fr *frame, a []Value) Value {
			if in.path.concrete != nil || in.path.h.mode != "fld" {
				unsup("%s outside of field mode", n)
			}
			return f(in, in.path.fld, a)
		}
	}
	ptr := func(v Value) Value {
		if i, ok := v.(Iface); ok {
			return i.v
		}
		return v
	}
	// FldVar makes *p an arbitrary element; false in native runs
	h("FldVar", func(in *Interp, x *FldCtx, a []Value) Value {
		i := x.newVar(false)
		x.names[i] = strArg(a[0])
		in.fput(ptr(a[1]), &FVal{c: big.NewInt(1), f: []ffac{{polyVar(i), 1}}})
		return true
	})
	// FldQueue makes *p the next random element
	h("FldQueue", func(in *Interp, x *FldCtx, a []Value) Value {
		x.queue = append(x.queue, in.fget(ptr(a[0])))
		return nil
	})
	// FldZero assumes that *p is zero
	h("FldZero", func(in *Interp, x *FldCtx, a []Value) Value {
		v := in.fget(ptr(a[0]))
		switch x.known(v) {
		case 1:
			return nil
		case 0:
			x.infeasible()
		}
		var open []*Poly
		for _, g := range v.f {
			if g.e > 0 && x.knownPoly(g.p) != 0 {
				open = append(open, g.p)
			}
		}
		x.assumeZ(open[x.p.choose(len(open))])
		return nil
	})
	// FldSplit: *p is zero for a known reason; distinguishes which factor vanishes
	h("FldSplit", func(in *Interp, x *FldCtx, a []Value) Value {
		v := in.fget(ptr(a[0]))
		if x.known(v) != 1 && !x.nf(x.expand2(v)).isZero() {
			unsup("FldSplit: not known to vanish")
		}
		for _, g := range v.f {
			if g.e < 0 {
				continue
			}
			switch x.knownPoly(g.p) {
			case 1:
				return nil
			case -1:
				if x.p.choose(2) == 1 {
					x.assumeZ(g.p)
					return nil
				}
				x.assumeNZ(g.p)
			}
		}
		x.infeasible()
		return nil
	})
	// FldNonZero assumes that *p is not zero
	h("FldNonZero", func(in *Interp, x *FldCtx, a []Value) Value {
		v := in.fget(ptr(a[0]))
		if v.c.Sign() == 0 {
			x.infeasible()
		}
		for _, g := range v.f {
			if g.e > 0 {
				x.assumeNZ(g.p)
			}
		}
		return nil
	})
	// FldSquare assumes that *p is a nonzero square and sets *r to a root
	h("FldSquare", func(in *Interp, x *FldCtx, a []Value) Value {
		v := in.fget(ptr(a[1]))
		for _, g := range v.f {
			if g.e > 0 {
				x.assumeNZ(g.p)
			}
		}
		x.chiIs(v, 1)
		in.fput(ptr(a[0]), x.sqrt(v))
		return nil
	})
	// FldNonSquare states the fact that u^2 = n v^2 only for u = v = 0, n not a square
	h("FldNonSquare", func(in *Interp, x *FldCtx, a []Value) Value {
		u, v, n := in.fget(ptr(a[0])), in.fget(ptr(a[1])), in.fget(ptr(a[2]))
		if !n.isConst() || big.Jacobi(n.c, fldQ) != -1 {
			unsup("FldNonSquare: not a non-square")
		}
		zero := func(v *FVal) bool { return x.isZero(v) }
		if x.known(u) != 0 && zero(v) {
			if !zero(u) {
				return nil
			}
			return nil
		}
		d := x.add(x.mul(u, u), x.mul(n, x.mul(v, v)), -1)
		if d.c.Sign() == 0 {
			x.infeasible()
		}
		for _, g := range d.f {
			if g.e > 0 {
				x.assumeNZ(g.p)
			}
		}
		return nil
	})
	// FldChi states that the characters of two nonzero values satisfy chi(u)chi(v) = chi(c) because u v = c w^2
	h("FldChi", func(in *Interp, x *FldCtx, a []Value) Value {
		u, v, w, c := in.fget(ptr(a[0])), in.fget(ptr(a[1])), in.fget(ptr(a[2])), in.fget(ptr(a[3]))
		if !c.isConst() {
			unsup("FldChi: not a constant")
		}
		if x.known(x.add(x.mul(u, v), x.mul(c, x.mul(w, w)), -1)) != 1 {
			unsup("FldChi: not a square relation")
		}
		if x.isZero(u) || x.isZero(v) {
			return nil
		}
		x.chiIs(x.mul(u, v), big.Jacobi(c.c, fldQ))
		return nil
	})
	// FldRoot states that v = w^2, w not zero: SquareRoot of v gives w or -w
	h("FldRoot", func(in *Interp, x *FldCtx, a []Value) Value {
		v, w := in.fget(ptr(a[0])), in.fget(ptr(a[1]))
		if x.known(x.add(v, x.mul(w, w), -1)) != 1 {
			unsup("FldRoot: not a square")
		}
		if x.isZero(w) {
			return nil
		}
		x.chiIs(v, 1)
		x.roots = append(x.roots, rootRec{v, w})
		return nil
	})
	// FldIsZero tells whether *p is known to be zero, without a case distinction
	h("FldKnownZero", func(in *Interp, x *FldCtx, a []Value) Value { return x.known(in.fget(ptr(a[0]))) == 1 })
}

// dump is for debugging.
func (p *Poly) dump() string {
	s := ""
	for _, t := range p.t {
		c := t.c
		if n := new(big.Int).Sub(fldQ, c); n.Cmp(c) < 0 {
			c = n.Neg(n)
		}
		cs := c.String()
		if len(cs) > 8 {
			cs = cs[:8] + ".."
		}
		s += " " + cs
		for i, e := range t.m {
			if e > 0 {
				s += fmt.Sprintf("*v%d^%d", i, e)
			}
		}
	}
	return s
}
