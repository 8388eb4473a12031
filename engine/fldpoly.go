package main

// Polynomials over the base field and ideals of them.

import (
	"math/big"
	"sort"
	"strings"
)

const (
	nPlain = 16 // ordinary variables
	nVars  = 24 // the others are roots, ordered above
)

var fldQ, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

type fmono [nVars]uint8

func (m fmono) deg(lo, hi int) int {
	d := 0
	for i := lo; i < hi; i++ {
		d += int(m[i])
	}
	return d
}

// cmp: graded reverse lexicographic in the roots first, then in the ordinary variables.
func (a fmono) cmp(b fmono) int {
	for _, r := range [2][2]int{{nPlain, nVars}, {0, nPlain}} {
		da, db := a.deg(r[0], r[1]), b.deg(r[0], r[1])
		if da != db {
			if da > db {
				return 1
			}
			return -1
		}
		for i := r[1] - 1; i >= r[0]; i-- {
			if a[i] != b[i] {
				if a[i] < b[i] {
					return 1
				}
				return -1
			}
		}
	}
	return 0
}

func (a fmono) mul(b fmono) fmono {
	for i := range a {
		a[i] += b[i]
	}
	return a
}

func (a fmono) divides(b fmono) bool {
	for i := range a {
		if a[i] > b[i] {
			return false
		}
	}
	return true
}

func (b fmono) div(a fmono) fmono {
	for i := range a {
		b[i] -= a[i]
	}
	return b
}

func (a fmono) lcm(b fmono) fmono {
	for i := range a {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
	return a
}

func (a fmono) coprime(b fmono) bool {
	for i := range a {
		if a[i] > 0 && b[i] > 0 {
			return false
		}
	}
	return true
}

type pterm struct {
	m fmono
	c *big.Int // in [1, q)
}

// Poly has its terms in descending order.
type Poly struct {
	t   []pterm
	key string
}

func polyConst(c *big.Int) *Poly {
	c = new(big.Int).Mod(c, fldQ)
	if c.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{t: []pterm{{fmono{}, c}}}
}

func polyVar(i int) *Poly {
	var m fmono
	m[i] = 1
	return &Poly{t: []pterm{{m, big.NewInt(1)}}}
}

func (p *Poly) isZero() bool { return len(p.t) == 0 }
func (p *Poly) isConst() bool {
	return len(p.t) == 0 || (len(p.t) == 1 && p.t[0].m == fmono{})
}
func (p *Poly) constVal() *big.Int {
	if len(p.t) == 0 {
		return new(big.Int)
	}
	return p.t[0].c
}

func polyFromMap(acc map[fmono]*big.Int) *Poly {
	r := &Poly{}
	for m, c := range acc {
		c.Mod(c, fldQ)
		if c.Sign() != 0 {
			r.t = append(r.t, pterm{m, c})
		}
	}
	sort.Slice(r.t, func(i, j int) bool { return r.t[i].m.cmp(r.t[j].m) > 0 })
	return r
}

// axpy returns p + c*m*g.
func (p *Poly) axpy(c *big.Int, m fmono, g *Poly) *Poly {
	r := &Poly{t: make([]pterm, 0, len(p.t)+len(g.t))}
	i, j := 0, 0
	for i < len(p.t) || j < len(g.t) {
		var k int
		var gm fmono
		if j < len(g.t) {
			gm = g.t[j].m.mul(m)
		}
		switch {
		case i >= len(p.t):
			k = -1
		case j >= len(g.t):
			k = 1
		default:
			k = p.t[i].m.cmp(gm)
		}
		if k > 0 {
			r.t = append(r.t, p.t[i])
			i++
			continue
		}
		v := new(big.Int).Mul(c, g.t[j].c)
		if k == 0 {
			v.Add(v, p.t[i].c)
			i++
		}
		v.Mod(v, fldQ)
		if v.Sign() != 0 {
			r.t = append(r.t, pterm{gm, v})
		}
		j++
	}
	return r
}

func (p *Poly) add(g *Poly) *Poly { return p.axpy(big.NewInt(1), fmono{}, g) }
func (p *Poly) sub(g *Poly) *Poly { return p.axpy(big.NewInt(-1), fmono{}, g) }
func (p *Poly) scale(c *big.Int) *Poly {
	return (&Poly{}).axpy(c, fmono{}, p)
}

func (p *Poly) mul(g *Poly) *Poly {
	if len(p.t) == 1 {
		return (&Poly{}).axpy(p.t[0].c, p.t[0].m, g)
	}
	if len(g.t) == 1 {
		return (&Poly{}).axpy(g.t[0].c, g.t[0].m, p)
	}
	acc := map[fmono]*big.Int{}
	var tmp big.Int
	for _, a := range p.t {
		for _, b := range g.t {
			m := a.m.mul(b.m)
			tmp.Mul(a.c, b.c)
			if v, ok := acc[m]; ok {
				v.Add(v, &tmp)
			} else {
				acc[m] = new(big.Int).Set(&tmp)
			}
		}
	}
	return polyFromMap(acc)
}

func (p *Poly) monic() (*Poly, *big.Int) {
	if p.isZero() {
		return p, big.NewInt(1)
	}
	lc := p.t[0].c
	if lc.IsInt64() && lc.Int64() == 1 {
		return p, lc
	}
	return p.scale(new(big.Int).ModInverse(lc, fldQ)), lc
}

func (p *Poly) str() string {
	if p.key != "" {
		return p.key
	}
	if len(p.t) == 0 {
		return "0"
	}
	var sb strings.Builder
	for _, t := range p.t {
		b := t.c.Bytes()
		sb.WriteByte(byte(len(b)))
		sb.Write(b)
		sb.Write(t.m[:])
	}
	p.key = sb.String()
	return p.key
}

// content is the largest monomial dividing p.
func (p *Poly) content() fmono {
	var r fmono
	if len(p.t) == 0 {
		return r
	}
	r = p.t[0].m
	for _, t := range p.t[1:] {
		for i := range r {
			if t.m[i] < r[i] {
				r[i] = t.m[i]
			}
		}
	}
	return r
}

func (p *Poly) divMono(m fmono) *Poly {
	r := &Poly{t: make([]pterm, len(p.t))}
	for i, t := range p.t {
		r.t[i] = pterm{t.m.div(m), t.c}
	}
	return r
}

// divExact returns p/g if g (monic) divides p.
func (p *Poly) divExact(g *Poly) (*Poly, bool) {
	if g.isZero() || g.isConst() {
		return nil, false
	}
	quo := &Poly{}
	for !p.isZero() {
		if !g.t[0].m.divides(p.t[0].m) {
			return nil, false
		}
		m := p.t[0].m.div(g.t[0].m)
		c := p.t[0].c
		quo.t = append(quo.t, pterm{m, c})
		p = p.axpy(new(big.Int).Neg(c), m, g)
	}
	return quo, true
}

func (p *Poly) vars() (r [nVars]bool) {
	for _, t := range p.t {
		for i, e := range t.m {
			if e > 0 {
				r[i] = true
			}
		}
	}
	return
}

// puse is a multiple of a generator that took part in a reduction.
type puse struct {
	g *Poly
	m fmono
	c *big.Int
}

// reduce returns the normal form of p modulo basis (monic elements) and what was used.
func reduce(p *Poly, basis []*Poly, track bool) (*Poly, []puse) {
	var uses []puse
	out := &Poly{}
	steps := 0
	for !p.isZero() {
		lt := p.t[0]
		hit := false
		for _, g := range basis {
			if g.t[0].m.divides(lt.m) {
				m := lt.m.div(g.t[0].m)
				if track {
					uses = append(uses, puse{g, m, lt.c})
				}
				p = p.axpy(new(big.Int).Neg(lt.c), m, g)
				hit = true
				break
			}
		}
		if !hit {
			out.t = append(out.t, lt)
			p = &Poly{t: p.t[1:]}
		}
		if steps++; steps > 200000 {
			panic(pathAbort{"polynomial too large"})
		}
	}
	return out, uses
}
