package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// dive looks for an integer point of the relaxation that satisfies cond: it fixes one unknown after
// the other to an integer next to its value in the current model. A result is only a candidate
// (products of three or more unknowns are not tracked exactly); it is replayed on the real code.
func (p *Path) dive(msg, cond string) []*big.Int {
	n, _ := p.h.nDive.LoadOrStore(msg, new(atomic.Int32))
	if p.ex.expired.Load() || n.(*atomic.Int32).Add(1) > 40 || time.Duration(p.h.diveNs.Load()) > 400*time.Second {
		return nil
	}
	t0 := time.Now()
	defer func() { p.h.diveNs.Add(int64(time.Since(t0))) }()
	for order := 0; order < 2; order++ {
		if m := p.diveOrder(cond, order, time.Now().Add(40*time.Second)); m != nil {
			return m
		}
	}
	return nil
}

func (p *Path) diveOrder(cond string, order int, deadline time.Time) []*big.Int {
	x := p.lin
	x.emitMonos()
	p.sol.send("(push)")
	p.sol.send("(assert " + cond + ")")
	depth := 1
	defer func() { p.sol.send(fmt.Sprintf("(pop %d)", depth)) }()
	if p.sol.check() != "sat" {
		return nil
	}
	var as []*atom
	for _, a := range x.atoms {
		if a.sub == nil && a.lo.Cmp(a.hi) < 0 {
			as = append(as, a)
		}
	}
	// words of one value are created top word first; ghost values of later contracts go first
	grp := map[int]string{}
	for _, a := range as {
		if i := strings.LastIndex(a.name, "_g"); i >= 0 {
			grp[a.id] = a.name[i:]
		}
	}
	free := func(a *atom) bool { return !a.floor && !a.rem }
	sort.SliceStable(as, func(i, j int) bool {
		a, b := as[i], as[j]
		if free(a) != free(b) {
			return free(a)
		}
		if order == 0 && grp[a.id] != grp[b.id] {
			return grp[a.id] > grp[b.id]
		}
		return a.id < b.id
	})
	fixed := map[int]*big.Int{}
	for _, a := range as {
		if time.Now().After(deadline) {
			return nil
		}
		v := parseRat(p.sol.eval(a.name))
		if v == nil {
			return nil
		}
		fl := floorDiv(v.Num(), v.Denom())
		ok := false
		for _, c := range []*big.Int{fl, new(big.Int).Add(fl, bigOne), a.lo, a.hi} {
			if c.Cmp(a.lo) < 0 || c.Cmp(a.hi) > 0 {
				continue
			}
			p.sol.send("(push)")
			depth++
			p.sol.send("(assert (= " + a.name + " " + smtInt(c) + "))")
			for _, m := range x.monos {
				if len(m.atoms) != 2 {
					continue
				}
				o := -1
				if m.atoms[0] == a.id {
					o = m.atoms[1]
				} else if m.atoms[1] == a.id {
					o = m.atoms[0]
				}
				if o == a.id {
					p.sol.send("(assert (= " + m.name + " " + smtInt(new(big.Int).Mul(c, c)) + "))")
				} else if o >= 0 && x.atoms[o].sub == nil {
					p.sol.send("(assert (= " + m.name + " (* " + smtInt(c) + " " + x.atoms[o].name + ")))")
				}
			}
			if p.sol.check() == "sat" {
				ok = true
				fixed[a.id] = c
				break
			}
			p.sol.send("(pop)")
			depth--
		}
		if !ok {
			if os.Getenv("VSYM_DEBUG") != "" {
				for _, b := range as {
					fmt.Fprintf(os.Stderr, "   dv %s [%s,%s] %v\n", b.name, b.lo, b.hi, fixed[b.id])
				}
				fmt.Fprintln(os.Stderr, "   dv value", v.FloatString(5))
				fmt.Fprintf(os.Stderr, "dive stuck at %s after %d of %d (order %d)\n", a.name, len(fixed), len(as), order)
			}
			return nil
		}
	}
	return p.model()
}

func parseRat(s string) *big.Rat {
	// ((name value))
	i := 0
	for i < len(s) && s[i] == '(' {
		i++
	}
	for i < len(s) && s[i] != ' ' {
		i++
	}
	if i >= len(s) {
		return nil
	}
	v, _ := ratExpr(s[i:])
	return v
}

// ratExpr parses a number, (- e) or (/ e e).
func ratExpr(s string) (*big.Rat, string) {
	for len(s) > 0 && s[0] == ' ' {
		s = s[1:]
	}
	if s == "" {
		return nil, ""
	}
	if s[0] == '(' {
		s = s[1:]
		for len(s) > 0 && s[0] == ' ' {
			s = s[1:]
		}
		if s == "" {
			return nil, ""
		}
		op := s[0]
		a, r := ratExpr(s[1:])
		if a == nil {
			return nil, ""
		}
		if op == '/' {
			b, r2 := ratExpr(r)
			if b == nil || b.Sign() == 0 {
				return nil, ""
			}
			a, r = new(big.Rat).Quo(a, b), r2
		} else {
			a = new(big.Rat).Neg(a)
		}
		for len(r) > 0 && r[0] == ' ' {
			r = r[1:]
		}
		if len(r) > 0 && r[0] == ')' {
			r = r[1:]
		}
		return a, r
	}
	j := 0
	for j < len(s) && s[j] != ' ' && s[j] != ')' {
		j++
	}
	v, ok := new(big.Rat).SetString(s[:j])
	if !ok {
		return nil, ""
	}
	return v, s[j:]
}
