package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"
)

type decision struct {
	tag  uint64
	val  uint64
	excl []uint64
	open bool // value still to be chosen, excluding excl
	fix  bool // facts were derived before this decision (int mode)
}

type inputRec struct {
	Name string
	Kind string
	t    *Term
	v    Value
}

type Path struct {
	in                       *Interp
	c                        *TermCtx
	sol                      *Solver
	h                        *Harness
	ex                       *Explorer
	prefix                   []decision
	pos                      int
	trace                    []decision
	pc                       []*Term
	sent                     int
	known                    map[*Term]bool
	lin                      *LinCtx
	bv                       *bvCtx
	fld                      *FldCtx
	doms                     map[*Term]*[4]uint64
	multi                    map[*Term]bool
	inputs                   []inputRec
	pend                     []Work
	obs                      []string
	reach                    map[string]bool
	nUnknown                 int // undecided queries of solUnsat
	nLemmas                  int
	ghostSeq                 int        // contract invocations so far
	concrete                 []*big.Int // replay values (concrete engine run)
	concPos                  int
	asserts                  int
	failed                   []Failure
	inconcl                  []string
	splits                   int
	branches                 int
	nObl, nDone, nEval, nDom int
	script                   []string
}

func (p *Path) addObl(discharged, byEval bool) {
	p.nObl++
	if discharged {
		p.nDone++
		if byEval {
			p.nEval++
		}
	}
}

type Failure struct {
	msg    string
	inputs []*big.Int
	kinds  []string
	names  []string
	approx bool
	named  map[string][]string // fld mode
}

func newPath(ex *Explorer, in *Interp, sol *Solver, h *Harness, prefix []decision) *Path {
	p := &Path{ex: ex, in: in, sol: sol, h: h, prefix: prefix, c: newTermCtx(), known: map[*Term]bool{}, doms: map[*Term]*[4]uint64{}, multi: map[*Term]bool{}, reach: map[string]bool{}}
	p.lin = newLinCtx(p)
	p.bv = &bvCtx{p: p, done: map[*Term]string{}}
	p.fld = newFldCtx(p)
	return p
}

func (p *Path) intMode() bool { return p.h.mode == "int" }

func (p *Path) numSort() string {
	if p.h.opts["sort"] == "Int" {
		return "Int"
	}
	return "Real"
}

// solSend sends to the solver in int mode.
func (p *Path) solSend(s string) {
	if p.intMode() {
		p.sol.send(s)
		p.script = append(p.script, s)
	}
}

// intFallback repeats a query of the relaxation with integer sorts in a fresh solver.
func (p *Path) intFallback(cond string) (string, []*big.Int) {
	if p.numSort() == "Int" || p.ex.expired.Load() || p.h.nFallback.Add(1) > 40 {
		return "unknown", nil
	}
	var sb strings.Builder
	for _, l := range p.script {
		if strings.HasPrefix(l, "(declare-const ") {
			i := strings.Index(l, " Real)")
			l = l[:i] + " Int)" + l[i+6:]
		}
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	sb.WriteString("(assert " + cond + ")")
	type ans struct {
		s *Solver
		r string
	}
	ch := make(chan ans, 3)
	var all []*Solver
	for i, name := range []string{solverBin, solverBin, "z3"} {
		s := &Solver{timeout: p.ex.timeoutMs, name: name, oneShot: true}
		s.start()
		all = append(all, s)
		if i == 1 {
			s.send("(set-option :smt.arith.solver 2)")
		}
		s.send(sb.String())
		go func() { ch <- ans{s, s.check()} }()
	}
	defer func() {
		for _, s := range all {
			s.kill()
		}
	}()
	t0 := time.Now()
	var s *Solver
	r := "unknown"
	for range all {
		a := <-ch
		if a.r == "sat" || a.r == "unsat" {
			s, r = a.s, a.r
			break
		}
	}
	if d := os.Getenv("VSYM_FALLBACK"); d != "" {
		os.WriteFile(fmt.Sprintf("%s.%s.%d.smt2", d, r, p.h.nFallback.Load()), []byte(strings.Join(p.script, "\n")+"\n(assert "+cond+")\n(check-sat)\n"), 0o644)
	}
	p.sol.queries++
	p.sol.time += time.Since(t0)
	if r != "sat" {
		return r, nil
	}
	old := p.sol
	p.sol = s
	defer func() { p.sol = old }()
	return r, p.model()
}

// solUnsat asks whether the path condition together with cond is unsatisfiable (int mode).
func (p *Path) solUnsat(cond string) bool {
	if p.ex.expired.Load() {
		panic(pathAbort{"time or memory limit"})
	}
	p.lin.emitMonos()
	p.sol.send("(push)")
	p.sol.send("(assert " + cond + ")")
	r := p.sol.check()
	p.sol.send("(pop)")
	if r == "unknown" {
		p.nUnknown++
	}
	return r == "unsat"
}

func tagOf(t *Term) uint64 {
	h := uint64(1469598103934665603)
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		h = (h ^ uint64(t.op)) * 1099511628211
		h = (h ^ t.u ^ uint64(t.w)<<32) * 1099511628211
		if d == 0 {
			return
		}
		for _, a := range t.args {
			rec(a, d-1)
		}
	}
	rec(t, 4)
	return h
}

// ---- domains of small variables (exact for single-variable constraints)

func (p *Path) domOf(v *Term) *[4]uint64 {
	if d, ok := p.doms[v]; ok {
		return d
	}
	d := &[4]uint64{}
	lo, hi := uint64(0), mask(v.w)
	if v.sort == SBool {
		hi = 1
	}
	if v.lo != nil && v.sort == SBV {
		lo, hi = v.lo.Uint64(), v.hi.Uint64()
	}
	for i := lo; i <= hi; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	p.doms[v] = d
	return d
}

func (p *Path) small(t *Term) bool {
	return t.nvars == 1 && (t.dom.sort == SBool || (t.dom.sort == SBV && t.dom.w <= 8)) && t.sort == SBool
}

func (p *Path) truth(t *Term) []uint64 {
	if t.evalT != nil {
		return t.evalT
	}
	r := make([]uint64, 4)
	d := p.domOf(t.dom)
	n := uint64(256)
	if t.dom.sort == SBool {
		n = 2
	} else {
		n = mask(t.dom.w) + 1
	}
	_ = d
	for v := uint64(0); v < n; v++ {
		if evalSmall(t, v) != 0 {
			r[v>>6] |= 1 << (v & 63)
		}
	}
	t.evalT = r
	return r
}

func evalSmall(t *Term, v uint64) uint64 {
	if t.op == OConst {
		if t.sort == SInt {
			return t.k.Uint64()
		}
		return t.u
	}
	if t.op == OVar {
		return v
	}
	if t.sort == SInt || t.args[0].sort == SInt {
		r := evalTerm(t, map[*Term]*big.Int{t.dom: new(big.Int).SetUint64(v)}, map[*Term]*big.Int{})
		return new(big.Int).And(r, new(big.Int).SetUint64(^uint64(0))).Uint64()
	}
	var a [3]uint64
	for i, x := range t.args {
		a[i] = evalSmall(x, v)
	}
	r, ok := evalBV(t.op, t.w, t.args[0].w, a[:len(t.args)])
	if !ok {
		unsup("evalSmall %s", opNames[t.op])
	}
	return r
}

// feasible: 1 yes (or unknown), 0 no.
func (p *Path) feasible(t *Term) bool {
	if p.h.mode == "fld" && hasFld(t) {
		return p.fld.feasible(t)
	}
	if p.intMode() {
		f := p.lin.form(t)
		switch f.k {
		case fTrue:
			return true
		case fFalse:
			return false
		}
		p.lin.emitMonos()
		return !p.solUnsat(p.lin.smtForm(f))
	}
	if p.small(t) {
		d := p.domOf(t.dom)
		tr := p.truth(t)
		any := false
		for i := range d {
			if d[i]&tr[i] != 0 {
				any = true
			}
		}
		p.nDom++
		if !any {
			return false
		}
		if !p.multi[t.dom] {
			return true
		}
	}
	return p.checkBV(t) != "unsat"
}

func (p *Path) flushBV() {
	for ; p.sent < len(p.pc); p.sent++ {
		if hasFld(p.pc[p.sent]) {
			continue
		}
		e := p.bv.emit(p.pc[p.sent])
		p.sol.send("(assert " + e + ")")
	}
}

func (p *Path) checkBV(t *Term) string {
	p.flushBV()
	e := p.bv.emit(t)
	p.sol.send("(push)")
	p.sol.send("(assert " + e + ")")
	r := p.sol.check()
	p.sol.send("(pop)")
	return r
}

// assume adds a condition known or required to hold on this path.
func (p *Path) assume(t *Term) {
	if t.isConst() {
		if t.u == 0 {
			panic(pathAbort{"infeasible"})
		}
		return
	}
	if t.op == OBAnd {
		p.assume(t.args[0])
		p.assume(t.args[1])
		p.known[t] = true
		return
	}
	p.pc = append(p.pc, t)
	p.known[t] = true
	p.known[p.c.not(t)] = false
	if p.h.mode == "fld" && hasFld(t) {
		p.fld.assume(t)
		return
	}
	if p.intMode() {
		p.lin.assume(p.lin.form(t))
		return
	}
	if p.small(t) {
		d := p.domOf(t.dom)
		tr := p.truth(t)
		any := false
		for i := range d {
			d[i] &= tr[i]
			if d[i] != 0 {
				any = true
			}
		}
		if !any {
			panic(pathAbort{"infeasible"})
		}
	} else {
		p.markMulti(t, map[*Term]bool{})
	}
}

func (p *Path) markMulti(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		p.multi[t] = true
	}
	for _, a := range t.args {
		p.markMulti(a, seen)
	}
}

func (p *Path) branch(t *Term) bool {
	if t.isConst() {
		return t.u != 0
	}
	if p.ex.expired.Load() {
		panic(pathAbort{"time or memory limit"})
	}
	if v, ok := p.known[t]; ok {
		return v
	}
	if p.h.mode == "fld" && hasFld(t) {
		if r, ok := p.fld.decide(t); ok {
			return r
		}
	}
	if p.intMode() {
		switch f := p.lin.form(t); f.k {
		case fTrue:
			return true
		case fFalse:
			return false
		}
	}
	nt := p.c.not(t)
	tag := tagOf(t)
	p.branches++
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.tag != tag {
			panic(pathAbort{"desync"})
		}
		p.pos++
		p.trace = append(p.trace, d)
		if d.fix {
			// the same facts as when this decision was made
			p.lin.rlt()
			p.lin.fixAtoms(p.lin.form(t))
		}
		if d.val != 0 {
			p.assume(t)
			return true
		}
		p.assume(nt)
		return false
	}
	if len(p.trace) > p.ex.maxDepth {
		panic(pathAbort{"decision limit"})
	}
	fix := false
	a, b := p.feasible(t), false
	if a {
		b = p.feasible(nt)
	} else {
		b = true
	}
	if a && b && p.intMode() {
		// both sides survive the relaxation: try again after deriving more facts
		x := p.lin
		x.rlt()
		x.fixAtoms(x.form(t))
		fix = true
		if !p.feasible(t) {
			a = false
		} else if !p.feasible(nt) {
			b = false
		}
	}
	if a && b {
		alt := append(append([]decision(nil), p.trace...), decision{tag: tag, val: 0, fix: fix})
		p.pend = append(p.pend, Work{p.h, alt})
	}
	d := decision{tag: tag, fix: fix}
	if a {
		d.val = 1
	}
	p.trace = append(p.trace, d)
	p.pos++
	if a {
		p.assume(t)
		return true
	}
	p.assume(nt)
	return false
}

// choose explores all n alternatives.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	tag := uint64(n) * 7919
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.tag != tag {
			panic(pathAbort{"desync"})
		}
		p.pos++
		p.trace = append(p.trace, d)
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		alt := append(append([]decision(nil), p.trace...), decision{tag: tag, val: uint64(i)})
		p.pend = append(p.pend, Work{p.h, alt})
	}
	p.trace = append(p.trace, decision{tag: tag})
	p.pos++
	return 0
}

// concretize forks over all feasible values of a bit-vector term.
func (p *Path) concretize(t *Term) uint64 {
	if t.op == OBitLen {
		return p.in.forceBitLen(t).(uint64)
	}
	if t.isConst() {
		return t.u
	}
	eqT := func(v uint64) *Term { return p.c.op(OEq, SBool, 0, t, p.c.bv(t.w, v)) }
	tag := tagOf(t) ^ 0xC0C0
	var excl []uint64
	if p.intMode() {
		l := p.lin.lower(t)
		if l.isConst() {
			return l.k.Uint64()
		}
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		if d.tag != tag {
			panic(pathAbort{"desync"})
		}
		if !d.open {
			p.pos++
			p.trace = append(p.trace, d)
			p.assume(eqT(d.val))
			return d.val
		}
		excl = d.excl
	}
	for _, e := range excl {
		p.assume(p.c.not(eqT(e)))
	}
	var val uint64
	more := true
	if p.intMode() {
		l := p.lin.lower(t)
		lo, hi := p.lin.rangeOf(l)
		if new(big.Int).Sub(hi, lo).Cmp(big.NewInt(4096)) > 0 {
			unsup("concretisation of a wide symbolic value")
		}
		found := false
		more = false
		for v := new(big.Int).Set(lo); v.Cmp(hi) <= 0; v.Add(v, bigOne) {
			ex := false
			for _, e := range excl {
				if v.Cmp(new(big.Int).SetUint64(e)) == 0 {
					ex = true
				}
			}
			if ex {
				continue
			}
			if !found {
				if p.feasible(eqT(v.Uint64())) {
					found = true
					val = v.Uint64()
				}
			} else {
				more = true
				break
			}
		}
		if !found {
			panic(pathAbort{"infeasible"})
		}
	} else if t.nvars == 1 && p.small(p.c.op(OEq, SBool, 0, t, p.c.bv(t.w, 0))) && !p.multi[t.dom] {
		d := p.domOf(t.dom)
		vals := map[uint64]bool{}
		var list []uint64
		for v := uint64(0); v < 256; v++ {
			if d[v>>6]>>(v&63)&1 == 1 {
				r := evalSmall(t, v)
				if !vals[r] {
					vals[r] = true
					list = append(list, r)
				}
			}
		}
		if len(list) == 0 {
			panic(pathAbort{"infeasible"})
		}
		sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
		val = list[0]
		more = len(list) > 1
	} else {
		p.flushBV()
		e := p.bv.emit(t)
		if r := p.sol.check(); r != "sat" {
			if r == "unsat" {
				panic(pathAbort{"infeasible"})
			}
			panic(pathAbort{"unknown in concretisation"})
		}
		v, ok := parseValue(p.sol.eval(e))
		if !ok {
			unsup("model value")
		}
		val = v.Uint64()
		more = p.checkBV(p.c.not(eqT(val))) != "unsat"
	}
	if len(excl) > p.ex.maxConc {
		panic(pathAbort{"concretisation limit"})
	}
	if more {
		alt := append(append([]decision(nil), p.trace...), decision{tag: tag, open: true, excl: append(append([]uint64(nil), excl...), val)})
		p.pend = append(p.pend, Work{p.h, alt})
	}
	p.trace = append(p.trace, decision{tag: tag, val: val})
	p.pos = len(p.trace)
	p.assume(eqT(val))
	return val
}

// forkAtom splits the path on the value of a small-range atom (int mode).
func (p *Path) forkAtom(a *atom) {
	n := int(spread(a).Int64()) + 1
	lo := new(big.Int).Set(a.lo)
	i := p.choose(n)
	v := new(big.Int).Add(lo, big.NewInt(int64(i)))
	p.sol.send("(assert (= " + a.name + " " + smtInt(v) + "))")
	if p.sol.check() == "unsat" {
		panic(pathAbort{"infeasible"})
	}
	a.lo, a.hi = v, v
	p.lin.ranged(a)
}

// assert checks that t holds for every value on this path.
func (p *Path) assert(t *Term, msg string) {
	p.asserts++
	if t.isConst() && t.u != 0 {
		p.addObl(true, true)
		return
	}
	if v, ok := p.known[t]; ok && v {
		p.addObl(true, true)
		return
	}
	if p.h.mode == "fld" && hasFld(t) {
		if p.fld.prove(t) {
			p.addObl(true, false)
			p.assume(t)
			return
		}
		p.fail(msg, nil, false)
		return
	}
	if p.intMode() {
		p.assertInt(t, msg, false)
		return
	}
	nt := p.c.not(t)
	p.flushBV()
	e := p.bv.emit(nt)
	p.sol.send("(push)")
	p.sol.send("(assert " + e + ")")
	r := p.sol.check()
	switch r {
	case "unsat":
		p.sol.send("(pop)")
		p.addObl(true, false)
		p.assume(t)
		return
	case "sat":
		m := p.model()
		p.sol.send("(pop)")
		p.addObl(false, false)
		p.fail(msg, m, false)
	default:
		p.sol.send("(pop)")
		p.addObl(false, false)
		p.inconcl = append(p.inconcl, "undecided: "+msg)
		p.fail(msg, nil, true)
	}
	p.assume(t)
}

func (p *Path) assertInt(t *Term, msg string, lemma bool) {
	x := p.lin
	for round := 0; ; round++ {
		f := x.form(t)
		x.emitMonos()
		if f.k == fTrue {
			p.addObl(true, false)
			p.assume(t)
			return
		}
		x.rlt()
		nf := formNot(x, f)
		if p.solUnsat(x.smtForm(nf)) {
			p.addObl(true, false)
			p.assume(t)
			return
		}
		for _, c := range p.pc {
			if x.form(c).k == fFalse {
				panic(pathAbort{"infeasible"}) // contradicts what was learnt later
			}
		}
		sf := f
		if f.k == fFalse {
			// the path itself has to be refuted: work on its conditions
			var fs []*Form
			for _, c := range p.pc {
				fs = append(fs, x.form(c))
			}
			sf = &Form{k: fAnd, args: fs}
		}
		if round < 40 && x.fixAtoms(sf) { // bounded: a fixed quotient can give rise to another one
			continue
		}
		// split on a small-range atom of the goal
		if p.splits < p.ex.maxSplits {
			var pick *atom
			for _, a := range x.directAtoms(sf) {
				if a.floor && a.sub == nil && spread(a).Cmp(bigThree) <= 0 {
					if pick == nil || spread(a).Cmp(spread(pick)) < 0 {
						pick = a
					}
				}
			}
			if pick == nil {
				for _, a := range x.support(sf) {
					if a.floor && a.sub == nil && spread(a).Cmp(bigThree) <= 0 {
						if pick == nil || spread(a).Cmp(spread(pick)) < 0 {
							pick = a
						}
					}
				}
			}
			if pick == nil && f.k == fFalse {
				for _, a := range x.support(sf) {
					if a.sub == nil && spread(a).Cmp(bigOne) <= 0 {
						pick = a
						break
					}
				}
			}
			if pick != nil {
				if os.Getenv("VSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "SPLIT %s %s: atom %s [%s,%s]\n", p.h.name, msg, pick.name, pick.lo, pick.hi)
					for _, a := range x.support(sf) {
						if a.floor {
							fmt.Fprintf(os.Stderr, "      %s [%s,%s] %s / %s\n", a.name, a.lo, a.hi, x.smt(x.norm(a.def)), a.M)
						}
					}
				}
				p.splits++
				p.forkAtom(pick)
				continue
			}
		}
		if os.Getenv("VSYM_DEBUG") != "" {
			s := x.smtForm(f)
			if len(s) > 3000 {
				s = s[:3000]
			}
			fmt.Fprintf(os.Stderr, "UNPROVED %s %s: %s\n", p.h.name, msg, s)
			for _, c := range p.pc {
				if cs := x.smtForm(x.form(c)); cs != "true" && len(cs) < 600 {
					fmt.Fprintf(os.Stderr, "   cond %s\n", cs)
				}
			}
			for _, a := range x.support(sf) {
				ds := ""
				if a.floor || a.rem {
					ds = x.smt(x.norm(a.def)) + " / " + a.M.String()
					if len(ds) > 400 {
						ds = ds[:400]
					}
				}
				fmt.Fprintf(os.Stderr, "   atom %s [%s,%s] %s\n", a.name, a.lo, a.hi, ds)
			}
		}
		if lemma {
			return // proved later, with more facts
		}
		if len(p.h.cuts) > 0 || len(p.h.repl) > 0 || p.numSort() != "Int" {
			if m := p.dive(msg, x.smtForm(nf)); m != nil {
				p.addObl(false, false)
				p.fail(msg, m, true)
				return
			}
		}
		if r, m := p.intFallback(x.smtForm(nf)); r == "unsat" {
			p.addObl(true, false)
			p.assume(t)
			return
		} else if r == "sat" {
			p.addObl(false, false)
			p.fail(msg, m, true)
			return
		}
		// candidate values from the relaxed model
		p.sol.send("(push)")
		p.sol.send("(assert " + x.smtForm(nf) + ")")
		r := p.sol.check()
		var m []*big.Int
		if r == "sat" {
			m = p.model()
		}
		p.sol.send("(pop)")
		if r == "unsat" {
			p.addObl(true, false)
			p.assume(t)
			return
		}
		p.addObl(false, false)
		p.fail(msg, m, true)
		return
	}
}

// model reads the values of all inputs after a sat answer.
func (p *Path) model() []*big.Int {
	var out []*big.Int
	for _, in := range p.inputs {
		if in.t == nil {
			switch v := in.v.(type) {
			case uint64:
				out = append(out, new(big.Int).SetUint64(v))
			case int:
				out = append(out, big.NewInt(int64(v)))
			case bool:
				if v {
					out = append(out, big.NewInt(1))
				} else {
					out = append(out, new(big.Int))
				}
			default:
				out = append(out, new(big.Int))
			}
			continue
		}
		if in.t.sort == SFld {
			out = append(out, new(big.Int))
			continue
		}
		var name string
		if p.intMode() {
			if in.t.low == nil {
				lo := in.t.lo
				if lo == nil {
					lo = new(big.Int)
				}
				out = append(out, lo)
				continue
			}
			l := p.lin.norm(in.t.low.lin)
			name = p.lin.smt(l)
		} else {
			var ok bool
			name, ok = p.bv.done[in.t]
			if !ok {
				out = append(out, p.domPick(in.t))
				continue
			}
		}
		s := p.sol.eval(name)
		v, ok := parseValue(s)
		if v == nil {
			v = new(big.Int)
		}
		_ = ok
		if in.t.sort == SInt && !p.intMode() {
			w := in.t.iw()
			if v.Bit(w-1) == 1 {
				v = new(big.Int).Sub(v, pow2(w))
			}
		}
		if in.t.lo != nil {
			if v.Cmp(in.t.lo) < 0 {
				v = in.t.lo
			}
			if v.Cmp(in.t.hi) > 0 {
				v = in.t.hi
			}
		}
		out = append(out, v)
	}
	return out
}

func (p *Path) domPick(t *Term) *big.Int {
	if d, ok := p.doms[t]; ok {
		// prefer printable values
		for _, r := range [][2]int{{'a', 'z' + 1}, {0, 256}} {
			for v := r[0]; v < r[1]; v++ {
				if d[v>>6]>>(uint(v)&63)&1 == 1 {
					return big.NewInt(int64(v))
				}
			}
		}
	}
	if t.lo != nil {
		return t.lo
	}
	return new(big.Int)
}

// anyModel returns concrete inputs for the current path.
func (p *Path) anyModel() ([]*big.Int, bool) {
	if p.intMode() {
		p.lin.emitMonos()
	} else {
		p.flushBV()
	}
	if p.sol.check() != "sat" {
		return nil, false
	}
	return p.model(), true
}

func (p *Path) fail(msg string, m []*big.Int, approx bool) {
	if os.Getenv("VSYM_FAIL") != "" {
		fmt.Fprintln(os.Stderr, "FAIL", p.h.name, msg, m, approx)
	}
	f := Failure{msg: msg, inputs: m, approx: approx}
	for _, in := range p.inputs {
		f.kinds = append(f.kinds, in.Kind)
		f.names = append(f.names, in.Name)
	}
	if p.h.mode == "fld" {
		f.named = p.fldNamed()
	}
	p.failed = append(p.failed, f)
}

func hasFld(t *Term) bool {
	if t.sort == SFld {
		return true
	}
	for _, a := range t.args {
		if a.sort == SFld || (a.sort == SBool && hasFld(a)) {
			return true
		}
	}
	return false
}

func (p *Path) inputString() string {
	var sb strings.Builder
	for _, in := range p.inputs {
		fmt.Fprintf(&sb, "%s ", in.Name)
	}
	return sb.String()
}
