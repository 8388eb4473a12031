package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Work is one unexplored decision prefix of a harness.
type Work struct {
	h      *Harness
	prefix []decision
}

// HStat accumulates what was explored for one harness.
type HStat struct {
	h                             *Harness
	Paths, Infeasible             int
	Branches, Obligations, Proved int
	ByEval, DomainQ               int
	Queries                       int
	SolverTime                    time.Duration
	Aborted                       map[string]int
	Reach                         map[string]int
	Fails                         []Failure
	samples                       []sample
	pending                       int
	steps                         int64
	firstAt                       time.Time
	lastAt                        time.Time
}

type sample struct {
	inputs []*big.Int
	names  []string
	kinds  []string
	named  map[string][]string // fld mode
}

type Explorer struct {
	prog      *Program
	mu        sync.Mutex
	cond      *sync.Cond
	queue     []Work
	active    int
	deadline  time.Time
	maxDepth  int
	maxConc   int
	maxSplits int
	maxSteps  int64
	timeoutMs int
	stats     map[*Harness]*HStat
	funcs     map[string]bool
	nSamples  int
	maxFails  int
	stopped   bool
	expired   atomic.Bool
}

func newExplorer(p *Program) *Explorer {
	ex := &Explorer{prog: p, maxDepth: 20000, maxConc: 300, maxSplits: 60, maxSteps: 30_000_000, timeoutMs: 20000,
		stats: map[*Harness]*HStat{}, funcs: map[string]bool{}, nSamples: 12, maxFails: 12}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) run(hs []*Harness, workers int) {
	for i := len(hs) - 1; i >= 0; i-- {
		ex.stats[hs[i]] = &HStat{h: hs[i], Aborted: map[string]int{}, Reach: map[string]int{}, pending: 1}
		ex.queue = append(ex.queue, Work{h: hs[i]})
	}
	fin := make(chan struct{})
	defer close(fin)
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-fin:
				return
			case <-t.C:
				if time.Now().After(ex.deadline) || rssMB() > 14000 {
					ex.expired.Store(true)
					ex.cond.Broadcast()
					return
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); ex.worker() }()
	}
	wg.Wait()
}

func (ex *Explorer) next() (Work, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.expired.Load() || time.Now().After(ex.deadline) {
			ex.cond.Broadcast()
			return Work{}, false
		}
		if n := len(ex.queue); n > 0 {
			w := ex.queue[n-1]
			ex.queue = ex.queue[:n-1]
			st := ex.stats[w.h]
			if len(st.Fails) >= ex.maxFails {
				st.pending--
				st.Aborted["failure limit"]++
				continue
			}
			ex.active++
			return w, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return Work{}, false
		}
		ex.cond.Wait()
	}
}

// rssMB is the resident memory of this process.
func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() / (1 << 20)
}

func newInterp(p *Program, fld bool) *Interp {
	in := &Interp{prog: p, globals: map[*ssa.Global]*Value{}, funcs: map[*ssa.Function]*cfunc{}, methodC: map[methKey]*ssa.Function{},
		implC: map[implKey]bool{}, inited: map[*ssa.Package]bool{}, used: map[string]bool{}, syncOnce: map[*Value]bool{}, locks: map[*Value]int{},
		fldMode: fld, maxSteps: 1 << 62}
	return in
}

// initAll runs the initialisers of the harness packages concretely.
func (in *Interp) initAll(hs []*Harness) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				err = fmt.Errorf("package initialisation: unsupported: %s", x.msg)
			case targetPanic:
				err = fmt.Errorf("package initialisation panics: %s", in.panicText(x))
			default:
				err = fmt.Errorf("package initialisation: %v\n%s", r, debug.Stack())
			}
		}
	}()
	for _, h := range hs {
		in.initPackage(h.fn.Pkg)
	}
	return nil
}

func (ex *Explorer) harnessList() []*Harness {
	var hs []*Harness
	for h := range ex.stats {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	return hs
}

func (ex *Explorer) worker() {
	hs := ex.harnessList()
	var plain, fld *Interp
	sol := newSolver(ex.timeoutMs)
	defer sol.close()
	for {
		w, ok := ex.next()
		if !ok {
			break
		}
		ip := &plain
		isF := w.h.mode == "fld"
		if isF {
			ip = &fld
		}
		if *ip == nil {
			*ip = newInterp(ex.prog, isF)
			if err := (*ip).initAll(hs); err != nil {
				ex.mu.Lock()
				ex.stats[w.h].Aborted[err.Error()]++
				ex.stats[w.h].pending--
				ex.active--
				ex.cond.Broadcast()
				ex.mu.Unlock()
				*ip = nil
				continue
			}
			(*ip).trailOn = true
			(*ip).used = map[string]bool{}
		}
		ex.runPath(*ip, sol, w)
	}
	ex.mu.Lock()
	for _, ip := range []*Interp{plain, fld} {
		if ip != nil {
			for f := range ip.used {
				ex.funcs[f] = true
			}
		}
	}
	ex.mu.Unlock()
}

func (h *Harness) optInt(name string, def int) int {
	if s, ok := h.opts[name]; ok {
		if v, err := strconv.Atoi(s); err == nil {
			return v
		}
	}
	return def
}

func (ex *Explorer) runPath(in *Interp, sol *Solver, w Work) {
	sol.bad = ""
	q0, t0 := sol.queries, sol.time
	sol.send("(push)")
	p := newPath(ex, in, sol, w.h, w.prefix)
	in.path = p
	in.steps = 0
	in.depth = 0
	in.maxSteps = int64(w.h.optInt("steps", int(ex.maxSteps)))
	start := time.Now()
	abort := ""
	infeasible := false
	var model []*big.Int
	haveModel := false
	var named map[string][]string
	var handle func(r any)
	// refute tries to show that a path of the relaxation which ends in a failure does not exist
	refute := func(msg string) {
		defer func() {
			if r := recover(); r != nil {
				handle(r)
			}
		}()
		p.assertInt(p.c.bool(false), msg, false)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				handle(r)
			}
		}()
		handle = func(r any) {
			switch x := r.(type) {
			case pathAbort:
				if x.why == "infeasible" {
					infeasible = true
					return
				}
				abort = x.why
				if x.why == "step limit" {
					if m, ok := safeModel(p); ok {
						p.fail("does not terminate within the step bound", m, true)
					}
				}
			case unsupported:
				abort = "unsupported: " + x.msg
			case assertFailed:
				if p.intMode() && p.concrete == nil {
					refute("assert: " + x.msg)
					return
				}
				p.addObl(false, false)
				m, ok := safeModel(p)
				p.fail("assert: "+x.msg, m, !ok)
			case targetPanic:
				in.depth = 0
				txt := func() (s string) {
					defer func() {
						if recover() != nil {
							s = "?"
						}
					}()
					return in.panicText(x)
				}()
				if p.intMode() && p.concrete == nil {
					refute("panic: " + txt)
					return
				}
				m, ok := safeModel(p)
				p.fail("panic: "+txt, m, !ok)
			default:
				abort = fmt.Sprintf("engine error: %v", r)
				if os.Getenv("VSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, abort)
					debug.PrintStack()
				}
			}
		}
		in.call(w.h.fn, nil, nil)
	}()
	if abort == "" && !infeasible && len(p.failed) == 0 {
		ex.mu.Lock()
		want := len(ex.stats[w.h].samples) < ex.nSamples
		ex.mu.Unlock()
		if want {
			model, haveModel = safeModel(p)
			if haveModel && w.h.mode == "fld" {
				named = p.fldNamed()
			}
		}
	}
	if os.Getenv("VSYM_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "PATH %s depth=%d br=%d steps=%d q=%d %.2fs abort=%q infeas=%v fails=%d\n", w.h.name, len(p.trace), p.branches, in.steps, sol.queries-q0, time.Since(start).Seconds(), abort, infeasible, len(p.failed))
	}
	in.undoAll()
	in.path = nil
	sol.send("(pop)")
	ex.mu.Lock()
	defer ex.mu.Unlock()
	st := ex.stats[w.h]
	if st.firstAt.IsZero() {
		st.firstAt = start
	}
	st.lastAt = time.Now()
	st.pending--
	if infeasible {
		st.Infeasible++
	} else {
		st.Paths++
	}
	if abort != "" {
		st.Aborted[abort]++
	}
	for _, s := range p.inconcl {
		st.Aborted[s]++
	}
	st.Branches += p.branches
	st.Obligations += p.nObl
	st.Proved += p.nDone
	st.ByEval += p.nEval
	st.DomainQ += p.nDom
	st.Queries += sol.queries - q0
	st.SolverTime += sol.time - t0
	st.steps += in.steps
	if !infeasible {
		for k := range p.reach {
			st.Reach[k]++
		}
	}
	st.Fails = append(st.Fails, p.failed...)
	if haveModel && len(st.samples) < ex.nSamples {
		s := sample{inputs: model}
		for _, r := range p.inputs {
			s.names = append(s.names, r.Name)
			s.kinds = append(s.kinds, r.Kind)
		}
		s.named = named
		st.samples = append(st.samples, s)
	}
	st.pending += len(p.pend)
	ex.queue = append(ex.queue, p.pend...)
	ex.active--
	ex.cond.Broadcast()
}

func safeModel(p *Path) (m []*big.Int, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			m, ok = nil, false
		}
	}()
	return p.anyModel()
}

// concreteRun executes a harness in the engine with fixed inputs.
func concreteRun(in *Interp, ex *Explorer, h *Harness, vals []*big.Int) (outcome string, obs []string) {
	p := newPath(ex, in, nil, h, nil)
	p.concrete = vals
	if vals == nil {
		p.concrete = []*big.Int{}
	}
	in.path = p
	in.steps, in.depth = 0, 0
	in.maxSteps = ex.maxSteps * 4
	outcome = "ok"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathAbort:
				outcome = "abort: " + x.why
				if x.why == "infeasible" {
					outcome = "assume"
				}
			case unsupported:
				outcome = "unsupported: " + x.msg
			case assertFailed:
				outcome = "assert: " + x.msg
			case targetPanic:
				outcome = "panic: " + in.panicText(x)
			default:
				outcome = fmt.Sprintf("engine error: %v", r)
			}
		}()
		in.call(h.fn, nil, nil)
	}()
	obs = p.obs
	in.undoAll()
	in.path = nil
	return
}
