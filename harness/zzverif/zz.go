// Package zzverif is the interface between the verification harnesses and the
// symbolic engine. The engine intercepts every exported function; compiled
// natively, the functions below replay a recorded or generated input vector.
package zzverif

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
)

// Source provides the nondeterministic values in native runs.
type Source struct {
	Vals    []*big.Int // replayed values, in call order
	Rng     *rand.Rand // used once Vals is exhausted (search mode)
	Pos     int
	Drawn   []*big.Int
	Obs     []string
	Failed  string
	Reached map[string]bool
	Named   map[string][]*big.Int // values by the name of the input, in call order (used instead of Vals)
	name    string
	Keep    []*big.Int // candidate values, each kept with probability 3/4 in search mode
}

var Cur = &Source{Reached: map[string]bool{}}

type assumeFail struct{}
type AssertFail struct{ Msg string }

// corner values for words, chosen by the search mode
var Corners []uint64 = []uint64{0, 1, 2, 3, 0xffffffffffffffff, 0xfffffffffffffffe, 0x8000000000000000, 0x7fffffffffffffff, 0xffffffff00000000, 0x00000000ffffffff,
	0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48,
	0xfffffffe00000002, 0xa77b4805fffcb7fd, 0x6673b0101343b00a, 0xe7db4ea6533afa90,
	0x00000000fffffffe, 0x5884b7fa00034802, 0x998c4fefecbc4ff5, 0x1824b159acc5056f}

// BigCorners are corner values for integer inputs (clamped to the requested range).
var BigCorners []*big.Int

func draw(lo, hi *big.Int) *big.Int {
	s := Cur
	var v *big.Int
	if q := s.Named[s.name]; len(q) > 0 {
		v = q[0]
		s.Named[s.name] = q[1:]
	} else if s.Pos < len(s.Vals) {
		v = s.Vals[s.Pos]
	} else if s.Rng != nil {
		if s.Pos < len(s.Keep) && s.Rng.Intn(4) != 0 {
			v = s.Keep[s.Pos]
		} else {
			v = randIn(s.Rng, lo, hi)
		}
	} else {
		v = new(big.Int).Set(lo)
	}
	s.Pos++
	if v.Cmp(lo) < 0 || v.Cmp(hi) > 0 {
		// outside of the declared range: bring it back
		n := new(big.Int).Sub(hi, lo)
		n.Add(n, big.NewInt(1))
		v = new(big.Int).Mod(new(big.Int).Sub(v, lo), n)
		v.Add(v, lo)
	}
	s.Drawn = append(s.Drawn, v)
	return v
}

func randIn(r *rand.Rand, lo, hi *big.Int) *big.Int {
	n := new(big.Int).Sub(hi, lo)
	n.Add(n, big.NewInt(1))
	if n.BitLen() <= 5 {
		v := new(big.Int).Rand(r, n)
		return v.Add(v, lo)
	}
	switch r.Intn(8) {
	case 0, 1, 2: // corner
		if n.BitLen() <= 66 {
			v := new(big.Int).SetUint64(Corners[r.Intn(len(Corners))] + uint64(r.Intn(3)) - 1)
			if v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
				return v
			}
		} else if len(BigCorners) > 0 {
			v := new(big.Int).Add(BigCorners[r.Intn(len(BigCorners))], big.NewInt(int64(r.Intn(5))-2))
			if v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
				return v
			}
		}
		fallthrough
	case 3: // near the ends
		d := big.NewInt(int64(r.Intn(4)))
		if r.Intn(2) == 0 {
			return d.Add(lo, d)
		}
		return d.Sub(hi, d)
	case 4: // random bit length
		k := r.Intn(n.BitLen()) + 1
		v := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(k)))
		v.Mod(v, n)
		return v.Add(v, lo)
	default:
		v := new(big.Int).Rand(r, n)
		return v.Add(v, lo)
	}
}

func u(hi uint64) uint64 {
	return draw(new(big.Int), new(big.Int).SetUint64(hi)).Uint64()
}

// U64 returns an arbitrary word.
func U64(name string) uint64 { return u(0xffffffffffffffff) }

// Ghost is an arbitrary word that is not an input (only for contracts that answer calls).
func Ghost(name string) uint64 { panic("ghost value in a native run") }

// GhostInt is an arbitrary integer in [lo,hi] that is not an input.
func GhostInt(name string, lo, hi *big.Int) *big.Int { panic("ghost value in a native run") }

// GhostChoice is an arbitrary value in [0,n) that is not an input; every value is explored separately.
func GhostChoice(name string, n int) int { panic("ghost value in a native run") }
func U32(name string) uint32             { return uint32(u(0xffffffff)) }
func U16(name string) uint16             { return uint16(u(0xffff)) }
func U8(name string) uint8               { return uint8(u(0xff)) }
func I64(name string) int64              { return int64(u(0xffffffffffffffff)) }
func Bool(name string) bool              { return u(1) == 1 }

// Choice returns an arbitrary value in [0,n); the engine explores every value separately.
func Choice(name string, n int) int {
	Cur.name = name
	defer func() { Cur.name = "" }()
	return int(draw(new(big.Int), big.NewInt(int64(n-1))).Int64())
}

// Int returns an arbitrary mathematical integer in [lo,hi].
func Int(name string, lo, hi *big.Int) *big.Int {
	Cur.name = name
	defer func() { Cur.name = "" }()
	return new(big.Int).Set(draw(lo, hi))
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = U8(name)
	}
	return r
}

// String returns a string of n arbitrary bytes out of alphabet (all bytes if alphabet is empty).
func String(name string, n int, alphabet string) string {
	r := make([]byte, n)
	for i := range r {
		if alphabet == "" {
			r[i] = U8(name)
		} else {
			s := Cur
			if s.Pos < len(s.Vals) {
				r[i] = U8(name)
			} else if s.Rng != nil {
				r[i] = alphabet[s.Rng.Intn(len(alphabet))]
				s.Pos++
				s.Drawn = append(s.Drawn, big.NewInt(int64(r[i])))
			} else {
				r[i] = alphabet[0]
				s.Pos++
				s.Drawn = append(s.Drawn, big.NewInt(int64(r[i])))
			}
			ok := false
			for j := 0; j < len(alphabet); j++ {
				if alphabet[j] == r[i] {
					ok = true
				}
			}
			Assume(ok)
		}
	}
	return string(r)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

// Assert states the property.
// Lemma is an intermediate claim: used if it is proved, ignored otherwise.
func Lemma(c bool, msg string) {}

func Assert(c bool, msg string) {
	if !c {
		panic(AssertFail{msg})
	}
}

// Reach is a vacuity witness: some feasible path must get here.
func Reach(label string) { Cur.Reached[label] = true }

// Observe records values for the comparison of the engine with the compiled code.
func Observe(label string, vals ...any) {
	s := label
	for _, v := range vals {
		s += fmt.Sprintf(" %v", v)
	}
	Cur.Obs = append(Cur.Obs, s)
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			r := recover()
			switch r.(type) {
			case assumeFail, AssertFail:
				panic(r)
			}
		}
	}()
	f()
	panicked = false
	return
}

// PanicValue runs f and also returns the value it panicked with.
func PanicValue(f func()) (panicked bool, val any) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
			switch val.(type) {
			case assumeFail, AssertFail:
				panic(val)
			}
		}
	}()
	f()
	panicked = false
	return
}

// IsSymbolic reports whether the program runs under the symbolic engine.
func IsSymbolic() bool { return false }

var registry = map[string]func(){}

func Register(name string, f func()) { registry[name] = f }
func Get(name string) func()         { return registry[name] }
func Names() []string {
	var r []string
	for n := range registry {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// Run executes one harness natively and classifies the outcome.
// "ok", "assume", "assert: msg" or "panic: msg".
func Run(f func()) (outcome string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case assumeFail:
				outcome = "assume"
			case AssertFail:
				outcome = "assert: " + x.Msg
			default:
				outcome = fmt.Sprintf("panic: %v", r)
			}
		}
	}()
	f()
	return "ok"
}

// IsNative tells whether the compiled harness runs (and not the symbolic executor, on symbols or on given inputs).
func IsNative() bool { return true }

// The following belong to field mode (symbolic field elements) and do nothing in native runs.

// FldVar makes *p (a field element) arbitrary and returns true; false in native runs.
func FldVar(name string, p any) bool { return false }

// FldQueue makes *p the next element that is drawn at random.
func FldQueue(p any) {}

// FldZero and FldNonZero assume that *p is (not) zero.
func FldZero(p any)    {}
func FldNonZero(p any) {}

// FldSplit distinguishes which factor of *p, which must be known to vanish, does so.
func FldSplit(p any) {}

// FldSquare assumes that *p is a nonzero square and sets *r to a root.
func FldSquare(r, p any) {}

// FldNonSquare states that u^2 = n v^2 holds for u = v = 0 only, n being a non-square.
func FldNonSquare(u, v, n any) {}

// FldChi states that the quadratic characters of u and v multiply to the one of c, because u v = c w^2.
func FldChi(u, v, w, c any) {}

// FldRoot: v = w^2
func FldRoot(v, w any) {}

// FldKnownZero tells whether *p is known to vanish.
func FldKnownZero(p any) bool { return false }
