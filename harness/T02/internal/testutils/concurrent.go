package testutils

import (
	"math/rand"
	"strings"
	"time"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// zzOther lets another goroutine run at this point of the first one. If it cannot finish because the first one holds a
// lock, this is no schedule of interest.
func zzOther(f func()) {
	if !zz.IsNative() {
		p, v := zz.PanicValue(f)
		zz.Assume(!(p && zzWaits(v)))
		zz.Assert(!p, "the other goroutine panics")
		return
	}
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case v := <-done:
		if v != nil {
			panic(v)
		}
	case <-time.After(200 * time.Millisecond):
		zz.Assume(false)
	}
}

// zzWaits says whether v is what the engine makes of waiting for a lock.
func zzWaits(v any) bool {
	e, ok := v.(error)
	return ok && strings.HasPrefix(e.Error(), "all goroutines are asleep")
}

// Two goroutines: the second one performs up to two operations while the first one is in a function given by the user.
// Every result is the beginning of the one list of its key.
//
//zz:mode=bv bound=one_operation_interrupted_once_by_up_to_2_operations_of_another_goroutine_at_any_call_of_a_user's_function steps=4000000 reach=interrupted,prepopulated,refused,done
func ZZ_CacheConcurrent() {
	s := &zzSource{base: zz.U64("base"), owner: map[*rand.Rand]zzKey{}, count: map[*rand.Rand]uint64{}}
	var pc PrecomputedCache[zzKey, zzElem]
	var fixed [3][]uint64
	check := func(k, n int, got []zzElem) {
		zz.Assert(len(got) == n, "as many elements as asked for")
		for j, e := range got {
			want := s.value(zzKeys[k], uint64(j-len(fixed[k])))
			if j < len(fixed[k]) {
				want = fixed[k][j]
			}
			zz.Assert(e != nil && e[0] == want, "the element at this position is always the same")
			*e = [2]uint64{77, 77}
		}
	}
	prepopulate := func(k int) bool {
		m := zz.Choice("entries", 3)
		list := make([]zzElem, m)
		vals := make([]uint64, m)
		for j := range list {
			vals[j] = zz.U64("entry")
			list[j] = &[2]uint64{vals[j], 0}
		}
		if p, v := zz.PanicValue(func() { pc.PrepopulateCache(zzKeys[k], list) }); p {
			if zzWaits(v) {
				panic(v)
			}
			return false
		}
		fixed[k] = vals
		return true
	}
	at := zz.Choice("at", 4) // the number of the call that is interrupted
	calls := 0
	interrupt := func() {
		calls++
		if calls != at+1 {
			return
		}
		steps := 1 + zz.Choice("steps", 2)
		zzOther(func() {
			for i := 0; i < steps; i++ {
				k := zz.Choice("key", 2)
				if zz.Choice("op", 2) == 0 {
					n := zz.Choice("amount", 4)
					check(k, n, pc.GetElements(zzKeys[k], n))
				} else if prepopulate(k) {
					zz.Reach("prepopulated")
				}
			}
		})
		zz.Reach("interrupted")
	}
	pc = MakePrecomputedCache(
		func(k zzKey) *rand.Rand { r := s.rng(k); interrupt(); return r },
		func(r *rand.Rand, k zzKey) zzElem { interrupt(); return s.make(r, k) },
		func(e zzElem) zzElem { interrupt(); return zzCopy(e) })
	if zz.Bool("before") {
		n := 1 + zz.Choice("amount", 2)
		a := at
		at = 99
		check(0, n, pc.GetElements(zzKeys[0], n))
		at = calls + a
	}
	n := zz.Choice("amount", 4)
	got := pc.GetElements(zzKeys[0], n)
	check(0, n, got)
	if !prepopulate(0) {
		zz.Reach("refused")
	}
	for k := 0; k < 2; k++ {
		check(k, 3, pc.GetElements(zzKeys[k], 3))
	}
	zz.Reach("done")
}
