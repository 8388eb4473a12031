package testutils

import (
	"math/rand"

	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

type zzKey struct {
	seed int64
	tag  string
}

// zzElem is an element that is shared if it is copied trivially.
type zzElem = *[2]uint64

// zzSource makes the elements: the n'th element for a key is the same in every run of the generator.
type zzSource struct {
	base  uint64
	owner map[*rand.Rand]zzKey
	count map[*rand.Rand]uint64
}

func (s *zzSource) rng(k zzKey) *rand.Rand {
	r := new(rand.Rand)
	s.owner[r] = k
	return r
}

func (s *zzSource) value(k zzKey, n uint64) uint64 {
	return s.base*3 + uint64(k.seed)*1000 + uint64(len(k.tag))*100 + n
}

func (s *zzSource) make(r *rand.Rand, k zzKey) zzElem {
	owner, ok := s.owner[r]
	zz.Assert(ok && owner == k, "the generator belongs to the key")
	n := s.count[r]
	s.count[r]++
	return &[2]uint64{s.value(k, n), n}
}

func zzCopy(e zzElem) zzElem {
	c := *e
	return &c
}

func zzMakeCache() (*PrecomputedCache[zzKey, zzElem], *zzSource) {
	s := &zzSource{base: zz.U64("base"), owner: map[*rand.Rand]zzKey{}, count: map[*rand.Rand]uint64{}}
	pc := MakePrecomputedCache(s.rng, s.make, zzCopy)
	return &pc, s
}

var zzKeys = [3]zzKey{{1, ""}, {1, "t"}, {2, ""}}

// zzCacheHistory runs steps operations and compares the results with those of a model: one list per key, which begins
// with the prepopulated elements and goes on with those of the generator.
func zzCacheHistory(steps, keys, amounts, entries int) {
	pc, s := zzMakeCache()
	var fixed [3][]uint64 // values prepopulated
	var used [3]bool      // the key is in use
	for i := 0; i < steps; i++ {
		k := zz.Choice("key", keys)
		key := zzKeys[k]
		if zz.Choice("op", 2) == 0 {
			n := zz.Choice("amount", amounts)
			got := pc.GetElements(key, n)
			if n > 0 {
				used[k] = true
			}
			zz.Assert(len(got) == n && got != nil, "as many elements as asked for")
			for j, e := range got {
				want := s.value(key, uint64(j-len(fixed[k])))
				if j < len(fixed[k]) {
					want = fixed[k][j]
				}
				zz.Assert(e != nil && e[0] == want, "the element at this position is always the same")
				zz.Assert(j == 0 || e != got[j-1], "elements are not shared")
				// the result belongs to the caller
				e[0], e[1] = 77, 77
			}
			for j := range got {
				got[j] = nil
			}
			if n > 2 {
				zz.Reach("get")
			}
		} else {
			m := zz.Choice("entries", entries)
			list := make([]zzElem, m, m+2)
			vals := make([]uint64, m)
			for j := range list {
				vals[j] = zz.U64("entry")
				list[j] = &[2]uint64{vals[j], 0}
			}
			p := zz.Panics(func() { pc.PrepopulateCache(key, list) })
			zz.Assert(p == used[k], "prepopulating panics exactly for keys in use")
			for j := range list {
				zz.Assert(list[j] != nil && list[j][0] == vals[j], "the argument is not changed")
				*list[j] = [2]uint64{88, 88} // the cache holds copies
				list[j] = nil
			}
			list = append(list, &[2]uint64{99, 99}, &[2]uint64{99, 99})
			if p {
				zz.Reach("refused")
				continue
			}
			used[k] = true
			fixed[k] = vals
			zz.Reach("prepopulated")
		}
	}
	// the end of the history: all lists are still as they should be
	for k := 0; k < keys; k++ {
		for j, e := range pc.GetElements(zzKeys[k], amounts) {
			want := s.value(zzKeys[k], uint64(j-len(fixed[k])))
			if j < len(fixed[k]) {
				want = fixed[k][j]
			}
			zz.Assert(e[0] == want, "the list at the end")
		}
	}
	zz.Reach("done")
}

// Whatever was asked for before, the elements of a key form one list; callers get copies.
//
//zz:mode=bv bound=every_history_of_4_operations_on_2_keys,_amounts_0..3,_up_to_2_prepopulated_elements steps=4000000 reach=get,refused,prepopulated,done
func ZZ_CacheHistory() { zzCacheHistory(4, 2, 4, 3) }

//zz:mode=bv bound=every_history_of_5_operations_on_2_keys,_amounts_0..3,_up_to_2_prepopulated_elements tier=thorough steps=4000000 reach=get,refused,prepopulated,done
func ZZ_CacheHistory5() { zzCacheHistory(5, 2, 4, 3) }

//zz:mode=bv bound=every_history_of_3_operations_on_3_keys,_amounts_0..5,_up_to_4_prepopulated_elements tier=thorough steps=4000000 reach=get,refused,prepopulated,done
func ZZ_CacheLonger() { zzCacheHistory(3, 3, 6, 5) }

// Each of the functions given may be nil.
//
//zz:mode=bv bound=every_combination_of_nil_functions,_amounts_up_to_4,_up_to_3_prepopulated_elements reach=norng,shared,fail,done
func ZZ_CacheNil() {
	base := zz.U64("base")
	noRng, noCopy, noMake := zz.Bool("norng"), zz.Bool("nocopy"), zz.Bool("nomake")
	var rng func(int64) *rand.Rand
	var copyFun func(zzElem) zzElem
	var creation func(*rand.Rand, int64) zzElem
	r0 := new(rand.Rand)
	made := uint64(0)
	if !noRng {
		rng = func(k int64) *rand.Rand { zz.Assert(k == 5, "the key is passed"); return r0 }
	}
	if !noCopy {
		copyFun = zzCopy
	}
	if !noMake {
		creation = func(r *rand.Rand, k int64) zzElem {
			if noRng {
				zz.Assert(r == nil, "no generator")
				zz.Reach("norng")
			} else {
				zz.Assert(r == r0, "the generator of the key")
			}
			zz.Assert(k == 5, "the key is passed")
			made++
			return &[2]uint64{base + made, 0}
		}
	}
	pc := MakePrecomputedCache(rng, creation, copyFun)
	m := zz.Choice("entries", 4)
	list := make([]zzElem, m)
	for j := range list {
		list[j] = &[2]uint64{base ^ uint64(j), 0}
	}
	if m > 0 || zz.Bool("prepopulate") {
		pc.PrepopulateCache(5, list)
	}
	n := zz.Choice("amount", 5)
	var got []zzElem
	p := zz.Panics(func() { got = pc.GetElements(5, n) })
	zz.Assert(p == (noMake && n > m), "fails exactly if elements would have to be made and cannot")
	if p {
		zz.Reach("fail")
		return
	}
	zz.Assert(len(got) == n, "as many elements as asked for")
	for j, e := range got {
		if j < m {
			zz.Assert(e[0] == base^uint64(j), "prepopulated elements come first")
			zz.Assert((e == list[j]) == noCopy, "elements are copied by the given function")
			if noCopy {
				zz.Reach("shared")
			}
		} else {
			zz.Assert(e[0] == base+uint64(j-m)+1, "then those made, in the order in which they were made")
		}
	}
	want := uint64(0)
	if n > m {
		want = uint64(n - m)
	}
	zz.Assert(made == want, "no more elements are made than needed")
	zz.Reach("done")
}
