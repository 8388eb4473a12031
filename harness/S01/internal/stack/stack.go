package stack

import (
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

// Every sequence of operations behaves like the list model: last in, first out; values are copied in and out.
//
//zz:mode=bv bound=every_sequence_of_5_operations_on_arbitrary_words reach=panic,full,drained
func ZZ_History() { zzHistory(5) }

//zz:mode=bv tier=thorough bound=every_sequence_of_6_operations_on_arbitrary_words reach=panic,full,drained
func ZZ_HistoryLong() { zzHistory(6) }

func zzHistory(n int) {
	var st *Stack[uint64]
	if zz.Choice("make", 2) == 0 {
		st = NewStack[uint64]()
	} else {
		m := MakeStack[uint64]()
		st = &m
	}
	var model []uint64
	for i := 0; i < n; i++ {
		zz.Assert(st.Len() == len(model) && st.IsEmpty() == (len(model) == 0), "length")
		switch zz.Choice("op", 5) {
		case 0:
			v := zz.U64("push")
			st.Push(v)
			model = append(model, v)
		case 1:
			v := zz.U64("pushptr")
			w := v
			st.PushPtr(&w)
			w++ // the stack holds a copy
			model = append(model, v)
		case 2:
			var v uint64
			p := zz.Panics(func() { v = st.Pop() })
			zz.Assert(p == (len(model) == 0), "Pop panics exactly on the empty stack")
			if p {
				zz.Reach("panic")
				break
			}
			zz.Assert(v == model[len(model)-1], "Pop returns the last value")
			model = model[:len(model)-1]
			if len(model) == 0 {
				zz.Reach("drained")
			}
		case 3:
			var q *uint64
			p := zz.Panics(func() { q = st.Top() })
			zz.Assert(p == (len(model) == 0), "Top panics exactly on the empty stack")
			if p {
				break
			}
			zz.Assert(*q == model[len(model)-1], "Top is the last value")
			v := zz.U64("store")
			*q = v
			model[len(model)-1] = v
		case 4:
			k := zz.Choice("pos", n+2) - 1
			var q *uint64
			p := zz.Panics(func() { q = st.Peek(k) })
			zz.Assert(p == (k < 0 || k >= len(model)), "Peek panics exactly outside of the stack")
			if p {
				break
			}
			zz.Assert(*q == model[len(model)-1-k], "Peek counts from the top")
			v := zz.U64("store")
			*q = v
			model[len(model)-1-k] = v
		}
	}
	zz.Assert(st.Len() == len(model), "final length")
	for i := range model {
		zz.Assert(*st.Peek(len(model) - 1 - i) == model[i], "final contents")
	}
	if len(model) == n {
		zz.Reach("full")
	}
}

// Deep stacks: push a, pop b, push c, pop the rest.
//
//zz:mode=bv bound=up_to_40_values,_every_push/pop/push/pop_profile reach=deep
func ZZ_Deep() {
	st := NewStack[uint64]()
	a := zz.Choice("a", 41)
	b := zz.Choice("b", a+1)
	c := zz.Choice("c", 4)
	var model []uint64
	for i := 0; i < a; i++ {
		v := zz.U64("v")
		st.Push(v)
		model = append(model, v)
	}
	for i := 0; i < b; i++ {
		zz.Assert(st.Pop() == model[len(model)-1], "Pop returns the last value")
		model = model[:len(model)-1]
	}
	for i := 0; i < c; i++ {
		v := zz.U64("w")
		st.PushPtr(&v)
		model = append(model, v)
	}
	for i := range model {
		zz.Assert(*st.Peek(i) == model[len(model)-1-i], "Peek counts from the top")
	}
	for len(model) > 0 {
		zz.Assert(st.Len() == len(model), "length")
		zz.Assert(st.Pop() == model[len(model)-1], "Pop returns the last value")
		model = model[:len(model)-1]
	}
	zz.Assert(st.IsEmpty(), "empty")
	if a == 40 {
		zz.Reach("deep")
	}
}
