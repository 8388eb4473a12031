package callcounters

import (
	zz "github.com/GottfriedHerold/Bandersnatch/internal/zzverif"
)

const zzN = 3

var zzIds = [zzN]Id{"A", "B", "C"}

// zzModel describes what the registered counters should do: node i adds to node j>i with weight w[i][j];
// kids[j] are the children of j in order of attachment (zzRest stands for the implicit remainder node).
type zzModel struct {
	known  [zzN]bool // referred to
	init   [zzN]bool // created
	root   [zzN]bool
	disp   [zzN]bool
	name   [zzN]string
	rest   [zzN]bool
	w      [zzN][zzN]int
	kids   [zzN][]int
	direct [zzN]int
}

const zzRest = -1

// total is what node j must show: its own count plus what every path leads to it.
func (m *zzModel) total(j int) int {
	t := 0
	var walk func(i, amount int)
	walk = func(i, amount int) {
		if i == j {
			t += amount
			return
		}
		for k := i + 1; k < zzN; k++ {
			if m.w[i][k] != 0 {
				walk(k, amount*m.w[i][k])
			}
		}
	}
	for i := 0; i < zzN; i++ {
		if m.direct[i] != 0 {
			walk(i, m.direct[i])
		}
	}
	return t
}

func (m *zzModel) remainder(j int) int {
	t := m.total(j)
	for _, k := range m.kids[j] {
		if k != zzRest {
			t -= m.total(k)
		}
	}
	return t
}

func (m *zzModel) attach(i, j int) {
	m.known[j] = true
	m.kids[j] = append(m.kids[j], i)
}

// zzBuild applies n arbitrary registration steps to both.
func zzBuild(m *zzModel, n int, hide bool, weights func() int) {
	callCounters = make(map[Id]*CallCounter)
	for s := 0; s < n; s++ {
		i := zz.Choice("id", zzN)
		switch op := zz.Choice("op", 7); op {
		case 0, 1, 2: // create: hierarchical, plain, attached
			j := i + zz.Choice("parent", zzN-i) // i itself: no parent
			parent := Id("")
			if j != i {
				parent = zzIds[j]
			}
			if op == 2 && j == i {
				zz.Assume(false) // attaching needs a parent
			}
			var cc *CallCounter
			show := !hide || op != 1 || zz.Choice("show", 2) == 1
			p := zz.Panics(func() {
				switch op {
				case 0:
					cc = CreateHierarchicalCallCounter(zzIds[i], "", parent)
				case 1:
					cc = CreateNewCallCounter(zzIds[i], "n"+string(zzIds[i]), show, parent, j == i)
				case 2:
					cc = CreateAttachedCallCounter(zzIds[i], "t"+string(zzIds[i]), parent)
				}
			})
			zz.Assert(p == m.init[i], "each counter is created at most once")
			if p {
				return
			}
			zz.Assert(cc == callCounters[zzIds[i]], "the registered counter is returned")
			m.known[i], m.init[i], m.disp[i], m.root[i] = true, true, show, j == i
			m.name[i] = []string{"", "n", "t"}[op] + string(zzIds[i])
			if j != i {
				if op == 0 && !m.known[j] {
					m.root[j], m.disp[j], m.name[j] = true, true, string(zzIds[j])+"(dummy)"
				}
				m.attach(i, j)
				if op == 0 {
					m.w[i][j]++
				}
				if op == 2 && !m.rest[j] {
					m.rest[j] = true
					m.kids[j] = append(m.kids[j], zzRest)
				}
			}
		case 3, 4: // show or hide the remainder
			zzIds[i].SetDisplayRemaining(op == 3)
			m.known[i] = true
			if op == 3 && !m.rest[i] {
				m.kids[i] = append(m.kids[i], zzRest)
			}
			if op == 4 && m.rest[i] {
				var k []int
				for _, x := range m.kids[i] {
					if x != zzRest {
						k = append(k, x)
					}
				}
				m.kids[i] = k
			}
			m.rest[i] = op == 3
		case 5, 6: // extra link i -> j
			if i+1 >= zzN {
				zz.Assume(false)
			}
			j := i + 1 + zz.Choice("target", zzN-1-i)
			w := weights()
			if op == 5 {
				zzIds[i].AddThisToTarget(zzIds[j], w)
			} else {
				zzIds[j].AddToThisFromSource(zzIds[i], w)
			}
			if w != 0 {
				m.known[i], m.known[j] = true, true
			}
			m.w[i][j] += w
		}
	}
}

func zzCheck(m *zzModel) {
	for i := range zzIds {
		zz.Assert(zzIds[i].Exists() == m.init[i], "existence")
		v, ok := zzIds[i].Get()
		zz.Assert(v == m.total(i), "value")
		zz.Assert(ok || !m.init[i], "created counters have a value")
		if !m.init[i] {
			_, registered := callCounters[zzIds[i]]
			zz.Assert(ok == registered, "unknown counters are reported as such")
			if !ok {
				zz.Reach("unknown")
				continue
			}
		}
		w, ok := callCounters[zzIds[i]].Get()
		zz.Assert(ok && w == v, "value through the counter")
		if m.rest[i] {
			zz.Assert(callCounters[zzIds[i]].displayRemaining.count_modified == m.remainder(i), "remainder")
			zz.Reach("remainder")
		}
	}
}

// Every registration history: counts propagate along the links with their weights.
//
//zz:mode=bv bound=3_counters,_every_history_of_3_registration_steps,_arbitrary_counts,_weights_-1,0,1,2 reach=unknown,remainder,counted
func ZZ_Counts() {
	var m zzModel
	zzBuild(&m, 3, false, func() int { return zz.Choice("weight", 4) - 1 })
	zzCount(&m)
	zzCheck(&m)
}

// As above with one long chain of links of arbitrary weight.
//
//zz:mode=bv bound=3_counters,_2_registration_steps,_arbitrary_counts_and_weights reach=counted
func ZZ_CountsWeights() {
	var m zzModel
	zzBuild(&m, 2, false, func() int { return int(int8(zz.U8("weight"))) })
	zzCount(&m)
	zzCheck(&m)
}

func zzCount(m *zzModel) {
	for i := range zzIds {
		if m.init[i] {
			c := int(zz.I64("count"))
			zz.Assume(c >= 0)
			callCounters[zzIds[i]].count_direct = c
			zzIds[i].Increment()
			zzIds[i].Increment()
			m.direct[i] = c + 2
			zz.Reach("counted")
		} else {
			zz.Assert(zz.Panics(func() { zzIds[i].Increment() }), "only created counters can be incremented")
		}
	}
}

// The report lists exactly the trees below the display roots with their values, depth first.
//
//zz:mode=bv bound=3_counters,_every_history_of_3_registration_steps,_arbitrary_counts reach=listed,skipped
func ZZ_Report() {
	var m zzModel
	zzBuild(&m, 3, true, func() int { return 1 })
	zzCount(&m)
	onlyPositive := zz.Bool("onlyPositive")
	useName := zz.Bool("useName")
	rep := ReportCallCounters(onlyPositive, useName)
	pos := 0
	var walk func(i, depth int) []CCReport
	walk = func(i, depth int) (r []CCReport) {
		v := m.total(i)
		if !m.disp[i] {
			return
		}
		if onlyPositive && v == 0 {
			zz.Reach("skipped")
			return
		}
		tag := string(zzIds[i])
		if useName {
			tag = m.name[i]
		}
		r = append(r, CCReport{Tag: tag, CC: callCounters[zzIds[i]], Calls: v, depth: depth})
		for _, k := range m.kids[i] {
			if k != zzRest {
				r = append(r, walk(k, depth+1)...)
				continue
			}
			x := m.remainder(i)
			if onlyPositive && x == 0 {
				continue
			}
			tag := string(zzIds[i]) + "Other"
			if useName {
				tag = string(zzIds[i]) + "(other)"
			}
			r = append(r, CCReport{Tag: tag, CC: callCounters[zzIds[i]].displayRemaining, Calls: x, depth: depth + 1})
		}
		return
	}
	// the order of the roots is unspecified
	done := [zzN]bool{}
	for pos < len(rep) {
		found := false
		for i := range zzIds {
			if m.root[i] && !done[i] && callCounters[zzIds[i]] == rep[pos].CC {
				want := walk(i, 0)
				zz.Assert(pos+len(want) <= len(rep), "tree complete")
				for k := range want {
					zz.Assert(rep[pos+k] == want[k], "entry of the report")
				}
				pos += len(want)
				done[i], found = true, true
				zz.Reach("listed")
				break
			}
		}
		zz.Assert(found, "only display roots start a tree")
	}
	for i := range zzIds {
		zz.Assert(done[i] || !m.root[i] || len(walk(i, 0)) == 0, "every display root is listed")
	}
}

// Resetting.
//
//zz:mode=bv bound=3_counters,_every_history_of_2_registration_steps,_arbitrary_counts reach=counted
func ZZ_Reset() {
	var m zzModel
	zzBuild(&m, 2, false, func() int { return 1 })
	zzCount(&m)
	k := zz.Choice("which", zzN+1)
	if k == zzN {
		ResetAllCounters()
		m.direct = [zzN]int{}
	} else {
		zz.Assume(m.known[k])
		zzIds[k].Reset()
		m.direct[k] = 0
	}
	zzCheck(&m)
}

// The remainder of a parent with many children, whenever it was asked for (perhaps repeatedly).
//
//zz:mode=bv bound=up_to_5_children_of_2_kinds,_remainder_shown_(or_hidden_and_shown_again)_at_any_point,_arbitrary_counts reach=end
func ZZ_ManyChildren() {
	callCounters = make(map[Id]*CallCounter)
	parent := Id("P")
	pc := CreateHierarchicalCallCounter(parent, "", "")
	n := 2 + zz.Choice("children", 4)
	show, again := zz.Choice("show", n+1), zz.Choice("again", 2)
	names := []Id{"A", "B", "C", "D", "E"}
	want, rest := 0, 0
	cs := make([]*CallCounter, n)
	attached := make([]bool, n)
	for i := 0; i <= n; i++ {
		if i == show {
			parent.SetDisplayRemaining(true)
			if again == 1 {
				parent.SetDisplayRemaining(false)
				parent.SetDisplayRemaining(true)
			}
		}
		if i == n {
			break
		}
		attached[i] = zz.Choice("kind", 2) == 1
		if attached[i] {
			cs[i] = CreateAttachedCallCounter(names[i], "", parent)
		} else {
			cs[i] = CreateHierarchicalCallCounter(names[i], "", parent)
		}
	}
	for i := range cs {
		c := int(zz.I64("count"))
		zz.Assume(c >= 0)
		cs[i].count_direct = c
		names[i].Increment()
		if attached[i] {
			rest -= c + 1
		} else {
			want += c + 1
		}
	}
	d := int(zz.I64("direct"))
	zz.Assume(d >= 0)
	pc.count_direct = d
	parent.Increment()
	v, ok := parent.Get()
	zz.Assert(ok && v == want+d+1, "value of the parent")
	zz.Assert(pc.displayRemaining.count_modified == d+1+rest, "remainder of the parent")
	for i := range cs {
		w, ok := names[i].Get()
		zz.Assert(ok && w == cs[i].count_direct, "value of a child")
	}
	rep := ReportCallCounters(false, false)
	zz.Assert(len(rep) == n+2 && rep[0].CC == pc && rep[0].Calls == want+d+1, "report")
	sum := 0
	for i := range rep[1:] {
		sum += rep[1+i].Calls
	}
	zz.Assert(sum == want+d+1, "children and remainder add up to the parent")
	zz.Reach("end")
}
