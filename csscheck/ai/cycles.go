package ai

import (
	"fmt"
	"sort"
)

// Local says whether an object was made since the current function began.
func (st *State) Local(o ObjID) bool { return int(o) > st.pinObjs }

// silent are the exits of each function that can be reached from its entry without progress.
func (m *Machine) silent() map[int]bool {
	out := map[int][]Edge{}
	for _, e := range m.Edges {
		if !e.Prog {
			out[e.From] = append(out[e.From], e)
		}
	}
	quiet := map[int]bool{} // exit nodes
	for changed := true; changed; {
		changed = false
		for _, s := range m.Sums {
			seen := map[int]bool{s.node: true}
			work := []int{s.node}
			for len(work) > 0 {
				n := work[len(work)-1]
				work = work[:len(work)-1]
				if m.Nodes[n].Exit && !quiet[n] {
					quiet[n] = true
					changed = true
				}
				for _, e := range out[n] {
					if e.Via != nil && !quiet[e.ViaExit] {
						continue
					}
					if !seen[e.To] {
						seen[e.To] = true
						work = append(work, e.To)
					}
				}
			}
		}
	}
	return quiet
}

// Cycles are the cycles of abstract states without progress. With calls, only those that go
// through a call are given.
func (m *Machine) Cycles(calls bool) []string {
	quiet := m.silent()
	type arc struct {
		to   int
		call bool
	}
	out := map[int][]arc{}
	for _, e := range m.Edges {
		if !e.Prog && (e.Via == nil || quiet[e.ViaExit]) {
			out[e.From] = append(out[e.From], arc{e.To, false})
		}
	}
	for _, e := range m.calls {
		if !e.Prog {
			out[e.From] = append(out[e.From], arc{e.To, true})
		}
	}
	// Tarjan's algorithm.
	n := len(m.Nodes)
	index, low, comp := make([]int, n), make([]int, n), make([]int, n)
	on := make([]bool, n)
	var stack []int
	next, ncomp := 1, 0
	type frame struct{ v, i int }
	for r := 1; r < n; r++ {
		if index[r] != 0 {
			continue
		}
		fr := []frame{{r, 0}}
		index[r], low[r] = next, next
		next++
		stack = append(stack, r)
		on[r] = true
		for len(fr) > 0 {
			f := &fr[len(fr)-1]
			if f.i < len(out[f.v]) {
				w := out[f.v][f.i].to
				f.i++
				if index[w] == 0 {
					index[w], low[w] = next, next
					next++
					stack = append(stack, w)
					on[w] = true
					fr = append(fr, frame{w, 0})
				} else if on[w] && index[w] < low[f.v] {
					low[f.v] = index[w]
				}
				continue
			}
			if low[f.v] == index[f.v] {
				ncomp++
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					comp[w] = ncomp
					if w == f.v {
						break
					}
				}
			}
			v := f.v
			fr = fr[:len(fr)-1]
			if len(fr) > 0 {
				if u := fr[len(fr)-1].v; low[v] < low[u] {
					low[u] = low[v]
				}
			}
		}
	}
	bad := map[int]bool{}
	for v := 1; v < n; v++ {
		for _, a := range out[v] {
			if comp[v] == comp[a.to] && (a.call || !calls) {
				bad[comp[v]] = true
			}
		}
	}
	what := map[int]map[string]bool{}
	for v := 1; v < n; v++ {
		if bad[comp[v]] {
			if what[comp[v]] == nil {
				what[comp[v]] = map[string]bool{}
			}
			nd := m.Nodes[v]
			what[comp[v]][fmt.Sprintf("%s: %s", m.short(nd.Sum.Fn), nd.What)] = true
		}
	}
	seen := map[string]bool{}
	var res []string
	for _, w := range what {
		var names []string
		for k := range w {
			names = append(names, k)
		}
		sort.Strings(names)
		s := ""
		for i, k := range names {
			if i > 0 {
				s += " ; "
			}
			if i == 8 {
				s += fmt.Sprintf("and %d more", len(names)-i)
				break
			}
			s += k
		}
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	sort.Strings(res)
	return res
}
