package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// GCell remembers an integer heap cell.
type GCell struct {
	obj   int32
	field int
	val   Value
}

// Monitor is a specification automaton run in product with the program.
type Monitor interface {
	Clone() Monitor
	Marks(f func(int32) int32)
	Key(k *keyer)
	Advance(s *State, limit func(tape int) int)
	Cursor(s *State) (tape, idx int, ok bool)
	Describe() string
	Boundary(s *State, p Pos)
	PeelAt(s *State) (tape, idx int, ok bool)
}

// ghostStep compares the progress measures with those of the previous visit of
// this loop head and replaces them.
func (s *State) ghostStep(f *Frame) (head string, entry bool, deltas []int8, keys []string) {
	b := f.block
	head = fmt.Sprintf("%d/%s/b%d", len(s.frames), f.fn.fn.String(), b.Index)
	var g *Ghost
	gi := -1
	for i, x := range f.ghost {
		if x.head == b {
			g, gi = x, i
		}
	}
	n := &Ghost{head: b}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i := f.fn.idx[phi]
		if isText(phi.Type()) {
			// what remains of a text: its start moves up or its end down
			lo, hi := Value(Top{}), Value(Top{})
			if ts, ok := f.regs[i].(TSlice); ok && !ts.own {
				lo, hi = s.posVal(ts.lo), s.posVal(ts.hi)
			}
			n.regs = append(n.regs, lo, hi)
			n.keys = append(n.keys, "lo"+phi.Name(), "hi"+phi.Name())
			continue
		}
		if !isInt(phi.Type()) {
			continue
		}
		v := f.regs[i]
		if v == nil {
			v = Top{}
		}
		if _, ok := linOf(v); !ok {
			v = Top{}
		}
		n.regs = append(n.regs, v)
		n.keys = append(n.keys, "phi"+phi.Name())
	}
	for _, id := range s.heapIDs() {
		o := s.heap[id]
		a, ok := o.val.(*Agg)
		if !ok {
			if o.typ != nil && isInt(o.typ) {
				if _, ok := linOf(o.val); ok {
					n.heap = append(n.heap, GCell{id, -1, o.val})
				}
			}
			continue
		}
		if o.typ == nil {
			// iterator over a text: remaining slice
			if len(a.f) == 2 {
				if ts, ok := a.f[1].(TSlice); ok {
					base := a.f[0].(TSlice)
					n.heap = append(n.heap, GCell{id, 0, posDiff(ts.lo, base.lo)})
				}
			}
			continue
		}
		st, ok := o.typ.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i, v := range a.f {
			if ts, ok := v.(TSlice); ok && !ts.own && isText(st.Field(i).Type()) && !isBOS(ts.lo.m) {
				n.heap = append(n.heap, GCell{id, i, s.posVal(ts.lo)})
			}
			if isInt(st.Field(i).Type()) {
				if _, ok := linOf(v); ok {
					n.heap = append(n.heap, GCell{id, i, v})
				}
			}
		}
	}
	if g == nil {
		entry = true
		f.ghost = append(f.ghost, n)
		return
	}
	cmp := func(a, b Value) int8 { // b - a
		if _, ok := linOf(a); !ok {
			return 9
		}
		if _, ok := linOf(b); !ok {
			return 9
		}
		d := linAddV(b, a, -1)
		if r, ok := s.decideZero(d, opEQ); ok && r {
			return 0
		}
		if r, ok := s.decideZero(d, opLT); ok && r {
			return -1
		}
		if r, ok := s.decideZero(d, opLE); ok && !r {
			return 1
		}
		if r, ok := s.decideZero(d, opLT); ok && !r {
			return 2 // >= 0
		}
		return 9
	}
	for i, v := range n.regs {
		d := int8(9)
		if i < len(g.regs) {
			d = cmp(g.regs[i], v)
		}
		deltas = append(deltas, d)
		keys = append(keys, n.keys[i])
	}
	for _, c := range n.heap {
		d := int8(9)
		for _, o := range g.heap {
			if o.obj == c.obj && o.field == c.field {
				d = cmp(o.val, c.val)
			}
		}
		deltas = append(deltas, d)
		keys = append(keys, fmt.Sprintf("o%d.%d", c.obj, c.field))
	}
	f.ghost = append([]*Ghost(nil), f.ghost...)
	f.ghost[gi] = n
	return
}

// checkTermination looks for a cycle of the abstract state graph on which no
// measure is known to progress.
func (e *Engine) checkTermination() {
	// nodes; harness loop heads cut the graph: edges arriving at a harness
	// head carry head=="" and are only dropped if the target is a harness state
	n := len(e.visited)
	adj := make([][]int, n)
	for i, ed := range e.edges {
		if ed.from < 0 || ed.head == "" {
			continue
		}
		adj[ed.from] = append(adj[ed.from], i)
	}
	alive := make([]bool, len(e.edges))
	for i, ed := range e.edges {
		alive[i] = ed.from >= 0 && ed.head != ""
	}
	for round := 0; ; round++ {
		comp, nc := e.sccs(n, adj, alive)
		// group edges inside components
		byComp := map[int][]int{}
		for i, ed := range e.edges {
			if alive[i] && comp[ed.from] == comp[ed.to] {
				byComp[comp[ed.from]] = append(byComp[comp[ed.from]], i)
			}
		}
		_ = nc
		if len(byComp) == 0 {
			return
		}
		progress := false
		for _, es := range byComp {
			// candidate measures: (head, key)
			type mk struct{ h, k string }
			status := map[mk]int8{} // 1 up-monotone so far, -1 down-monotone, 0 undecided(all same), 9 bad
			entryHeads := map[string]bool{}
			for _, i := range es {
				ed := e.edges[i]
				if ed.entry {
					entryHeads[ed.head] = true
				}
			}
			for _, i := range es {
				ed := e.edges[i]
				if ed.entry {
					continue
				}
				for j, d := range ed.deltas {
					m := mk{ed.head, ed.keys[j]}
					st, ok := status[m]
					if !ok {
						st = 0
					}
					switch {
					case d == 9:
						st = 9
					case st == 9:
					case d == 1 || d == 2:
						if st == -1 {
							st = 9
						} else {
							st = 1
						}
					case d == -1:
						if st == 1 {
							st = 9
						} else {
							st = -1
						}
					}
					status[m] = st
				}
			}
			removed := false
			for _, i := range es {
				ed := e.edges[i]
				if ed.entry || entryHeads[ed.head] {
					continue
				}
				for j, d := range ed.deltas {
					st := status[mk{ed.head, ed.keys[j]}]
					if st == 1 && d == 1 || st == -1 && d == -1 {
						alive[i] = false
						removed = true
					}
				}
			}
			if removed {
				progress = true
			} else {
				ed := e.edges[es[0]]
				if e.descs != nil {
					for k, i := range es {
						if x := e.edges[i]; k < 400 {
							fmt.Fprintln(os.Stderr, "  CYCLE", x.head, x.entry, x.deltas, x.keys, "\n      ", e.descs[x.from], "\n      ", e.descs[x.to])
						}
					}
				}
				e.viol = append(e.viol, &Report{Kind: "termination", Engine: e.name,
					Msg: fmt.Sprintf("loop may not terminate: no quantity makes progress on every way round (abstract cycle of %d edges)", len(es)),
					Pos: e.heads[ed.to]})
				return
			}
		}
		if !progress {
			return
		}
	}
}

func (e *Engine) sccs(n int, adj [][]int, alive []bool) ([]int, int) {
	index := make([]int32, n)
	low := make([]int32, n)
	comp := make([]int, n)
	on := make([]bool, n)
	for i := range index {
		index[i] = -1
		comp[i] = -1
	}
	var stack []int32
	var cnt int32
	nc := 0
	type fr struct {
		v int32
		i int
	}
	for r := 0; r < n; r++ {
		if index[r] >= 0 {
			continue
		}
		st := []fr{{int32(r), 0}}
		index[r], low[r] = cnt, cnt
		cnt++
		stack = append(stack, int32(r))
		on[r] = true
		for len(st) > 0 {
			f := &st[len(st)-1]
			v := f.v
			if f.i < len(adj[v]) {
				ei := adj[v][f.i]
				f.i++
				if !alive[ei] {
					continue
				}
				w := e.edges[ei].to
				if index[w] < 0 {
					index[w], low[w] = cnt, cnt
					cnt++
					stack = append(stack, w)
					on[w] = true
					st = append(st, fr{w, 0})
				} else if on[w] && index[w] < low[v] {
					low[v] = index[w]
				}
				continue
			}
			st = st[:len(st)-1]
			if len(st) > 0 {
				p := st[len(st)-1].v
				if low[v] < low[p] {
					low[p] = low[v]
				}
			}
			if low[v] == index[v] {
				for {
					w := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[w] = false
					comp[w] = nc
					if w == v {
						break
					}
				}
				nc++
			}
		}
	}
	return comp, nc
}
