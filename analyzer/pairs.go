package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Loops that walk a text by cutting off its front while they count what they
// cut: n and d change together, so n - start(d) is a loop invariant. Reading n
// as that difference keeps it meaningful when the text before d is summarised.

type pair struct {
	head *ssa.BasicBlock
	n, d int // registers of the phis
}

func sameOperand(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := constBits(a, nil)
	y, ok2 := constBits(b, nil)
	return ok1 && ok2 && x == y
}

func (fi *FnInfo) findPairs() {
	for _, head := range fi.fn.Blocks {
		if !fi.heads[head] {
			continue
		}
		var ints, texts []*ssa.Phi
		for _, in := range head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isInt(phi.Type()) {
				ints = append(ints, phi)
			} else if isText(phi.Type()) {
				texts = append(texts, phi)
			}
		}
		body := fi.loops[head]
		for _, n := range ints {
			for _, d := range texts {
				var match func(x, y ssa.Value, depth int) bool
				match = func(x, y ssa.Value, depth int) bool {
					if x == ssa.Value(n) && y == ssa.Value(d) {
						return true
					}
					if depth > 8 {
						return false
					}
					switch a := x.(type) {
					case *ssa.BinOp:
						b, ok := y.(*ssa.Slice)
						if !ok || a.Op != token.ADD || b.Low == nil || b.High != nil || b.Max != nil {
							return false
						}
						return sameOperand(a.Y, b.Low) && match(a.X, b.X, depth+1) ||
							sameOperand(a.X, b.Low) && match(a.Y, b.X, depth+1)
					case *ssa.Phi:
						b, ok := y.(*ssa.Phi)
						if !ok || a.Block() != b.Block() || fi.heads[a.Block()] {
							return false
						}
						for i := range a.Edges {
							if !match(a.Edges[i], b.Edges[i], depth+1) {
								return false
							}
						}
						return true
					}
					return false
				}
				ok, some := true, false
				for i, p := range head.Preds {
					if body[p] {
						ok = ok && match(n.Edges[i], d.Edges[i], 0) && n.Edges[i] != ssa.Value(n)
						some = true
					}
				}
				if ok && some {
					fi.pairs = append(fi.pairs, pair{head, fi.idx[n], fi.idx[d]})
					break
				}
			}
		}
	}
}

// enterPairs notes where the walk starts when a loop is entered.
func (f *Frame) enterPairs(from, to *ssa.BasicBlock) {
	for i, p := range f.fn.pairs {
		if p.head != to || f.fn.loops[to][from] {
			continue
		}
		slot := len(f.fn.vals) + i
		f.regs[slot] = nil
		d, ok := f.regs[p.d].(TSlice)
		if !ok || d.own {
			continue
		}
		if _, ok := linOf(f.regs[p.n]); !ok {
			continue
		}
		f.regs[slot] = &Agg{f: []Value{d, f.regs[p.n]}}
	}
}

// normPairs reads the counters as differences of positions.
func (s *State) normPairs(f *Frame) {
	for i, p := range f.fn.pairs {
		slot := len(f.fn.vals) + i
		if f.regs[slot] == nil {
			continue
		}
		if !f.fn.loops[p.head][f.block] || f.block == p.head && f.regs[p.n] == nil {
			f.regs[slot] = nil
			continue
		}
		if f.regs[p.n] == nil {
			continue
		}
		a := f.regs[slot].(*Agg)
		d, ok := f.regs[p.d].(TSlice)
		if !ok || d.own {
			continue
		}
		at := a.f[0].(TSlice)
		f.regs[p.n] = linAddV(linAddV(s.posVal(d.lo), s.posVal(at.lo), -1), a.f[1], 1)
	}
}
