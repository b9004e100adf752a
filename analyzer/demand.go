package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Demanded bits: which bits of an integer register any later use can observe.
// States that differ only in bits nobody observes behave alike, so canon masks
// them out.

const allBits = ^uint64(0)

type demandCtx struct {
	p     *Program
	memo  map[ssa.Value]uint64
	busy  map[ssa.Value]bool
	depth int
	env   map[*ssa.Parameter]uint64 // constant arguments
	steps *int
}

func constBits(v ssa.Value, env map[*ssa.Parameter]uint64) (uint64, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if i, ok := constant.Int64Val(x.Value); ok {
				return uint64(i), true
			}
			if u, ok := constant.Uint64Val(x.Value); ok {
				return u, true
			}
		}
	case *ssa.Parameter:
		c, ok := env[x]
		return c, ok
	case *ssa.Convert:
		if isInt(x.Type()) && isInt(x.X.Type()) && types.Identical(x.Type().Underlying(), x.X.Type().Underlying()) {
			return constBits(x.X, env)
		}
	case *ssa.ChangeType:
		return constBits(x.X, env)
	case *ssa.BinOp:
		if x.Op == token.OR {
			a, ok1 := constBits(x.X, env)
			b, ok2 := constBits(x.Y, env)
			return a | b, ok1 && ok2
		}
	}
	return 0, false
}

// demand solves the equations by iteration from below over the registers
// reachable from v (phi cycles).
func (d *demandCtx) solve(v ssa.Value) uint64 {
	for {
		changed := false
		seen := map[ssa.Value]bool{}
		var visit func(v ssa.Value) uint64
		visit = func(v ssa.Value) uint64 {
			if seen[v] {
				return d.memo[v]
			}
			seen[v] = true
			m := uint64(0)
			refs := v.Referrers()
			if refs == nil {
				m = allBits
			} else {
				for _, in := range *refs {
					m |= d.use(v, in, visit)
					if m == allBits {
						break
					}
				}
			}
			if m|d.memo[v] != d.memo[v] {
				d.memo[v] |= m
				changed = true
			}
			return d.memo[v]
		}
		r := visit(v)
		if !changed {
			return r
		}
	}
}

func (d *demandCtx) use(v ssa.Value, in ssa.Instruction, rec func(ssa.Value) uint64) uint64 {
	switch x := in.(type) {
	case *ssa.DebugRef:
		return 0
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == v {
			return d.p.fieldMask(fieldKeyOf(fa))
		}
	case *ssa.Phi:
		return rec(x)
	case *ssa.ChangeType:
		return rec(x)
	case *ssa.Convert:
		if isInt(x.Type()) && isInt(x.X.Type()) && types.Identical(x.Type().Underlying(), x.X.Type().Underlying()) {
			return rec(x)
		}
	case *ssa.BinOp:
		other := x.X
		if x.X == v {
			other = x.Y
		}
		switch x.Op {
		case token.OR, token.XOR:
			return rec(x)
		case token.AND:
			m := allBits
			if c, ok := constBits(other, d.env); ok {
				m = c
			}
			if x.X == v && x.Y == v {
				m = allBits
			}
			return m & rec(x)
		case token.AND_NOT:
			if x.X == v {
				if c, ok := constBits(other, d.env); ok {
					return ^c & rec(x)
				}
			}
			return rec(x)
		}
	case *ssa.Call:
		cal := x.Call.StaticCallee()
		if cal == nil || d.depth >= 4 || !d.p.inModule(cal) || d.p.isHarness(cal) || len(cal.Blocks) == 0 || x.Call.Value == v {
			return allBits
		}
		*d.steps++
		if *d.steps > 2000 {
			return allBits
		}
		if _, ok := x.Call.Value.(*ssa.Function); !ok {
			return allBits
		}
		env := map[*ssa.Parameter]uint64{}
		for i, a := range x.Call.Args {
			if c, ok := constBits(a, d.env); ok && i < len(cal.Params) {
				env[cal.Params[i]] = c
			}
		}
		m := uint64(0)
		for i, a := range x.Call.Args {
			if a == v && i < len(cal.Params) {
				dd := &demandCtx{p: d.p, memo: map[ssa.Value]uint64{}, depth: d.depth + 1, env: env, steps: d.steps}
				m |= dd.solve(cal.Params[i])
			}
		}
		return m
	}
	return allBits
}

// masks lists, per register, the bits any use can observe (allBits: no mask).
func (p *Program) masks(fi *FnInfo) []uint64 {
	if fi.mask != nil {
		return fi.mask
	}
	m := make([]uint64, len(fi.vals))
	for i, v := range fi.vals {
		m[i] = allBits
		if !isInt(v.Type()) {
			continue
		}
		steps := 0
		d := &demandCtx{p: p, memo: map[ssa.Value]uint64{}, steps: &steps}
		m[i] = d.solve(v)
	}
	fi.mask = m
	return m
}

// fieldMask returns the bits of a struct field any read of it can observe.
func (p *Program) fieldMask(k fieldKey) uint64 {
	if m, ok := p.fmask[k]; ok {
		return m
	}
	return allBits
}

// solveFields finds the bits observed of the integer fields of structs that are
// only accessed field by field: the least solution over all reads in the module.
func (p *Program) solveFields() {
	copied := map[string]bool{}
	var whole func(t types.Type)
	whole = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			n := types.TypeString(t, nil)
			if copied[n] {
				return
			}
			copied[n] = true
			for i := 0; i < u.NumFields(); i++ {
				whole(u.Field(i).Type())
			}
		case *types.Array:
			whole(u.Elem())
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				whole(u.At(i).Type())
			}
		}
	}
	reads := map[fieldKey][]ssa.Value{}
	full := map[fieldKey]bool{}
	for _, fn := range p.fns {
		for _, x := range fn.Params {
			whole(x.Type())
		}
		for _, x := range fn.FreeVars {
			whole(x.Type())
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != nil {
						whole((*o).Type())
					}
				}
				if v, ok := in.(ssa.Value); ok {
					whole(v.Type())
				}
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKeyOf(fa)
				if !isInt(fa.Type().Underlying().(*types.Pointer).Elem()) {
					continue
				}
				if _, ok := reads[k]; !ok {
					reads[k] = nil
				}
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp:
						reads[k] = append(reads[k], x)
					case *ssa.Store:
						if x.Val == fa {
							full[k] = true
						}
					default:
						full[k] = true
					}
				}
			}
		}
	}
	p.fmask = map[fieldKey]uint64{}
	for k := range reads {
		if !full[k] && !copied[k.t] {
			p.fmask[k] = 0
		}
	}
	for changed := true; changed; {
		changed = false
		for k, m := range p.fmask {
			n := m
			for _, v := range reads[k] {
				if n == allBits {
					break
				}
				steps := 0
				d := &demandCtx{p: p, memo: map[ssa.Value]uint64{}, steps: &steps}
				n |= d.solve(v)
			}
			if n != m {
				p.fmask[k] = n
				changed = true
			}
		}
	}
}

// maskFields clears the bits of struct fields that no read observes.
func (s *State) maskFields() {
	for _, id := range s.heapIDs() {
		o := s.heap[id]
		a, ok := o.val.(*Agg)
		if !ok || o.typ == nil {
			continue
		}
		if _, ok := o.typ.Underlying().(*types.Struct); !ok {
			continue
		}
		var n *Agg
		t := types.TypeString(o.typ, nil)
		for i, v := range a.f {
			m := s.e.p.fieldMask(fieldKey{t, i})
			if m == allBits {
				continue
			}
			w := s.maskVal(v, m)
			if w == nil {
				continue
			}
			if n == nil {
				n = &Agg{f: append([]Value(nil), a.f...)}
			}
			n.f[i] = w
		}
		if n != nil {
			s.heap[id] = &Obj{typ: o.typ, sym: o.sym, site: o.site, val: n}
		}
	}
}

// maskVal clears the bits of v outside of m; nil stands for no change.
func (s *State) maskVal(v Value, m uint64) Value {
	switch x := v.(type) {
	case CInt:
		if uint64(x)&m != uint64(x) {
			return CInt(uint64(x) & m)
		}
	case FnVal:
		cv := s.e.u.val1(int64(m))
		return s.mkFn(s.e.u.map1(x, func(y ValID) ValID {
			return s.e.u.valOp2(y, cv, func(a, b int64) (int64, bool) { return a & b, true })
		}))
	}
	return nil
}
