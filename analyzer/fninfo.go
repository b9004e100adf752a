package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// FnInfo holds per-function static facts.
type FnInfo struct {
	fn        *ssa.Function
	idx       map[ssa.Value]int
	vals      []ssa.Value
	heads     map[*ssa.BasicBlock]bool
	loops     map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // head -> body
	liveIn    []map[int]bool                               // after phis, per block
	liveOut   []map[int]bool
	liveAfter map[ssa.Instruction][]int
	liveHead  map[*ssa.BasicBlock][]int
	consts    map[*ssa.Const]Value
	dead      map[[2]int][]int
	mask      []uint64
	pairs     []pair
	reads     map[readKey]bool
}

func (p *Program) info(fn *ssa.Function) *FnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	fi := buildInfo(fn)
	p.infos[fn] = fi
	return fi
}

func buildInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, heads: map[*ssa.BasicBlock]bool{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		liveAfter: map[ssa.Instruction][]int{}, liveHead: map[*ssa.BasicBlock][]int{}, consts: map[*ssa.Const]Value{}}
	add := func(v ssa.Value) {
		fi.idx[v] = len(fi.vals)
		fi.vals = append(fi.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// loop heads: targets of retreating edges in a DFS
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	var back [][2]*ssa.BasicBlock
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 {
				fi.heads[s] = true
				back = append(back, [2]*ssa.BasicBlock{b, s})
			} else if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for _, e := range back {
		tail, head := e[0], e[1]
		body := fi.loops[head]
		if body == nil {
			body = map[*ssa.BasicBlock]bool{head: true}
			fi.loops[head] = body
		}
		st := []*ssa.BasicBlock{tail}
		for len(st) > 0 {
			b := st[len(st)-1]
			st = st[:len(st)-1]
			if body[b] {
				continue
			}
			body[b] = true
			st = append(st, b.Preds...)
		}
	}
	fi.liveness()
	fi.findPairs()
	return fi
}

func (fi *FnInfo) uses(in ssa.Instruction, f func(int)) {
	var buf [8]*ssa.Value
	for _, op := range in.Operands(buf[:0]) {
		if op == nil || *op == nil {
			continue
		}
		if i, ok := fi.idx[*op]; ok {
			f(i)
		}
	}
}

func (fi *FnInfo) liveness() {
	n := len(fi.fn.Blocks)
	fi.liveIn = make([]map[int]bool, n)
	fi.liveOut = make([]map[int]bool, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[int]bool{}
		fi.liveOut[i] = map[int]bool{}
	}
	changed := true
	for changed {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fi.fn.Blocks[bi]
			out := fi.liveOut[bi]
			for _, s := range b.Succs {
				// live-in of s minus its phis, plus phi inputs from b
				phis := map[int]bool{}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phis[fi.idx[phi]] = true
					for k, p := range s.Preds {
						if p == b {
							if i, ok := fi.idx[phi.Edges[k]]; ok && !out[i] {
								out[i] = true
								changed = true
							}
						}
					}
				}
				_ = pi
				for i := range fi.liveIn[s.Index] {
					if !phis[i] && !out[i] {
						out[i] = true
						changed = true
					}
				}
			}
			live := map[int]bool{}
			for i := range out {
				live[i] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					continue // phis are defined at entry; stay "live after phis"
				}
				if v, ok := in.(ssa.Value); ok {
					delete(live, fi.idx[v])
				}
				fi.uses(in, func(i int) { live[i] = true })
			}
			for i := range live {
				if !fi.liveIn[bi][i] {
					fi.liveIn[bi][i] = true
					changed = true
				}
			}
		}
	}
}

// headLive lists registers live just after the phis of b.
func (fi *FnInfo) headLive(b *ssa.BasicBlock) map[int]bool { return fi.liveIn[b.Index] }

// afterLive lists registers live after instruction k of block b (excluding its
// own result).
func (fi *FnInfo) afterLive(b *ssa.BasicBlock, k int) map[int]bool {
	live := map[int]bool{}
	for i := range fi.liveOut[b.Index] {
		live[i] = true
	}
	for j := len(b.Instrs) - 1; j > k; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(live, fi.idx[v])
		}
		fi.uses(in, func(i int) { live[i] = true })
	}
	if v, ok := b.Instrs[k].(ssa.Value); ok {
		delete(live, fi.idx[v])
	}
	return live
}

// beforeLive lists registers live before instruction k of block b.
func (fi *FnInfo) beforeLive(b *ssa.BasicBlock, k int) map[int]bool {
	live := fi.afterLive(b, k)
	fi.uses(b.Instrs[k], func(i int) { live[i] = true })
	return live
}

// ---------------------------------------------------------------------------
// classification of integers: positions in a text vs counters

type fieldKey struct {
	t string
	i int
}
type resultKey struct {
	fn *ssa.Function
	i  int
}

type classes struct {
	parent map[interface{}]interface{}
	pos    map[interface{}]bool
	add    map[interface{}]bool
	few    map[interface{}]bool // registers and results that are one of a few constants, like the width of a rune
}

func (c *classes) find(x interface{}) interface{} {
	p, ok := c.parent[x]
	if !ok {
		c.parent[x] = x
		return x
	}
	if p == x {
		return x
	}
	r := c.find(p)
	c.parent[x] = r
	return r
}
func (c *classes) union(a, b interface{}) {
	ra, rb := c.find(a), c.find(b)
	if ra == rb {
		return
	}
	c.parent[ra] = rb
	c.pos[rb] = c.pos[rb] || c.pos[ra]
	c.add[rb] = c.add[rb] || c.add[ra]
}

// root is find without modification (the classes are shared once built).
func (c *classes) root(x interface{}) interface{} {
	for {
		p, ok := c.parent[x]
		if !ok || p == x {
			return x
		}
		x = p
	}
}

// freeze shortens all chains.
func (c *classes) freeze() {
	for k := range c.parent {
		c.find(k)
	}
}
func (c *classes) isPos(x interface{}) bool { return c.pos[c.root(x)] }
func (c *classes) isCtr(x interface{}) bool {
	r := c.root(x)
	return c.add[r] && !c.pos[r]
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isText(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func fieldKeyOf(fa *ssa.FieldAddr) fieldKey {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return fieldKey{types.TypeString(t, nil), fa.Field}
}

func classify(fns []*ssa.Function) *classes {
	c := &classes{parent: map[interface{}]interface{}{}, pos: map[interface{}]bool{}, add: map[interface{}]bool{}}
	seed := func(v ssa.Value) {
		if v == nil {
			return
		}
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		c.pos[c.find(v)] = true
	}
	un := func(a, b ssa.Value) {
		if _, ok := a.(*ssa.Const); ok {
			return
		}
		if _, ok := b.(*ssa.Const); ok {
			return
		}
		c.union(a, b)
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					if isInt(x.Type()) {
						for _, e := range x.Edges {
							un(x, e)
						}
					}
				case *ssa.BinOp:
					if !isInt(x.X.Type()) {
						break
					}
					switch x.Op {
					case token.ADD, token.SUB:
						un(x, x.X)
						un(x, x.Y)
						c.add[c.find(x)] = true
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
						un(x.X, x.Y)
					}
				case *ssa.Convert:
					if isInt(x.Type()) && isInt(x.X.Type()) {
						un(x, x.X)
					}
				case *ssa.ChangeType:
					if isInt(x.Type()) {
						un(x, x.X)
					}
				case *ssa.Index:
					if isText(x.X.Type()) {
						seed(x.Index)
					}
				case *ssa.Lookup:
					if isText(x.X.Type()) {
						seed(x.Index)
					}
				case *ssa.IndexAddr:
					if isText(x.X.Type()) {
						seed(x.Index)
					}
				case *ssa.Slice:
					if isText(x.X.Type()) {
						seed(x.Low)
						seed(x.High)
						seed(x.Max)
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && isInt(x.Type()) {
						if fa, ok := x.X.(*ssa.FieldAddr); ok {
							c.union(x, fieldKeyOf(fa))
						}
						if al, ok := x.X.(*ssa.Alloc); ok {
							c.union(x, al)
						}
						if fv, ok := x.X.(*ssa.FreeVar); ok {
							c.union(x, fv)
						}
					}
				case *ssa.Store:
					if isInt(x.Val.Type()) {
						if _, ok := x.Val.(*ssa.Const); ok {
							break
						}
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
							c.union(x.Val, fieldKeyOf(fa))
						}
						if al, ok := x.Addr.(*ssa.Alloc); ok {
							c.union(x.Val, al)
						}
						if fv, ok := x.Addr.(*ssa.FreeVar); ok {
							c.union(x.Val, fv)
						}
					}
				case *ssa.Field:
					if isInt(x.Type()) {
						c.union(x, fieldKey{types.TypeString(x.X.Type(), nil), x.Field})
					}
				case *ssa.MakeClosure:
					f := x.Fn.(*ssa.Function)
					for i, bnd := range x.Bindings {
						if i < len(f.FreeVars) {
							c.union(bnd, f.FreeVars[i])
						}
					}
				case *ssa.Return:
					for i, r := range x.Results {
						if isInt(r.Type()) {
							if _, ok := r.(*ssa.Const); !ok {
								c.union(r, resultKey{fn, i})
							}
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && isText(x.Call.Args[0].Type()) {
						seed(x)
					}
					if cal := x.Call.StaticCallee(); cal != nil {
						for i, a := range x.Call.Args {
							if i < len(cal.Params) && isInt(a.Type()) {
								un(a, cal.Params[i])
							}
						}
						if isInt(x.Type()) {
							c.union(x, resultKey{cal, 0})
						}
					}
				case *ssa.Extract:
					if call, ok := x.Tuple.(*ssa.Call); ok && isInt(x.Type()) {
						if cal := call.Call.StaticCallee(); cal != nil {
							c.union(x, resultKey{cal, x.Index})
						}
					}
				}
			}
		}
	}
	c.solveFew(fns)
	return c
}

// solveFew finds the integers that are one of a fixed set of constants, which
// are no positions though they are added to them: constants, what merges them,
// the results of functions that return nothing else, and widths of runes.
func (c *classes) solveFew(fns []*ssa.Function) {
	no := map[interface{}]bool{}
	res := map[resultKey]bool{}
	for _, fn := range fns {
		sig := fn.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			if len(fn.Blocks) > 0 && isInt(sig.At(i).Type()) {
				res[resultKey{fn, i}] = true
			}
		}
	}
	ofCall := func(call *ssa.Call, i int) bool {
		cal := call.Call.StaticCallee()
		if cal == nil {
			return false
		}
		if cal.Pkg != nil && cal.Pkg.Pkg.Path() == "unicode/utf8" {
			switch cal.Name() {
			case "DecodeRune", "DecodeRuneInString", "DecodeLastRune", "DecodeLastRuneInString":
				return i == 1
			case "RuneLen":
				return true
			}
			return false
		}
		k := resultKey{cal, i}
		return res[k] && !no[k]
	}
	few := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			return !no[x]
		case *ssa.Extract:
			call, ok := x.Tuple.(*ssa.Call)
			return ok && ofCall(call, x.Index)
		case *ssa.Call:
			return ofCall(x, 0)
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Phi:
						if isInt(x.Type()) && !no[x] {
							for _, e := range x.Edges {
								if !few(e) {
									no[x], changed = true, true
									break
								}
							}
						}
					case *ssa.Return:
						for i, r := range x.Results {
							k := resultKey{fn, i}
							if isInt(r.Type()) && !no[k] && !few(r) {
								no[k], changed = true, true
							}
						}
					}
				}
			}
		}
	}
	c.few = map[interface{}]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && v.Type() != nil && isInt(v.Type()) && few(v) {
					c.few[v] = true
				}
			}
		}
	}
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		// zero value of any type
		return zeroValue(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return CInt(1)
		}
		return CInt(0)
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return CInt(i)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return CInt(int64(u))
		}
	case constant.String:
		return CStr(constant.StringVal(c.Value))
	}
	return CFloat(c.Value.ExactString())
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return CStr("")
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return CInt(0)
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return Nil{}
		}
		return CFloat("0")
	case *types.Struct:
		a := &Agg{f: make([]Value, u.NumFields())}
		for i := range a.f {
			a.f[i] = zeroValue(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := &Agg{f: make([]Value, u.Len())}
		z := zeroValue(u.Elem())
		_, nested := z.(*Agg)
		for i := range a.f {
			if nested {
				z = zeroValue(u.Elem())
			}
			a.f[i] = z
		}
		return a
	case *types.Tuple:
		a := &Agg{f: make([]Value, u.Len())}
		for i := range a.f {
			a.f[i] = zeroValue(u.At(i).Type())
		}
		return a
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return Nil{}
	}
	panic(fmt.Sprintf("zero value of %s", t))
}

// readLater reports whether the text v, or a part of it, or the text at the
// position v, may be looked at by an instruction that is still to come.
func (fi *FnInfo) readLater(b *ssa.BasicBlock, pc int, v ssa.Value) bool {
	if fi.reads == nil {
		fi.reads = map[readKey]bool{}
	}
	k := readKey{b.Index, pc, v}
	if r, ok := fi.reads[k]; ok {
		return r
	}
	later := map[*ssa.BasicBlock]bool{}
	todo := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if !later[x] {
			later[x] = true
			todo = append(todo, x.Succs...)
		}
	}
	ahead := func(in ssa.Instruction) bool {
		if later[in.Block()] {
			return true
		}
		if in.Block() != b {
			return false
		}
		for i := pc; i < len(b.Instrs); i++ {
			if b.Instrs[i] == in {
				return true
			}
		}
		return false
	}
	seen := map[ssa.Value]bool{}
	var read func(v ssa.Value) bool
	read = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if v.Referrers() == nil {
			return true
		}
		number := isInt(v.Type())
		for _, in := range *v.Referrers() {
			if !ahead(in) {
				continue
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
				if read(x.(ssa.Value)) {
					return true
				}
				continue
			case *ssa.BinOp:
				if number {
					if isInt(x.Type()) && read(x) {
						return true
					}
					continue
				}
			case *ssa.Convert:
				if number {
					if read(x) {
						return true
					}
					continue
				}
			case *ssa.Store, *ssa.Return:
				if number {
					continue
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					continue
				}
			}
			return true
		}
		return false
	}
	r := read(v)
	fi.reads[k] = r
	return r
}

type readKey struct {
	block, pc int
	v         ssa.Value
}
