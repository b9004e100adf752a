package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Determinism of the generator: sources of nondeterminism, and what may be done
// while ranging over a map.

func (g *genCheck) nondet(fn *ssa.Function) {
	doom := doomed(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				g.bad("nondeterminism", in.Pos(), fn, "%s starts a goroutine", fn.RelString(nil))
			case *ssa.Select:
				g.bad("nondeterminism", in.Pos(), fn, "%s selects on channels", fn.RelString(nil))
			case *ssa.Convert:
				if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
					if t, ok := x.Type().Underlying().(*types.Basic); ok && t.Kind() == types.Uintptr {
						g.bad("nondeterminism", in.Pos(), fn, "%s uses an address as a number", fn.RelString(nil))
					}
				}
			}
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g.r.counts["call_sites"]++
			f := call.Common().StaticCallee()
			if f == nil {
				continue
			}
			if o := f.Origin(); o != nil {
				f = o
			}
			name := f.Name()
			bad := false
			switch fnPkg(f) {
			case "time":
				bad = name == "Now" || name == "Since" || name == "Until" || name == "After" || name == "Tick" || name == "NewTimer"
			case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
				bad = true
			case "os":
				switch name {
				case "Getpid", "Getppid", "Hostname", "Getenv", "LookupEnv", "Environ", "Getwd", "TempDir", "UserHomeDir":
					bad = true
				}
			case "runtime":
				switch name {
				case "NumCPU", "NumGoroutine", "GOMAXPROCS", "ReadMemStats":
					bad = true
				}
			case "reflect":
				bad = name == "MapRange" || name == "MapKeys" || name == "Pointer" || name == "UnsafeAddr"
			case "maps":
				if name == "Keys" || name == "Values" || name == "All" {
					bad = !onlySorted(call)
				}
			}
			if bad {
				g.bad("nondeterminism", in.Pos(), fn, "%s calls %s", fn.RelString(nil), f.RelString(nil))
			}
			if fnPkg(f) == "fmt" && !doom[b] && strings.Contains(name, "rint") {
				g.addresses(fn, call)
			}
		}
	}
}

// onlySorted: an iterator over a map that is sorted at once.
func onlySorted(call ssa.CallInstruction) bool {
	v := call.Value()
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			if ct, ok := r.(*ssa.ChangeType); ok {
				for _, q := range *ct.Referrers() {
					if !sortedCall(q) {
						return false
					}
				}
				continue
			}
			return false
		}
		if !sortedCall(c) {
			return false
		}
	}
	return true
}

func sortedCall(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return fnPkg(f) == "slices" && f.Name() == "Sorted"
}

// addresses: printing would show a memory address.
func (g *genCheck) addresses(fn *ssa.Function, call ssa.CallInstruction) {
	args := call.Common().Args
	if len(args) == 0 {
		return
	}
	for _, a := range args {
		if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && strings.Contains(constant.StringVal(c.Value), "%p") {
			g.bad("nondeterminism", call.Pos(), fn, "%s prints an address", fn.RelString(nil))
		}
	}
	sl, ok := args[len(args)-1].(*ssa.Slice)
	if !ok {
		return
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			st, ok := q.(*ssa.Store)
			if !ok {
				continue
			}
			mi, ok := st.Val.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			if formats(g.prog, mi.X.Type()) {
				continue
			}
			if hasAddr(mi.X.Type(), 0, map[types.Type]bool{}) {
				g.bad("nondeterminism", call.Pos(), fn, "%s prints a value of type %s, which shows an address", fn.RelString(nil), mi.X.Type())
			}
		}
	}
}

// formats: the type decides itself how it is printed.
func formats(prog *ssa.Program, t types.Type) bool {
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format", "GoString":
			return true
		}
	}
	return false
}

func hasAddr(t types.Type, depth int, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch x.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return hasAddr(x.Elem(), depth+1, seen)
		}
		return true
	case *types.Chan, *types.Signature:
		return true
	case *types.Slice:
		return hasAddr(x.Elem(), depth+1, seen)
	case *types.Array:
		return hasAddr(x.Elem(), depth+1, seen)
	case *types.Map:
		return hasAddr(x.Key(), depth+1, seen) || hasAddr(x.Elem(), depth+1, seen)
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if hasAddr(x.Field(i).Type(), depth+1, seen) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// Ranging over maps

// loopOf is the natural loop with the given header.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	loop := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if loop[b] {
			continue
		}
		loop[b] = true
		work = append(work, b.Preds...)
	}
	return loop
}

type rangeLoop struct {
	g     *genCheck
	fn    *ssa.Function
	head  *ssa.BasicBlock
	loop  map[*ssa.BasicBlock]bool
	next  *ssa.Next
	key   ssa.Value
	pos   token.Pos
	local map[ssa.Value]bool // allocated in the loop
}

func (g *genCheck) mapRanges(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			g.r.counts["map_ranges"]++
			l := &rangeLoop{g: g, fn: fn, head: b, loop: loopOf(b), next: nx, pos: rg.Pos(), local: map[ssa.Value]bool{}}
			if nx.Referrers() != nil {
				for _, r := range *nx.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && e.Index == 1 {
						l.key = e
					}
				}
			}
			l.check()
		}
	}
}

func (l *rangeLoop) bad(p token.Pos, format string, a ...interface{}) {
	if p == token.NoPos {
		p = l.pos
	}
	l.g.bad("map-order", p, l.fn, l.fn.RelString(nil)+" ranges over a map and "+format, a...)
}

func commutative(op token.Token, t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}
	switch op {
	case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
		return true
	}
	return false
}

func (l *rangeLoop) check() {
	for b := range l.loop {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
				l.local[x.(ssa.Value)] = true
			}
		}
	}
	// header phis are carried from one element to the next
	for _, in := range l.head.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			l.carried(phi)
		}
	}
	for _, b := range l.fn.Blocks {
		if !l.loop[b] {
			continue
		}
		for _, in := range b.Instrs {
			l.effect(in)
		}
		// leaving early
		for _, s := range b.Succs {
			if l.loop[s] || b == l.head {
				continue
			}
			l.exit(b, s)
		}
		if len(b.Succs) == 0 {
			l.leaves(b)
		}
	}
}

// varies: the value depends on the element.
func (l *rangeLoop) varies(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	in, ok := v.(ssa.Instruction)
	return ok && l.loop[in.Block()]
}

// exit: leaving the loop early, from b to s.
func (l *rangeLoop) exit(b, s *ssa.BasicBlock) {
	// values from inside that are used outside
	for _, x := range l.fn.Blocks {
		if l.loop[x] {
			continue
		}
		for _, in := range x.Instrs {
			if ret, ok := in.(*ssa.Return); ok && l.errorReturn(ret) {
				continue
			}
			if _, ok := in.(*ssa.Panic); ok {
				continue
			}
			var buf [8]*ssa.Value
			for _, op := range in.Operands(buf[:0]) {
				if op == nil || *op == nil || !l.varies(*op) {
					continue
				}
				if phi, ok := (*op).(*ssa.Phi); ok && phi.Block() == l.head {
					continue // judged as carried
				}
				if onlyForErrors(in, l) {
					continue
				}
				l.bad(in.Pos(), "uses what it found for one element after the loop")
				return
			}
		}
	}
	// which element it stops at decides
	for _, in := range s.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range s.Preds {
			if p == b && l.varies(phi.Edges[i]) {
				l.bad(phi.Pos(), "stops early with a value of one element")
			}
		}
	}
}

// onlyForErrors: part of making an error that is then returned, or of a panic.
func onlyForErrors(in ssa.Instruction, l *rangeLoop) bool {
	b := in.Block()
	if doomed(l.fn)[b] {
		return true
	}
	last := b.Instrs[len(b.Instrs)-1]
	ret, ok := last.(*ssa.Return)
	return ok && l.errorReturn(ret)
}

func (l *rangeLoop) errorReturn(ret *ssa.Return) bool {
	w := &walk{g: l.g, fn: l.fn}
	s := &pstate{st: map[string]status{}}
	w.facts(ret.Block(), s)
	for _, in := range ret.Block().Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && (fnPkg(f) == "fmt" && f.Name() == "Errorf" || fnPkg(f) == "errors" && f.Name() == "New") {
				s.set(regName(c), nonNil)
			}
		}
	}
	return returnsErr(w, s, ret)
}

func (l *rangeLoop) leaves(b *ssa.BasicBlock) {
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok {
		return
	}
	if l.errorReturn(ret) {
		return
	}
	for _, v := range ret.Results {
		if l.varies(v) {
			l.bad(ret.Pos(), "returns a value of one element")
		}
	}
}

// carried: what accumulates over the elements.
func (l *rangeLoop) carried(phi *ssa.Phi) {
	// the values that feed back
	var upd []ssa.Value
	for i, p := range l.head.Preds {
		if l.loop[p] {
			upd = append(upd, phi.Edges[i])
		}
	}
	inside := map[ssa.Value]bool{phi: true} // phi and its partial results
	ok, appends := true, false
	var grow func(v ssa.Value, depth int)
	seen := map[ssa.Value]bool{}
	grow = func(v ssa.Value, depth int) {
		if v == ssa.Value(phi) || seen[v] || !ok {
			return
		}
		seen[v] = true
		if c, isC := v.(*ssa.Const); isC {
			// a flag
			if c.Value == nil || c.Value.Kind() != constant.Bool {
				ok = false
			}
			return
		}
		in, isIn := v.(ssa.Instruction)
		if !isIn || !l.loop[in.Block()] {
			ok = false
			return
		}
		inside[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				grow(e, depth+1)
			}
		case *ssa.BinOp:
			switch {
			case !commutative(x.Op, x.Type()):
				ok = false
			case l.feeds(x.X, phi):
				grow(x.X, depth+1)
			case l.feeds(x.Y, phi) && x.Op != token.SUB:
				grow(x.Y, depth+1)
			default:
				ok = false
			}
		case *ssa.Call:
			if bi, isB := x.Call.Value.(*ssa.Builtin); isB {
				switch bi.Name() {
				case "append":
					appends = true
					grow(x.Call.Args[0], depth+1)
					return
				case "min", "max":
					for _, a := range x.Call.Args {
						if l.feeds(a, phi) {
							grow(a, depth+1)
						}
					}
					return
				}
			}
			ok = false
		default:
			ok = false
		}
	}
	for _, u := range upd {
		grow(u, 0)
	}
	if !ok {
		if l.extremum(phi, upd) {
			return
		}
		l.bad(phi.Pos(), "carries %s from one element to the next", nameOf(phi))
		return
	}
	// not used for anything else inside the loop
	for v := range inside {
		for _, r := range *v.Referrers() {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			if rv, isV := r.(ssa.Value); isV && inside[rv] {
				continue
			}
			if l.loop[r.Block()] {
				l.bad(r.Pos(), "uses %s, which depends on the elements seen so far", nameOf(phi))
				return
			}
			if appends && !l.sortedFirst(phi, r) {
				l.bad(r.Pos(), "uses the collected elements without sorting them")
				return
			}
		}
	}
}

func nameOf(phi *ssa.Phi) string {
	if phi.Comment != "" {
		return phi.Comment
	}
	return "a value"
}

// extremum: if x > best { best = x } for integers
func (l *rangeLoop) extremum(phi *ssa.Phi, upd []ssa.Value) bool {
	if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	var cand ssa.Value
	var leaf func(v ssa.Value, d int) bool
	leaf = func(v ssa.Value, d int) bool {
		if v == ssa.Value(phi) {
			return true
		}
		if p, ok := v.(*ssa.Phi); ok && l.loop[p.Block()] && d < 4 {
			for _, e := range p.Edges {
				if !leaf(e, d+1) {
					return false
				}
			}
			return true
		}
		if cand != nil && cand != v {
			return false
		}
		cand = v
		return true
	}
	for _, u := range upd {
		if !leaf(u, 0) {
			return false
		}
	}
	if cand == nil {
		return true
	}
	for _, r := range *phi.Referrers() {
		switch x := r.(type) {
		case *ssa.BinOp:
			if !(x.X == cand || x.Y == cand) || x.Op != token.LSS && x.Op != token.GTR && x.Op != token.LEQ && x.Op != token.GEQ {
				if l.loop[x.Block()] {
					return false
				}
			}
		case *ssa.Phi, *ssa.DebugRef:
		default:
			if l.loop[r.Block()] {
				return false
			}
		}
	}
	return true
}

// feeds: v is phi or a partial result of it.
func (l *rangeLoop) feeds(v ssa.Value, phi *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value) bool
	f = func(v ssa.Value) bool {
		if v == ssa.Value(phi) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.loop[in.Block()] {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if f(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return f(x.X) || f(x.Y)
		case *ssa.Call:
			if _, ok := x.Call.Value.(*ssa.Builtin); ok {
				for _, a := range x.Call.Args {
					if f(a) {
						return true
					}
				}
			}
		}
		return false
	}
	return f(v)
}

// sortedFirst: a use of the collected slice is a sort, or comes after one.
func (l *rangeLoop) sortedFirst(phi *ssa.Phi, use ssa.Instruction) bool {
	if bi, ok := use.(*ssa.Call); ok {
		if b, ok := bi.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
	}
	if l.isSort(use, phi) {
		return true
	}
	// conversions feeding a sort
	if v, ok := use.(ssa.Value); ok {
		switch use.(type) {
		case *ssa.MakeInterface, *ssa.ChangeType:
			all := len(*v.Referrers()) > 0
			for _, r := range *v.Referrers() {
				if !l.isSort(r, v) && !l.sortedFirst(phi, r) {
					all = false
				}
			}
			return all
		case *ssa.MakeClosure:
			all := len(*v.Referrers()) > 0
			for _, r := range *v.Referrers() {
				if !l.isSort(r, nil) {
					all = false
				}
			}
			return all
		}
	}
	// stored into a variable captured by the comparison function
	if st, ok := use.(*ssa.Store); ok {
		if a, ok := st.Addr.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if u, ok := r.(*ssa.UnOp); ok {
					for _, q := range *u.Referrers() {
						if !l.sortedFirst2(u, q) {
							return false
						}
					}
				}
			}
			return true
		}
	}
	return l.afterSort(phi, use)
}

func (l *rangeLoop) sortedFirst2(v ssa.Value, use ssa.Instruction) bool {
	if mi, ok := use.(*ssa.MakeInterface); ok {
		for _, r := range *mi.Referrers() {
			if l.isSort(r, mi) {
				return true
			}
		}
	}
	return l.isSort(use, v) || l.afterSort(nil, use)
}

// afterSort: some sort of the collected slice dominates the use.
func (l *rangeLoop) afterSort(phi *ssa.Phi, use ssa.Instruction) bool {
	for _, b := range l.fn.Blocks {
		if l.loop[b] || !b.Dominates(use.Block()) {
			continue
		}
		for _, in := range b.Instrs {
			if in == use {
				break
			}
			if l.isSort(in, nil) && (phi == nil || l.sorts(in, phi)) {
				return true
			}
		}
	}
	return false
}

// sorts: the sort's argument is the collected slice.
func (l *rangeLoop) sorts(in ssa.Instruction, phi *ssa.Phi) bool {
	c := in.(*ssa.Call)
	v := c.Call.Args[0]
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	return v == ssa.Value(phi)
}

// isSort: a call that puts its first argument (v, if given) in a total order.
func (l *rangeLoop) isSort(in ssa.Instruction, v ssa.Value) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil || len(c.Call.Args) == 0 {
		return false
	}
	if v != nil && c.Call.Args[0] != v {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	switch fnPkg(f) {
	case "sort":
		switch f.Name() {
		case "Strings", "Ints", "Float64s":
			return true
		case "Sort", "Stable":
			if mi, ok := c.Call.Args[0].(*ssa.MakeInterface); ok {
				switch mi.X.Type().String() {
				case "sort.StringSlice", "sort.IntSlice":
					return true
				}
			}
		case "Slice", "SliceStable":
			return totalLess(c.Call.Args[1])
		}
	case "slices":
		switch f.Name() {
		case "Sort":
			return true
		case "SortFunc", "SortStableFunc":
			if fv, ok := under(c.Call.Args[1]).(*ssa.Function); ok {
				n := fv
				if o := n.Origin(); o != nil {
					n = o
				}
				return n.Name() == "Compare" && (fnPkg(n) == "strings" || fnPkg(n) == "cmp")
			}
		}
	}
	return false
}

// totalLess: func(i, j int) bool { return s[i] < s[j] }, on whole elements
func totalLess(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	mc, ok := v.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	fn := mc.Fn.(*ssa.Function)
	if len(fn.Blocks) != 1 {
		return false
	}
	ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return false
	}
	bo, ok := ret.Results[0].(*ssa.BinOp)
	if !ok || bo.Op != token.LSS && bo.Op != token.GTR {
		return false
	}
	idx := func(v ssa.Value) ssa.Value {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return nil
		}
		ia, ok := u.X.(*ssa.IndexAddr)
		if !ok {
			return nil
		}
		return ia.Index
	}
	a, b := idx(bo.X), idx(bo.Y)
	return a != nil && b != nil && a != b && (a == ssa.Value(fn.Params[0]) || a == ssa.Value(fn.Params[1])) && (b == ssa.Value(fn.Params[0]) || b == ssa.Value(fn.Params[1]))
}

// effect judges one instruction of the loop.
func (l *rangeLoop) effect(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		if l.ownAddr(x.Addr) {
			return
		}
		if ld, bo := loadOfSame(x); ld && commutative(bo.Op, bo.Type()) {
			return
		}
		if l.slot(x.Addr) {
			return
		}
		if a, ok := x.Addr.(*ssa.Alloc); ok && l.collects(a, x) {
			return
		}
		l.bad(x.Pos(), "stores to a variable that outlives the element")
	case *ssa.MapUpdate:
		if l.local[x.Map] {
			return
		}
		if x.Key == l.key {
			return
		}
		if bo, ok := x.Value.(*ssa.BinOp); ok && commutative(bo.Op, bo.Type()) {
			for _, v := range []ssa.Value{bo.X, bo.Y} {
				if lk, ok := v.(*ssa.Lookup); ok && lk.X == x.Map && lk.Index == x.Key {
					return
				}
			}
		}
		if _, ok := x.Value.(*ssa.Const); ok {
			return // the same whatever the order
		}
		l.bad(x.Pos(), "overwrites a map entry that is not its own")
	case *ssa.Send:
		l.bad(x.Pos(), "sends on a channel")
	case *ssa.Defer, *ssa.Go:
		l.bad(in.Pos(), "defers or starts calls in the order of the elements")
	case *ssa.Call:
		l.callEffect(x)
	}
}

// collects: a captured variable only gathers elements here, and is sorted before
// anything else is done with it.
func (l *rangeLoop) collects(a *ssa.Alloc, st *ssa.Store) bool {
	isLoad := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == ssa.Value(a)
	}
	ap, ok := st.Val.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, ok := ap.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" || !isLoad(ap.Call.Args[0]) || ap.Block() != st.Block() {
		return false
	}
	var sorts []ssa.Instruction
	for _, b := range l.fn.Blocks {
		for _, in := range b.Instrs {
			if !l.isSort(in, nil) {
				continue
			}
			v := in.(*ssa.Call).Call.Args[0]
			for {
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
					continue
				}
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
					continue
				}
				break
			}
			if isLoad(v) && !l.loop[b] {
				sorts = append(sorts, in)
			}
		}
	}
	after := func(in ssa.Instruction) bool {
		for _, s := range sorts {
			if s.Block() == in.Block() {
				for _, x := range s.Block().Instrs {
					if x == s {
						return true
					}
					if x == in {
						break
					}
				}
			} else if s.Block().Dominates(in.Block()) {
				return true
			}
		}
		return false
	}
	feedsSort := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.DebugRef:
			case *ssa.MakeInterface:
				for _, q := range *x.Referrers() {
					if !l.isSort(q, nil) {
						return false
					}
				}
			default:
				if !l.isSort(r, nil) {
					return false
				}
			}
		}
		return true
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if l.loop[x.Block()] && x != st {
				return false
			}
		case *ssa.UnOp:
			if l.loop[x.Block()] {
				if x != ap.Call.Args[0] || len(*x.Referrers()) > 1 {
					return false
				}
				continue
			}
			if !after(x) && !feedsSort(x) && !x.Block().Dominates(l.head) {
				return false
			}
		case *ssa.MakeClosure:
			if !after(x) && !feedsSort(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ownAddr: memory made for this element.
func (l *rangeLoop) ownAddr(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return l.local[a]
		}
	}
}

// slot: an element addressed by the key.
func (l *rangeLoop) slot(a ssa.Value) bool {
	ia, ok := a.(*ssa.IndexAddr)
	return ok && l.key != nil && strip(ia.Index) == l.key
}

func strip(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			return v
		}
		v = c.X
	}
}

// loadOfSame: *p = *p op v
func loadOfSame(st *ssa.Store) (bool, *ssa.BinOp) {
	bo, ok := st.Val.(*ssa.BinOp)
	if !ok {
		return false, nil
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, st.Addr) {
			return true, bo
		}
	}
	return false, nil
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	if ok && ok2 {
		return fa.Field == fb.Field && sameAddr(fa.X, fb.X)
	}
	ia, ok := a.(*ssa.IndexAddr)
	ib, ok2 := b.(*ssa.IndexAddr)
	return ok && ok2 && ia.Index == ib.Index && sameAddr(ia.X, ib.X)
}

func (l *rangeLoop) callEffect(x *ssa.Call) {
	cc := &x.Call
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		if cc.Value.Name() == "delete" && cc.Args[1] != l.key {
			l.bad(x.Pos(), "deletes entries of a map")
		}
		return
	}
	f := cc.StaticCallee()
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		f = mc.Fn.(*ssa.Function)
	}
	if f == nil {
		l.bad(x.Pos(), "calls %s for each element", callName(cc))
		return
	}
	if doomed(l.fn)[x.Block()] {
		return
	}
	if !l.g.inMod(f) {
		if pureCall(f) {
			return
		}
		if aborter(f, cc) {
			return
		}
		if l.isSort(x, nil) {
			return // sorts something of this element
		}
		l.bad(x.Pos(), "calls %s for each element", f.RelString(nil))
		return
	}
	keyed := false
	for _, a := range cc.Args {
		if l.key != nil && strip(a) == l.key {
			keyed = true
		}
	}
	if w := slotOnly(l.g, f, keyed, map[*ssa.Function]bool{}); w != "" {
		l.bad(x.Pos(), "calls %s for each element, which %s", f.RelString(nil), w)
	}
}

func pureCall(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	n := f.Name()
	switch fnPkg(f) {
	case "strings", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "path", "path/filepath", "errors", "cmp":
		return f.Signature.Recv() == nil
	case "bytes":
		return f.Signature.Recv() == nil
	case "fmt":
		return strings.HasPrefix(n, "Sprint") || n == "Errorf" || strings.HasPrefix(n, "Print") // progress on stdout
	case "slices":
		return strings.HasPrefix(n, "Contains") || strings.HasPrefix(n, "Index") || strings.HasPrefix(n, "BinarySearch") || n == "Equal" || n == "Max" || n == "Min" || n == "Clone"
	}
	return false
}

// slotOnly: "" if the calls of fn for distinct keys commute: it only stores
// values that do not depend on what earlier calls stored, into slots.
func slotOnly(g *genCheck, fn *ssa.Function, keyed bool, busy map[*ssa.Function]bool) string {
	if busy[fn] {
		return ""
	}
	busy[fn] = true
	doom := doomed(fn)
	var history func(v ssa.Value, d int) bool // depends on what was stored before
	history = func(v ssa.Value, d int) bool {
		if d > 12 {
			return true
		}
		switch x := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.Function, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Builtin:
			return false
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok && !al.Heap {
					return false
				}
				return true
			}
			return history(x.X, d+1)
		case *ssa.BinOp:
			return history(x.X, d+1) || history(x.Y, d+1)
		case *ssa.Convert:
			return history(x.X, d+1)
		case *ssa.ChangeType:
			return history(x.X, d+1)
		case *ssa.Slice:
			return history(x.X, d+1)
		case *ssa.Extract:
			return history(x.Tuple, d+1)
		case *ssa.Lookup:
			return history(x.X, d+1) || history(x.Index, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if p, ok := e.(*ssa.Phi); ok && p == x {
					continue
				}
				if history(e, d+3) {
					return true
				}
			}
			return false
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return history(x.Call.Args[0], d+1)
			}
			if f := x.Call.StaticCallee(); f != nil && pureCall(f) {
				for _, a := range x.Call.Args {
					if history(a, d+1) {
						return true
					}
				}
				return false
			}
		}
		return true
	}
	for _, b := range fn.Blocks {
		if doom[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && !al.Heap {
					continue
				}
				if isFresh(x.Addr) {
					continue
				}
				if ld, bo := loadOfSame(x); ld && commutative(bo.Op, bo.Type()) {
					continue
				}
				if _, ok := x.Addr.(*ssa.Global); ok {
					return "sets a package variable"
				}
				if history(x.Val, 0) {
					return "stores a value that depends on earlier calls"
				}
				if !keyed && !isAlloc(x.Val) {
					if _, ok := x.Val.(*ssa.Const); !ok {
						return "stores, but not by the key"
					}
				}
			case *ssa.MapUpdate:
				if history(x.Value, 0) || !keyed {
					return "updates a map"
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return "has effects in the order of the calls"
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && history(x.Call.Args[0], 0) {
						return "appends to a slice"
					}
					continue
				}
				f := x.Call.StaticCallee()
				if f == nil {
					return "calls " + callName(&x.Call)
				}
				if aborter(f, &x.Call) {
					continue
				}
				if g.inMod(f) {
					if w := slotOnly(g, f, keyed, busy); w != "" {
						return w
					}
					continue
				}
				if !pureCall(f) {
					return "calls " + f.RelString(nil)
				}
			}
		}
	}
	return ""
}

func isAlloc(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Slice:
		return isAlloc(x.X)
	}
	return false
}

func isFresh(a ssa.Value) bool {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return isAlloc(a)
		}
	}
}
