package main

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// heap access

func encIdx(path string, i int64) string {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(i))
	return path + string(b[:])
}
func decPath(p string) []int64 {
	var out []int64
	for len(p) >= 8 {
		out = append(out, int64(binary.BigEndian.Uint64([]byte(p[:8]))))
		p = p[8:]
	}
	return out
}

func (s *State) obj(id int32) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	if o, ok := s.e.p.globals[id]; ok {
		return o
	}
	panic(&violation{kind: "internal", msg: fmt.Sprintf("no object %d", id)})
}

func (s *State) load(p Ptr) Value {
	v := s.obj(p.obj).val
	for _, i := range decPath(p.path) {
		a, ok := v.(*Agg)
		if !ok {
			undecided("load through %T", v)
		}
		if i < 0 || int(i) >= len(a.f) {
			panic(&violation{kind: "bounds", msg: fmt.Sprintf("index %d out of range [0,%d)", i, len(a.f))})
		}
		v = a.f[i]
	}
	return v
}

func setPath(v Value, path []int64, x Value, inPlace bool) Value {
	if len(path) == 0 {
		return x
	}
	a, ok := v.(*Agg)
	if !ok {
		undecided("store through %T", v)
	}
	i := path[0]
	if i < 0 || int(i) >= len(a.f) {
		panic(&violation{kind: "bounds", msg: fmt.Sprintf("index %d out of range [0,%d)", i, len(a.f))})
	}
	n := setPath(a.f[i], path[1:], x, inPlace)
	if inPlace {
		a.f[i] = n
		return a
	}
	b := &Agg{f: append([]Value(nil), a.f...)}
	b.f[i] = n
	return b
}

func (s *State) store(p Ptr, x Value) {
	o := s.obj(p.obj)
	if s.e.initMode {
		o.val = setPath(o.val, decPath(p.path), x, true)
		return
	}
	s.heap[p.obj] = &Obj{typ: o.typ, sym: o.sym, site: o.site, val: setPath(o.val, decPath(p.path), x, false)}
}

func deepCopy(v Value) Value {
	if a, ok := v.(*Agg); ok {
		n := &Agg{f: make([]Value, len(a.f))}
		for i, y := range a.f {
			n.f[i] = deepCopy(y)
		}
		return n
	}
	return v
}

func (s *State) alloc(t types.Type, v Value) int32 {
	if s.e.initMode {
		p := s.e.p
		p.globVals = append(p.globVals, nil)
		id := -int32(len(p.globVals))
		p.globals[id] = &Obj{typ: t, val: v}
		return id
	}
	s.nobj++
	id := s.nobj
	s.heap[id] = &Obj{typ: t, val: v}
	return id
}

// ---------------------------------------------------------------------------

func (s *State) eval(f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constValue(x)
	case *ssa.Global:
		return Ptr{obj: s.e.p.globalID(x)}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{name: x.Name()}
	}
	i, ok := f.fn.idx[v]
	if !ok {
		panic(&violation{kind: "internal", msg: "no register for " + v.Name()})
	}
	r := f.regs[i]
	if r == nil {
		panic(&violation{kind: "internal", msg: "read of dead register " + v.Name() + " in " + f.fn.fn.String()})
	}
	return r
}

func (s *State) set(f *Frame, v ssa.Value, x Value) { f.regs[f.fn.idx[v]] = x }

// step executes one instruction of the top frame. It returns false when the
// path ended.
func (s *State) step() bool {
	f := s.top()
	in := f.block.Instrs[f.pc]
	s.e.nInstr++
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := s.alloc(t, zeroValue(t))
		if id > 0 {
			s.heap[id].site = x
		}
		s.set(f, x, Ptr{obj: id})
		f.pc++
	case *ssa.BinOp:
		a, b := s.eval(f, x.X), s.eval(f, x.Y)
		r := s.binop(x.Op, a, b, x.X.Type(), x.Type())
		s.set(f, x, r)
		f.pc++
	case *ssa.UnOp:
		a := s.eval(f, x.X)
		s.set(f, x, s.unop(x, a))
		f.pc++
	case *ssa.ChangeType:
		s.set(f, x, s.eval(f, x.X))
		f.pc++
	case *ssa.Convert:
		s.set(f, x, s.convert(s.eval(f, x.X), x.X.Type(), x.Type()))
		f.pc++
	case *ssa.MultiConvert:
		s.set(f, x, s.convert(s.eval(f, x.X), x.X.Type(), x.Type()))
		f.pc++
	case *ssa.ChangeInterface:
		s.set(f, x, s.eval(f, x.X))
		f.pc++
	case *ssa.MakeInterface:
		s.set(f, x, Iface{x.X.Type(), s.eval(f, x.X)})
		f.pc++
	case *ssa.TypeAssert:
		s.set(f, x, s.typeAssert(x, s.eval(f, x.X)))
		f.pc++
	case *ssa.Extract:
		a := s.eval(f, x.Tuple).(*Agg)
		s.set(f, x, a.f[x.Index])
		f.pc++
	case *ssa.FieldAddr:
		switch p := s.eval(f, x.X).(type) {
		case Ptr:
			s.set(f, x, Ptr{p.obj, encIdx(p.path, int64(x.Field))})
		case Nil:
			panic(&violation{kind: "panic", msg: "nil pointer dereference"})
		default:
			undecided("field address of %T", p)
		}
		f.pc++
	case *ssa.Field:
		a, ok := s.eval(f, x.X).(*Agg)
		if !ok {
			undecided("field of non-struct")
		}
		s.set(f, x, a.f[x.Field])
		f.pc++
	case *ssa.IndexAddr:
		s.set(f, x, s.indexAddr(s.eval(f, x.X), s.eval(f, x.Index)))
		f.pc++
	case *ssa.Index:
		s.set(f, x, s.index(s.eval(f, x.X), s.eval(f, x.Index)))
		f.pc++
	case *ssa.Lookup:
		if x.CommaOk || !isText(x.X.Type()) {
			undecided("map lookup")
		}
		s.set(f, x, s.index(s.eval(f, x.X), s.eval(f, x.Index)))
		f.pc++
	case *ssa.Slice:
		var lo, hi, mx Value
		if x.Low != nil {
			lo = s.eval(f, x.Low)
		}
		if x.High != nil {
			hi = s.eval(f, x.High)
		}
		if x.Max != nil {
			mx = s.eval(f, x.Max)
		}
		s.set(f, x, s.slice(s.eval(f, x.X), lo, hi, mx, x.X.Type()))
		f.pc++
	case *ssa.MakeClosure:
		fv := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, s.eval(f, b))
		}
		s.set(f, x, fv)
		f.pc++
	case *ssa.MakeSlice:
		l, ok1 := s.eval(f, x.Len).(CInt)
		c, ok2 := s.eval(f, x.Cap).(CInt)
		if !ok1 || !ok2 || l < 0 || c < l || c > 1<<20 {
			undecided("make of a slice of unknown size")
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		a := &Agg{f: make([]Value, c)}
		z := zeroValue(el)
		for i := range a.f {
			a.f[i] = z
		}
		id := s.alloc(types.NewArray(el, int64(c)), a)
		s.set(f, x, HSlice{obj: id, lo: 0, hi: int64(l), cap: int64(c)})
		f.pc++
	case *ssa.Store:
		s.doStore(s.eval(f, x.Addr), s.eval(f, x.Val))
		f.pc++
	case *ssa.Range:
		v := s.eval(f, x.X)
		ts, ok := v.(TSlice)
		if !ok {
			if c, isC := v.(CStr); isC && c == "" {
				id := s.alloc(nil, &Agg{f: []Value{c, c}})
				s.set(f, x, Ptr{obj: id})
				f.pc++
				break
			}
			undecided("range over %T", v)
		}
		id := s.alloc(nil, &Agg{f: []Value{ts, ts}})
		s.set(f, x, Ptr{obj: id})
		f.pc++
	case *ssa.Next:
		p := s.eval(f, x.Iter).(Ptr)
		a := s.obj(p.obj).val.(*Agg)
		ts, ok := a.f[1].(TSlice)
		if !ok {
			s.set(f, x, &Agg{f: []Value{CInt(0), CInt(0), CInt(0)}})
			f.pc++
			break
		}
		base := a.f[0].(TSlice)
		if s.cmpZero(posDiff(ts.hi, ts.lo), opLE) {
			s.set(f, x, &Agg{f: []Value{CInt(0), CInt(0), CInt(0)}})
			f.pc++
			break
		}
		r, w := s.decodeRune(ts)
		k := posDiff(ts.lo, base.lo)
		np := s.linPos(s.add(s.posVal(ts.lo), w), ts.tape)
		ts.lo = s.normPos(np)
		s.heap[p.obj] = &Obj{val: &Agg{f: []Value{base, ts}}}
		s.set(f, x, &Agg{f: []Value{CInt(1), k, r}})
		f.pc++
	case *ssa.Call:
		return s.call(f, x, &x.Call)
	case *ssa.If:
		return s.doIf(f, s.eval(f, x.Cond))
	case *ssa.Jump:
		s.enter(f, f.block.Succs[0])
	case *ssa.Return:
		var r Value
		switch len(x.Results) {
		case 0:
			r = &Agg{}
		case 1:
			r = s.eval(f, x.Results[0])
		default:
			a := &Agg{}
			for _, v := range x.Results {
				a.f = append(a.f, s.eval(f, v))
			}
			r = a
		}
		return s.ret(r)
	case *ssa.RunDefers:
		if len(f.dfr) > 0 {
			undecided("deferred calls")
		}
		f.pc++
	case *ssa.Panic:
		s.e.onPanic(s, s.eval(f, x.X))
		return false
	default:
		undecided("unsupported instruction %T", in)
	}
	return true
}

func (s *State) ret(r Value) bool {
	fn := s.top().fn.fn
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.memo) > 0 {
		s.remember(fn, r)
	}
	if len(s.frames) == 0 {
		s.e.pathEnd(s, r)
		return false
	}
	c := s.top()
	if call, ok := c.block.Instrs[c.pc].(*ssa.Call); ok {
		s.set(c, call, r)
	}
	c.pc++
	return true
}

// enter moves to block b, evaluating phis.
func (s *State) enter(f *Frame, b *ssa.BasicBlock) {
	from := f.block
	pi := -1
	for k, p := range b.Preds {
		if p == from {
			pi = k
		}
	}
	type asg struct {
		v ssa.Value
		x Value
	}
	var as []asg
	n := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		// a phi operand may be dead (never read) when the phi itself is dead
		var val Value
		e := phi.Edges[pi]
		if i, ok := f.fn.idx[e]; ok {
			val = f.regs[i]
		} else {
			val = s.eval(f, e)
		}
		as = append(as, asg{phi, val})
		n++
	}
	for _, a := range as {
		f.regs[f.fn.idx[a.v]] = a.x
	}
	f.enterPairs(from, b)
	f.prev = from
	f.block = b
	f.pc = n
	f.fresh = f.fn.heads[b] || s.e.joins && len(b.Preds) > 1
}

func (s *State) doIf(f *Frame, c Value) bool {
	switch x := c.(type) {
	case CInt:
		if x != 0 {
			s.enter(f, f.block.Succs[0])
		} else {
			s.enter(f, f.block.Succs[1])
		}
		return true
	case Top:
		n := s.clone()
		s.enter(f, f.block.Succs[0])
		n.enter(n.top(), n.top().block.Succs[1])
		s.e.push(n)
		return true
	case FnVal:
		outs := s.partition(x)
		for i, o := range outs {
			n := s
			if i < len(outs)-1 {
				n = s.clone()
			}
			o.apply(n)
			g := n.top()
			if o.out {
				n.enter(g, g.block.Succs[0])
			} else {
				n.enter(g, g.block.Succs[1])
			}
			if n != s {
				s.e.push(n)
			}
		}
		return true
	}
	undecided("branch on %T", c)
	return false
}

type outcome struct {
	v   [2]int
	set [2]SetID
	n   int
	out bool
}

func (o outcome) apply(s *State) {
	for i := 0; i < o.n; i++ {
		s.vars[o.v[i]] = o.set[i]
	}
}

// partition splits on a boolean FnVal; refinement is exact except for atoms on
// which the value itself is ambiguous, which appear on both sides.
func (s *State) partition(f FnVal) []outcome {
	u := s.e.u
	t := u.fns[f.id]
	kind := func(v ValID) int { // bit0 may be false, bit1 may be true
		if v == ValTop {
			return 3
		}
		k := 0
		for _, x := range u.vals[v] {
			if x != 0 {
				k |= 2
			} else {
				k |= 1
			}
		}
		return k
	}
	var outs []outcome
	if t.n == 1 {
		s0 := s.vars[f.v[0]]
		var tb, fb []uint64 = make([]uint64, u.words), make([]uint64, u.words)
		g := u.gms[t.gm[0]]
		u.each(s0, func(i int) {
			k := kind(t.tab[g[i]])
			if k&2 != 0 {
				tb[i/64] |= 1 << (i % 64)
			}
			if k&1 != 0 {
				fb[i/64] |= 1 << (i % 64)
			}
		})
		if ts := u.internSet(tb); ts != u.empty {
			outs = append(outs, outcome{v: f.v, set: [2]SetID{ts}, n: 1, out: true})
		}
		if fs := u.internSet(fb); fs != u.empty {
			outs = append(outs, outcome{v: f.v, set: [2]SetID{fs}, n: 1, out: false})
		}
		return outs
	}
	s0, s1 := s.vars[f.v[0]], s.vars[f.v[1]]
	n1 := u.gmN[t.gm[1]]
	g0, g1 := u.gms[t.gm[0]], u.gms[t.gm[1]]
	live1 := map[int32]bool{}
	u.each(s1, func(i int) { live1[g1[i]] = true })
	rowSig := map[string][]uint64{}
	rowRep := map[string]int32{}
	var order []string
	u.each(s0, func(i int) {
		r := g0[i]
		sig := make([]byte, n1)
		for c := 0; c < n1; c++ {
			if live1[int32(c)] {
				sig[c] = byte(kind(t.tab[int(r)*n1+c])) + '0'
			} else {
				sig[c] = '.'
			}
		}
		k := string(sig)
		if rowSig[k] == nil {
			rowSig[k] = make([]uint64, u.words)
			rowRep[k] = r
			order = append(order, k)
		}
		rowSig[k][i/64] |= 1 << (i % 64)
	})
	for _, k := range order {
		rs := u.internSet(rowSig[k])
		tb, fb := make([]uint64, u.words), make([]uint64, u.words)
		u.each(s1, func(i int) {
			kd := int(k[g1[i]] - '0')
			if kd&2 != 0 {
				tb[i/64] |= 1 << (i % 64)
			}
			if kd&1 != 0 {
				fb[i/64] |= 1 << (i % 64)
			}
		})
		if ts := u.internSet(tb); ts != u.empty {
			outs = append(outs, outcome{v: f.v, set: [2]SetID{rs, ts}, n: 2, out: true})
		}
		if fs := u.internSet(fb); fs != u.empty {
			outs = append(outs, outcome{v: f.v, set: [2]SetID{rs, fs}, n: 2, out: false})
		}
	}
	return outs
}

// mkFn wraps a function of one variable, restricted to the variable's set.
func (s *State) mkFn(f FnVal) Value {
	s0 := s.vars[f.v[0]]
	s1 := SetID(-1)
	if f.n == 2 {
		s1 = s.vars[f.v[1]]
	}
	r, k, isC := s.e.u.restrict(f, s0, s1)
	if isC {
		if k == ValTop {
			return Top{}
		}
		if vs := s.e.u.vals[k]; len(vs) == 1 {
			return CInt(vs[0])
		}
		// ambiguous constant: keep as function
		return FnVal{v: f.v, n: 1, id: s.e.u.makeFn1(func(int) ValID { return k })}
	}
	return r
}

// concretize forces a value to a constant integer (forking).
func (s *State) concretize(v Value) Value {
	switch x := v.(type) {
	case RuneOf:
		return s.concretize(s.runeFn(x))
	case FnVal:
		y := s.mkFn(x)
		f, ok := y.(FnVal)
		if !ok {
			return y
		}
		s.forkFn(f)
	}
	return v
}

// forkFn forks so that the first variable of f lies in one group.
func (s *State) forkFn(f FnVal) {
	u := s.e.u
	t := u.fns[f.id]
	g := u.gms[t.gm[0]]
	groups := map[int32][]uint64{}
	var order []int32
	u.each(s.vars[f.v[0]], func(i int) {
		k := g[i]
		if groups[k] == nil {
			groups[k] = make([]uint64, u.words)
			order = append(order, k)
		}
		groups[k][i/64] |= 1 << (i % 64)
	})
	if len(order) < 2 {
		undecided("ambiguous value needed exactly")
	}
	var alts []func(*State)
	v := f.v[0]
	for _, k := range order {
		id := u.internSet(groups[k])
		alts = append(alts, func(n *State) { n.vars[v] = id })
	}
	panic(forkReq{alts})
}

// runeFn views a code point as an integer function (exact for ASCII only).
func (s *State) runeFn(r RuneOf) FnVal {
	u := s.e.u
	id := u.makeFn1(func(i int) ValID {
		if u.atoms[i].ASCII >= 0 {
			return u.val1(int64(u.atoms[i].ASCII))
		}
		return ValTop
	})
	return FnVal{v: [2]int{r.v}, n: 1, id: id}
}

func runeRange(a *Atom) (lo, hi int64) {
	if a.ASCII >= 0 {
		return int64(a.ASCII), int64(a.ASCII)
	}
	switch {
	case a.Kind != AtomRune:
		return 0xFFFD, 0xFFFD
	case a.Hi > 0:
		return int64(a.Lo), int64(a.Hi)
	case a.Width == 1:
		return 0, 0x7F
	case a.Width == 2:
		return 0x80, 0x7FF
	case a.Width == 3:
		return 0x800, 0xFFFF
	}
	return 0x10000, 0x10FFFF
}

func wrapInt(x int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(x))
	case types.Int8:
		return int64(int8(x))
	case types.Uint16:
		return int64(uint16(x))
	case types.Int16:
		return int64(int16(x))
	case types.Uint32:
		return int64(uint32(x))
	case types.Int32:
		return int64(int32(x))
	}
	return x
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func intOp(op token.Token, a, b int64, xt, rt types.Type) (int64, bool) {
	uns := isUnsigned(xt)
	switch op {
	case token.ADD:
		return wrapInt(a+b, rt), true
	case token.SUB:
		return wrapInt(a-b, rt), true
	case token.MUL:
		return wrapInt(a*b, rt), true
	case token.QUO:
		if b == 0 {
			return 0, false
		}
		if uns {
			return wrapInt(int64(uint64(a)/uint64(b)), rt), true
		}
		return wrapInt(a/b, rt), true
	case token.REM:
		if b == 0 {
			return 0, false
		}
		if uns {
			return wrapInt(int64(uint64(a)%uint64(b)), rt), true
		}
		return wrapInt(a%b, rt), true
	case token.AND:
		return a & b, true
	case token.OR:
		return a | b, true
	case token.XOR:
		return wrapInt(a^b, rt), true
	case token.AND_NOT:
		return a &^ b, true
	case token.SHL:
		if b < 0 {
			return 0, false
		}
		if b > 63 {
			return 0, true
		}
		return wrapInt(a<<uint(b), rt), true
	case token.SHR:
		if b < 0 {
			return 0, false
		}
		if b > 63 {
			b = 63
		}
		if uns {
			return wrapInt(int64(uint64(a)>>uint(b)), rt), true
		}
		return wrapInt(a>>uint(b), rt), true
	case token.EQL:
		return b2i(a == b), true
	case token.NEQ:
		return b2i(a != b), true
	}
	if uns {
		x, y := uint64(a), uint64(b)
		switch op {
		case token.LSS:
			return b2i(x < y), true
		case token.LEQ:
			return b2i(x <= y), true
		case token.GTR:
			return b2i(x > y), true
		case token.GEQ:
			return b2i(x >= y), true
		}
	}
	switch op {
	case token.LSS:
		return b2i(a < b), true
	case token.LEQ:
		return b2i(a <= b), true
	case token.GTR:
		return b2i(a > b), true
	case token.GEQ:
		return b2i(a >= b), true
	}
	return 0, false
}

func isNilable(v Value) (isNil, known bool) {
	switch x := v.(type) {
	case Nil:
		return true, true
	case Iface, Ptr, FuncV, ErrV, Opaque, HSlice, FnPtr, TPtr:
		return false, true
	case TSlice:
		_ = x
		return false, false
	case CStr:
		return false, true
	}
	return false, false
}

// FnPtr is an element address whose index is a finite function.
type FnPtr struct {
	obj  int32
	path string
	f    FnVal
}

func (s *State) binop(op token.Token, a, b Value, xt, rt types.Type) Value {
	// constants
	if x, ok := a.(CInt); ok {
		if y, ok := b.(CInt); ok {
			r, ok := intOp(op, int64(x), int64(y), xt, rt)
			if !ok {
				if op == token.QUO || op == token.REM {
					panic(&violation{kind: "panic", msg: "division by zero"})
				}
				undecided("operator %s", op)
			}
			return CInt(r)
		}
	}
	if _, ok := a.(Top); ok {
		return Top{}
	}
	if _, ok := b.(Top); ok {
		return Top{}
	}
	if fl, ok := a.(CFloat); ok {
		_ = fl
		return Top{}
	}
	// nil / identity comparisons
	if op == token.EQL || op == token.NEQ {
		if r, done := s.eqRef(a, b); done {
			switch y := r.(type) {
			case CInt:
				if op == token.NEQ {
					return CInt(1 - y)
				}
				return y
			}
			return r
		}
	}
	// strings
	if _, ok := a.(CStr); ok {
		return s.strOp(op, a, b)
	}
	if _, ok := b.(CStr); ok {
		return s.strOp(op, a, b)
	}
	if ts, ok := a.(TSlice); ok && ts.str {
		return s.strOp(op, a, b)
	}
	// joiner elements
	if x, ok := a.(AnyOf); ok {
		return s.anyOp(op, x, b)
	}
	if x, ok := b.(AnyOf); ok {
		return s.anyOp(op, x, a)
	}
	// runes
	if r, ok := a.(RuneOf); ok {
		return s.runeOp(op, r, b, false, xt, rt)
	}
	if r, ok := b.(RuneOf); ok {
		return s.runeOp(op, r, a, true, xt, rt)
	}
	// counters
	if c, ok := a.(Ctr); ok {
		return s.ctrOp(op, c, b, false)
	}
	if c, ok := b.(Ctr); ok {
		return s.ctrOp(op, c, a, true)
	}
	fa, isFa := a.(FnVal)
	fb, isFb := b.(FnVal)
	_, isLa := a.(*Lin)
	_, isLb := b.(*Lin)
	if isFa && isLb {
		return s.binop(op, s.concretize(fa), b, xt, rt)
	}
	if isFb && isLa {
		return s.binop(op, a, s.concretize(fb), xt, rt)
	}
	u := s.e.u
	if isFa || isFb {
		bad := false
		el := func(x, y int64) (int64, bool) {
			r, ok := intOp(op, x, y, xt, rt)
			if !ok {
				bad = true
			}
			return r, ok
		}
		var r FnVal
		switch {
		case isFa && isFb:
			var ok bool
			r, ok = u.combine(fa, fb, func(x, y ValID) ValID { return u.valOp2(x, y, el) })
			if !ok {
				// too many variables: split one
				if y := s.mkFn(fa); y != Value(fa) {
					return s.binop(op, y, b, xt, rt)
				}
				if y := s.mkFn(fb); y != Value(fb) {
					return s.binop(op, a, y, xt, rt)
				}
				s.forkFn(fa)
			}
		case isFa:
			c, ok := b.(CInt)
			if !ok {
				undecided("operator %s on %T and %T", op, a, b)
			}
			cv := u.val1(int64(c))
			r = u.map1(fa, func(x ValID) ValID { return u.valOp2(x, cv, el) })
		default:
			c, ok := a.(CInt)
			if !ok {
				undecided("operator %s on %T and %T", op, a, b)
			}
			cv := u.val1(int64(c))
			r = u.map1(fb, func(x ValID) ValID { return u.valOp2(cv, x, el) })
		}
		if bad {
			undecided("operator %s may fail", op)
		}
		return s.mkFn(r)
	}
	la, ok1 := linOf(a)
	lb, ok2 := linOf(b)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return noWrap(linAdd(la, lb, 1))
		case token.SUB:
			return noWrap(linAdd(la, lb, -1))
		case token.MUL:
			if len(la.t) == 0 {
				la, lb = lb, la
			}
			if len(lb.t) == 0 {
				t := make([]LTerm, len(la.t))
				for i, x := range la.t {
					t[i] = LTerm{x.m, x.c * lb.k}
				}
				return normLin(t, la.k*lb.k)
			}
		case token.LSS:
			return CInt(b2i(s.cmpZero(linAdd(la, lb, -1), opLT)))
		case token.LEQ:
			return CInt(b2i(s.cmpZero(linAdd(la, lb, -1), opLE)))
		case token.GTR:
			return CInt(b2i(s.cmpZero(linAdd(lb, la, -1), opLT)))
		case token.GEQ:
			return CInt(b2i(s.cmpZero(linAdd(lb, la, -1), opLE)))
		case token.EQL:
			return CInt(b2i(s.cmpZero(linAdd(la, lb, -1), opEQ)))
		case token.NEQ:
			return CInt(b2i(!s.cmpZero(linAdd(la, lb, -1), opEQ)))
		}
		return Top{}
	}
	undecided("operator %s on %T and %T", op, a, b)
	return nil
}

func (s *State) add(a, b Value) Value {
	la, ok1 := linOf(a)
	lb, ok2 := linOf(b)
	if !ok1 || !ok2 {
		undecided("addition of %T and %T", a, b)
	}
	return linAdd(la, lb, 1)
}

// noWrap gives up on sums that may overflow.
func noWrap(v Value) Value {
	if l, ok := v.(*Lin); ok && l.k > huge/2 {
		return Top{}
	}
	return v
}

func (s *State) posVal(p Pos) Value { return normLin([]LTerm{{p.m, 1}}, p.k) }

func (s *State) eqRef(a, b Value) (Value, bool) {
	_, an := a.(Nil)
	_, bn := b.(Nil)
	if an || bn {
		o := a
		if an {
			o = b
		}
		isN, known := isNilable(o)
		if known {
			return CInt(b2i(isN)), true
		}
		return Top{}, true
	}
	switch x := a.(type) {
	case Ptr:
		if y, ok := b.(Ptr); ok {
			return CInt(b2i(x == y)), true
		}
		return CInt(0), true
	case ErrV:
		if y, ok := b.(ErrV); ok {
			return CInt(b2i(x == y)), true
		}
		return CInt(0), true
	case Opaque:
		if y, ok := b.(Opaque); ok {
			return CInt(b2i(x == y)), true
		}
		return CInt(0), true
	case Iface:
		switch y := b.(type) {
		case Iface:
			if !types.Identical(x.t, y.t) {
				return CInt(0), true
			}
			if r, done := s.eqRef(x.v, y.v); done {
				return r, true
			}
			return Top{}, true
		case ErrV:
			return CInt(0), true
		}
	}
	return nil, false
}

func (s *State) strOp(op token.Token, a, b Value) Value {
	x, ok1 := a.(CStr)
	y, ok2 := b.(CStr)
	if ok1 && ok2 {
		switch op {
		case token.EQL:
			return CInt(b2i(x == y))
		case token.NEQ:
			return CInt(b2i(x != y))
		case token.ADD:
			return CStr(string(x) + string(y))
		case token.LSS:
			return CInt(b2i(x < y))
		}
		undecided("string operator %s", op)
	}
	if ts, ok := a.(TSlice); ok && ok2 && y == "" && (op == token.EQL || op == token.NEQ) {
		e := s.cmpZero(posDiff(ts.hi, ts.lo), opEQ)
		return CInt(b2i(e == (op == token.EQL)))
	}
	if ts, ok := b.(TSlice); ok && ok1 && x == "" && (op == token.EQL || op == token.NEQ) {
		e := s.cmpZero(posDiff(ts.hi, ts.lo), opEQ)
		return CInt(b2i(e == (op == token.EQL)))
	}
	if op == token.EQL || op == token.NEQ {
		return Top{}
	}
	undecided("string operator %s on text", op)
	return nil
}

func (s *State) ctrOp(op token.Token, c Ctr, b Value, swapped bool) Value {
	y, ok := b.(CInt)
	if !ok {
		return Top{}
	}
	k := int64(y)
	switch op {
	case token.ADD:
		m := c.min
		if k < 0 {
			m += k
			if m < 0 {
				return Top{}
			}
		}
		return Ctr{((c.mod+k)%4 + 4) % 4, m}
	case token.SUB:
		if swapped {
			return Top{}
		}
		return s.ctrOp(token.ADD, c, CInt(-k), false)
	case token.REM:
		if !swapped && (k == 2 || k == 4) {
			return CInt(c.mod % k)
		}
	case token.AND:
		if k == 1 || k == 3 {
			return CInt(c.mod & k)
		}
	case token.EQL:
		if k < c.min || (k-c.mod)%4 != 0 {
			return CInt(0)
		}
	case token.NEQ:
		if k < c.min || (k-c.mod)%4 != 0 {
			return CInt(1)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if k < c.min {
			// counter > k
			gt := op == token.GTR || op == token.GEQ
			if swapped {
				gt = !gt
			}
			return CInt(b2i(gt))
		}
	}
	return Top{}
}

func (s *State) runeOp(op token.Token, r RuneOf, b Value, swapped bool, xt, rt types.Type) Value {
	u := s.e.u
	switch y := b.(type) {
	case CInt:
		k := int64(y)
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if swapped {
				switch op {
				case token.LSS:
					op = token.GTR
				case token.LEQ:
					op = token.GEQ
				case token.GTR:
					op = token.LSS
				case token.GEQ:
					op = token.LEQ
				}
			}
			id := u.makeFn1(func(i int) ValID {
				lo, hi := runeRange(&u.atoms[i])
				mayT, mayF := false, false
				switch op {
				case token.EQL:
					mayT = lo <= k && k <= hi
					mayF = !(lo == k && hi == k)
				case token.NEQ:
					mayF = lo <= k && k <= hi
					mayT = !(lo == k && hi == k)
				case token.LSS:
					mayT, mayF = lo < k, hi >= k
				case token.LEQ:
					mayT, mayF = lo <= k, hi > k
				case token.GTR:
					mayT, mayF = hi > k, lo <= k
				case token.GEQ:
					mayT, mayF = hi >= k, lo < k
				}
				var vs []int64
				if mayT {
					vs = append(vs, 1)
				}
				if mayF {
					vs = append(vs, 0)
				}
				return u.valSet(vs)
			})
			return s.mkFn(FnVal{v: [2]int{r.v}, n: 1, id: id})
		}
	case RuneOf:
		if y.v == r.v && op == token.EQL {
			return CInt(1)
		}
		return Top{}
	}
	f := s.runeFn(r)
	if swapped {
		return s.binop(op, b, f, xt, rt)
	}
	return s.binop(op, f, b, xt, rt)
}

func (s *State) anyOp(op token.Token, x AnyOf, b Value) Value {
	if op != token.EQL && op != token.NEQ {
		undecided("operator %s on a joiner", op)
	}
	u := s.e.u
	member := func(a *Atom) bool {
		if x.list == 'M' {
			return a.JM == x.idx
		}
		return a.JL == x.idx
	}
	switch y := b.(type) {
	case RuneOf:
		id := u.makeFn1(func(i int) ValID {
			m := member(&u.atoms[i])
			if op == token.NEQ {
				m = !m
			}
			return u.val1(b2i(m))
		})
		return s.mkFn(FnVal{v: [2]int{y.v}, n: 1, id: id})
	case CInt:
		k := int64(y)
		if k < 0 || k > 127 {
			return Top{}
		}
		// decide once and for all whether the set has this character
		with := u.setOf(func(a *Atom) bool { return a.ASCII == int(k) && member(a) })
		without := u.setOf(func(a *Atom) bool { return a.ASCII == int(k) && !member(a) })
		if with == u.empty {
			return CInt(b2i(op == token.NEQ))
		}
		key := fmt.Sprintf("joiner:%c%d=%d", x.list, x.idx, k)
		if v, ok := s.memo[key]; ok {
			in := v.(CInt) != 0
			if op == token.NEQ {
				in = !in
			}
			return CInt(b2i(in))
		}
		fact := func(val CInt, remove SetID) func(*State) {
			return func(n *State) {
				if n.memo == nil {
					n.memo = map[string]Value{}
				}
				n.memo[key] = val
				n.exclude(remove)
			}
		}
		panic(forkReq{[]func(*State){fact(1, without), fact(0, with)}})
	}
	return Top{}
}

// exclude removes atoms from every set of the state.
func (s *State) exclude(rm SetID) {
	u := s.e.u
	for i := range s.vars {
		s.vars[i] = u.minus(s.vars[i], rm)
		if s.vars[i] == u.empty {
			s.depth = -1 // infeasible
		}
	}
	for _, t := range s.tapes {
		for i := range t.nodes {
			if t.nodes[i].v < 0 {
				t.nodes[i].run = u.minus(t.nodes[i].run, rm)
				if t.nodes[i].run == u.empty {
					s.depth = -1
				}
			}
		}
	}
	if s.alpha == 0 {
		s.alpha = s.e.alphabet
	}
	s.alpha = u.minus(s.alpha, rm)
}

func (s *State) unop(x *ssa.UnOp, a Value) Value {
	u := s.e.u
	switch x.Op {
	case token.MUL:
		switch p := a.(type) {
		case Ptr:
			if s.e.initMode {
				return deepCopy(s.load(p))
			}
			return s.load(p)
		case TPtr:
			return s.byteAt(p.tape, p.p)
		case FnPtr:
			return s.loadFn(p)
		case Nil:
			panic(&violation{kind: "panic", msg: "nil pointer dereference"})
		}
		undecided("load through %T", a)
	case token.NOT:
		switch v := a.(type) {
		case CInt:
			return CInt(1 - v)
		case FnVal:
			return s.mkFn(u.map1(v, func(y ValID) ValID {
				return u.valOp2(y, u.val1(0), func(p, _ int64) (int64, bool) { return b2i(p == 0), true })
			}))
		case Top:
			return v
		}
	case token.SUB:
		switch v := a.(type) {
		case CInt:
			return CInt(wrapInt(-int64(v), x.Type()))
		case *Lin:
			return linAdd(&Lin{}, v, -1)
		case FnVal:
			return s.mkFn(u.map1(v, func(y ValID) ValID {
				return u.valOp2(y, u.val1(0), func(p, _ int64) (int64, bool) { return wrapInt(-p, x.Type()), true })
			}))
		}
		return Top{}
	case token.XOR:
		switch v := a.(type) {
		case CInt:
			return CInt(wrapInt(^int64(v), x.Type()))
		case FnVal:
			return s.mkFn(u.map1(v, func(y ValID) ValID {
				return u.valOp2(y, u.val1(0), func(p, _ int64) (int64, bool) { return wrapInt(^p, x.Type()), true })
			}))
		}
		return Top{}
	}
	undecided("unary %s on %T", x.Op, a)
	return nil
}

func (s *State) loadFn(p FnPtr) Value {
	u := s.e.u
	a, ok := s.load(Ptr{p.obj, p.path}).(*Agg)
	if !ok {
		undecided("table load")
	}
	bad := ""
	r := u.map1(p.f, func(v ValID) ValID {
		if v == ValTop {
			bad = "unknown table index"
			return ValTop
		}
		var out []int64
		for _, i := range u.vals[v] {
			if i < 0 || int(i) >= len(a.f) {
				bad = fmt.Sprintf("index %d out of range [0,%d)", i, len(a.f))
				return ValTop
			}
			c, ok := a.f[i].(CInt)
			if !ok {
				bad = "table of non-integers"
				return ValTop
			}
			out = append(out, int64(c))
		}
		return u.valSet(out)
	})
	if bad != "" {
		// only report for reachable groups
		if f, ok := s.mkFn(r).(FnVal); ok && f.n == 1 {
			t := u.fns[f.id]
			for _, v := range t.tab {
				if v == ValTop {
					panic(&violation{kind: "bounds", msg: "table lookup: " + bad})
				}
			}
			return f
		}
		panic(&violation{kind: "bounds", msg: "table lookup: " + bad})
	}
	return s.mkFn(r)
}

func (s *State) convert(v Value, from, to types.Type) Value {
	u := s.e.u
	if isInt(to) && isInt(from) {
		switch x := v.(type) {
		case CInt:
			return CInt(wrapInt(int64(x), to))
		case FnVal:
			return s.mkFn(u.map1(x, func(y ValID) ValID {
				return u.valOp2(y, u.val1(0), func(p, _ int64) (int64, bool) { return wrapInt(p, to), true })
			}))
		case RuneOf:
			b := to.Underlying().(*types.Basic)
			if b.Kind() == types.Uint8 || b.Kind() == types.Int8 || b.Kind() == types.Uint16 || b.Kind() == types.Int16 {
				return s.mkFn(s.runeFn(x))
			}
			return x
		case *Lin:
			b := to.Underlying().(*types.Basic)
			switch b.Kind() {
			case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
				return x
			case types.Int32, types.Uint32:
				return x // texts longer than 2^31 bytes are outside the analysis
			}
			return Top{}
		case Top, Ctr, AnyOf:
			return v
		}
	}
	// string <-> []byte
	if ts, ok := v.(TSlice); ok && isText(to) {
		toStr := to.Underlying() != nil
		_, toStr = to.Underlying().(*types.Basic)
		if ts.str != toStr {
			ts.own = true
			if s.e.onCopy != nil {
				s.e.onCopy(s, ts)
			}
		}
		ts.str = toStr
		return ts
	}
	if c, ok := v.(CStr); ok && isText(to) {
		if _, str := to.Underlying().(*types.Basic); str {
			return c
		}
		if c == "" {
			return Nil{}
		}
		return s.bytesObj(string(c))
	}
	if _, ok := v.(Nil); ok && isText(to) {
		if _, str := to.Underlying().(*types.Basic); str {
			return CStr("")
		}
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	undecided("conversion from %s to %s", from, to)
	return nil
}

func (s *State) bytesObj(c string) Value {
	a := &Agg{}
	for i := 0; i < len(c); i++ {
		a.f = append(a.f, CInt(c[i]))
	}
	id := s.alloc(types.NewArray(types.Typ[types.Byte], int64(len(c))), a)
	return HSlice{obj: id, hi: int64(len(c)), cap: int64(len(c))}
}

func (s *State) typeAssert(x *ssa.TypeAssert, v Value) Value {
	ok := false
	var res Value
	switch y := v.(type) {
	case Iface:
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.AssignableTo(y.t, x.AssertedType)
			res = y
		} else if types.Identical(y.t, x.AssertedType) {
			ok = true
			res = y.v
		}
	case Nil:
	default:
		undecided("type assertion on %T", v)
	}
	if x.CommaOk {
		if !ok {
			res = zeroValue(x.AssertedType)
		}
		return &Agg{f: []Value{res, CInt(b2i(ok))}}
	}
	if !ok {
		panic(&violation{kind: "panic", msg: "type assertion fails"})
	}
	return res
}

func (s *State) length(v Value) Value {
	switch x := v.(type) {
	case TSlice:
		return posDiff(x.hi, x.lo)
	case CStr:
		return CInt(len(x))
	case Nil:
		return CInt(0)
	case HSlice:
		return CInt(x.hi - x.lo)
	case *Agg:
		return CInt(len(x.f))
	case Ptr:
		if a, ok := s.load(x).(*Agg); ok {
			return CInt(len(a.f))
		}
	}
	undecided("len of %T", v)
	return nil
}

func (s *State) tapeIndex(ts TSlice, idx Value) Pos {
	idx = s.concretize(idx)
	if _, ok := linOf(idx); !ok {
		undecided("index of unknown value")
	}
	if s.cmpZero(idx, opLT) {
		panic(&violation{kind: "bounds", msg: "negative index into the text"})
	}
	p := s.linPos(s.add(s.posVal(ts.lo), idx), ts.tape)
	// p < hi
	if !s.cmpZero(posDiff(p, ts.hi), opLT) {
		panic(&violation{kind: "bounds", msg: "index at or past the end of the available text"})
	}
	return p
}

func (s *State) index(v, idx Value) Value {
	switch x := v.(type) {
	case TSlice:
		p := s.tapeIndex(x, idx)
		return s.byteAt(x.tape, p)
	case CStr:
		idx = s.concretize(idx)
		i, ok := idx.(CInt)
		if !ok {
			undecided("index of constant string")
		}
		if i < 0 || int(i) >= len(x) {
			panic(&violation{kind: "bounds", msg: "index out of range"})
		}
		return CInt(x[i])
	case *Agg:
		switch i := idx.(type) {
		case CInt:
			if i < 0 || int(i) >= len(x.f) {
				panic(&violation{kind: "bounds", msg: "index out of range"})
			}
			return x.f[i]
		case FnVal:
			id := s.alloc(nil, x)
			r := s.loadFn(FnPtr{obj: id, f: i})
			delete(s.heap, id)
			return r
		}
	}
	undecided("index of %T by %T", v, idx)
	return nil
}

func (s *State) indexAddr(v, idx Value) Value {
	switch x := v.(type) {
	case TSlice:
		return TPtr{x.tape, s.tapeIndex(x, idx), x.own}
	case Ptr: // pointer to array
		switch i := idx.(type) {
		case CInt:
			a, ok := s.load(x).(*Agg)
			if !ok {
				undecided("index of non-array")
			}
			if i < 0 || int(i) >= len(a.f) {
				panic(&violation{kind: "bounds", msg: fmt.Sprintf("index %d out of range [0,%d)", i, len(a.f))})
			}
			return Ptr{x.obj, encIdx(x.path, int64(i))}
		case FnVal:
			return FnPtr{x.obj, x.path, i}
		}
	case HSlice:
		switch i := s.concretize(idx).(type) {
		case CInt:
			if i < 0 || int64(i) >= x.hi-x.lo {
				panic(&violation{kind: "bounds", msg: "slice index out of range"})
			}
			return Ptr{x.obj, encIdx(x.path, x.lo+int64(i))}
		}
	case Nil:
		panic(&violation{kind: "bounds", msg: "index into nil slice"})
	}
	undecided("index address of %T by %T", v, idx)
	return nil
}

func (s *State) slice(v, lo, hi, mx Value, t types.Type) Value {
	switch x := v.(type) {
	case TSlice:
		nl, nh := x.lo, x.hi
		if lo != nil {
			lo = s.concretize(lo)
			if s.cmpZero(lo, opLT) {
				panic(&violation{kind: "bounds", msg: "slice start is negative"})
			}
			nl = s.normPos(s.linPos(s.add(s.posVal(x.lo), lo), x.tape))
		}
		if hi != nil {
			hi = s.concretize(hi)
			if l, isConst := hi.(CInt); isConst && l < 0 {
				panic(&violation{kind: "bounds", msg: "slice end is negative"})
			}
			nh = s.normPos(s.linPos(s.add(s.posVal(x.lo), hi), x.tape))
			if !s.cmpZero(posDiff(nh, x.hi), opLE) {
				panic(&violation{kind: "bounds", msg: "slice end past the available text"})
			}
		}
		if !s.cmpZero(posDiff(nl, nh), opLE) {
			panic(&violation{kind: "bounds", msg: "slice start after its end"})
		}
		return TSlice{tape: x.tape, lo: nl, hi: nh, str: x.str, own: x.own}
	case CStr:
		a, b := int64(0), int64(len(x))
		if lo != nil {
			c, ok := s.concretize(lo).(CInt)
			if !ok {
				undecided("slice of constant string")
			}
			a = int64(c)
		}
		if hi != nil {
			c, ok := s.concretize(hi).(CInt)
			if !ok {
				undecided("slice of constant string")
			}
			b = int64(c)
		}
		if a < 0 || b > int64(len(x)) || a > b {
			panic(&violation{kind: "bounds", msg: "slice out of range"})
		}
		return x[a:b]
	case Nil:
		for _, y := range []Value{lo, hi} {
			if y == nil {
				continue
			}
			c, ok := s.concretize(y).(CInt)
			if !ok {
				undecided("slice of nil")
			}
			if c != 0 {
				panic(&violation{kind: "bounds", msg: "slice of nil out of range"})
			}
		}
		return x
	case HSlice, Ptr:
		var h HSlice
		if p, ok := x.(Ptr); ok {
			a, isA := s.load(p).(*Agg)
			if !isA {
				undecided("slice of pointer")
			}
			h = HSlice{obj: p.obj, path: p.path, hi: int64(len(a.f)), cap: int64(len(a.f))}
		} else {
			h = x.(HSlice)
		}
		a, b := int64(0), h.hi-h.lo
		for k, y := range []Value{lo, hi} {
			if y == nil {
				continue
			}
			c, ok := s.concretize(y).(CInt)
			if !ok {
				undecided("slice bounds")
			}
			if k == 0 {
				a = int64(c)
			} else {
				b = int64(c)
			}
		}
		if a < 0 || a > b || h.lo+b > h.cap {
			panic(&violation{kind: "bounds", msg: "slice out of range"})
		}
		return HSlice{obj: h.obj, path: h.path, lo: h.lo + a, hi: h.lo + b, cap: h.cap}
	}
	undecided("slice of %T", v)
	return nil
}

func (s *State) doStore(addr, v Value) {
	switch p := addr.(type) {
	case Ptr:
		if p.obj < 0 && !s.e.initMode {
			panic(&violation{kind: "effect", msg: "writes package-level variable " + s.e.p.globalName(p.obj)})
		}
		s.store(p, v)
		return
	case TPtr:
		if p.own {
			undecided("store into a copied text")
		}
		panic(&violation{kind: "effect", msg: "writes into the caller's text"})
	case Nil:
		panic(&violation{kind: "panic", msg: "nil pointer dereference"})
	}
	undecided("store through %T", addr)
}

// byteAt reads the byte at p (already checked to be inside the text).
func (s *State) byteAt(tape int, p Pos) Value {
	t, idx, k := s.exactPos(p)
	tp := s.tapes[t]
	if idx < 0 || idx >= len(tp.nodes) {
		panic(&violation{kind: "bounds", msg: "read past the end of the text"})
	}
	tp.nodes[idx].seen = true
	nd := tp.nodes[idx]
	return s.mkFn(FnVal{v: [2]int{nd.v}, n: 1, id: s.e.byteFn(int(k))})
}

// decodeRune models utf8.DecodeRune on a text.
func (s *State) decodeRune(ts TSlice) (Value, Value) {
	if s.cmpZero(posDiff(ts.hi, ts.lo), opLE) {
		return CInt(0xFFFD), CInt(0)
	}
	t, idx, k := s.exactPos(ts.lo)
	tp := s.tapes[t]
	nd := tp.nodes[idx]
	if k > 0 {
		s.e.u.each(s.vars[nd.v], func(i int) {
			if a := &s.e.u.atoms[i]; a.Kind == AtomBad && !contOnly(a, int(k)) {
				undecided("decoding inside malformed text")
			}
		})
		return CInt(0xFFFD), CInt(1)
	}
	if !s.cmpZero(posDiff(Pos{nd.id, 0}, ts.hi), opLE) {
		return CInt(0xFFFD), CInt(1)
	}
	u := s.e.u
	set := s.vars[nd.v]
	runes := u.setOf(func(a *Atom) bool { return a.Kind == AtomRune })
	if u.inter(set, runes) == u.empty {
		return CInt(0xFFFD), CInt(1)
	}
	if !u.subset(set, runes) {
		s.forkVar(nd.v, func(a *Atom) int64 { return b2i(a.Kind == AtomRune) })
	}
	prev := bosMark(t)
	if idx > 0 {
		prev = tp.nodes[idx-1].id
	}
	tp.nodes[idx].seen = true
	return RuneOf{nd.v}, posDiff(Pos{nd.id, 0}, Pos{prev, 0})
}

func shortPos(p token.Position) string {
	f := p.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}
