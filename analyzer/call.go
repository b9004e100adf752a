package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (s *State) call(f *Frame, in *ssa.Call, c *ssa.CallCommon) bool {
	args := make([]Value, 0, len(c.Args))
	for _, a := range c.Args {
		args = append(args, s.eval(f, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		r := s.builtin(b.Name(), args, c)
		s.set(f, in, r)
		f.pc++
		return true
	}
	if c.IsInvoke() {
		undecided("call of interface method %s", c.Method.Name())
	}
	fv, ok := s.eval(f, c.Value).(FuncV)
	if !ok {
		if _, n := s.eval(f, c.Value).(Nil); n {
			panic(&violation{kind: "panic", msg: "call of nil function"})
		}
		undecided("call of %T", s.eval(f, c.Value))
	}
	return s.invoke(f, in, fv, args)
}

func (s *State) invoke(f *Frame, in *ssa.Call, fv FuncV, args []Value) bool {
	finish := func(r Value) bool {
		s.set(f, in, r)
		f.pc++
		return true
	}
	if fv.fn == nil {
		h := s.e.opaque[fv.name]
		if h == nil {
			undecided("call of opaque function %s", fv.name)
		}
		r, cont := h(s, args)
		if !cont {
			return false
		}
		return finish(r)
	}
	fn := fv.fn
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	if strings.HasPrefix(name, "verif") && s.e.isHarness(fn) {
		if h, ok := intrinsics[name]; ok {
			r, cont := h(s, in, args)
			if !cont {
				return false
			}
			return finish(r)
		}
	}
	if sum := s.e.summary(fn); sum != nil {
		r := sum(s, args)
		return finish(r)
	}
	if s.e.initMode && fn.Synthetic == "package initializer" {
		return finish(&Agg{})
	}
	if s.e.p.inModule(fn) && len(fn.Blocks) > 0 {
		if r, done := s.recall(fn, args); done {
			return finish(r)
		}
		return s.pushFrame(fn, fv.bind, args, in)
	}
	if m, ok := stdModels[fn.String()]; ok {
		return finish(m(s, in, args))
	}
	if fn.Origin() != nil {
		if m, ok := stdModels[fn.Origin().String()]; ok {
			return finish(m(s, in, args))
		}
	}
	if m := goModels[goModelKey(fn)]; m != "" && !s.e.initMode {
		for _, fr := range s.frames {
			if g := fr.fn.fn; s.e.isHarness(g) && g.Pkg != nil {
				if b := g.Pkg.Func(m); b != nil {
					return s.pushFrame(b, nil, args, in)
				}
			}
		}
	}
	if stdBody(fn) && !s.e.initMode {
		return s.pushFrame(fn, fv.bind, args, in)
	}
	// synthetic wrappers (bound methods, promoted methods) outside packages
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Pkg == nil {
		return s.pushFrame(fn, fv.bind, args, in)
	}
	if s.e.initMode {
		if fn.Synthetic != "package initializer" && fn.Signature.Results().Len() > 1 {
			a := &Agg{}
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				a.f = append(a.f, Opaque{name: fn.String(), id: i})
			}
			return finish(a)
		}
		return finish(Opaque{name: fn.String()})
	}
	undecided("call of unmodelled function %s", fn.String())
	return false
}

// recall answers a call from the remembered call of the same function, when a
// client asked to remember calls: the result of a call depends on the arguments
// and on what they point at alone (C13: there is no other state). Remembered are
// calls of Next, and calls outside of loops that look at a text.
func (s *State) recall(fn *ssa.Function, args []Value) (Value, bool) {
	if s.memo["remember"] == nil {
		return nil, false
	}
	next := fn.Name() == "Next" && len(args) == 1 && fn.Signature.Recv() != nil
	if !next {
		if len(args) == 0 || fn.Signature.Results().Len() == 0 {
			return nil, false
		}
		for i := len(s.frames) - 1; i >= 0; i-- {
			f := s.frames[i]
			if s.e.isHarness(f.fn.fn) {
				break
			}
			for _, body := range f.fn.loops {
				if body[f.block] {
					return nil, false
				}
			}
		}
	}
	var p Ptr
	hasPtr, text := false, next
	for i, a := range args {
		switch x := a.(type) {
		case Ptr:
			if i > 0 || fn.Signature.Recv() == nil {
				return nil, false
			}
			p, hasPtr = x, true
		case TSlice:
			text = true
		case CInt, *Lin, CStr, Nil:
		default:
			return nil, false
		}
	}
	if !text {
		return nil, false
	}
	var now Value = &Agg{}
	if hasPtr {
		now = deepCopy(s.load(p))
	}
	deep, ok := s.inline(blankUnread(fn, now), 0)
	if !ok {
		return nil, false
	}
	rest := args
	if hasPtr {
		rest = args[1:]
	}
	deep = &Agg{f: append([]Value{deep}, rest...)}
	key := "called:" + fn.String()
	if m, ok := s.memo[key]; ok {
		a := m.(*Agg)
		if s.sameVal(a.f[0], deep, 0) && (!hasPtr || settled(fn, now, a.f[1], a.f[2])) {
			if hasPtr {
				s.store(p, changed(now, a.f[1], a.f[2]))
			}
			return a.f[3], true
		}
	}
	var at Value = CInt(0)
	if hasPtr {
		at = p
	}
	s.memo[fmt.Sprintf("calling:%d:%s", len(s.frames), fn.String())] = &Agg{f: []Value{deep, now, at}}
	return nil, false
}

// changed is now with the parts that differ between before and after.
func changed(now, before, after Value) Value {
	n, ok1 := now.(*Agg)
	b, ok2 := before.(*Agg)
	a, ok3 := after.(*Agg)
	if ok1 && ok2 && ok3 && len(n.f) == len(b.f) && len(b.f) == len(a.f) {
		r := &Agg{f: make([]Value, len(n.f))}
		for i := range n.f {
			r.f[i] = changed(n.f[i], b.f[i], a.f[i])
		}
		return r
	}
	if identical(before, after) {
		return now
	}
	return deepCopy(after)
}

func identical(a, b Value) bool {
	ka, kb := &keyer{}, &keyer{}
	ka.val(a)
	kb.val(b)
	return string(ka.b) == string(kb.b)
}

// unread reports that a method never reads field i of its receiver as it was at
// the call (but may write it).
func unread(fn *ssa.Function, i int, depth int) bool {
	if depth > 4 || len(fn.Params) == 0 || len(fn.Blocks) == 0 || fn.Params[0].Referrers() == nil {
		return false
	}
	var stores, reads []ssa.Instruction
	for _, in := range *fn.Params[0].Referrers() {
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if x.Field != i {
				continue
			}
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.DebugRef:
				case *ssa.Store:
					if y.Val == ssa.Value(x) {
						return false
					}
					stores = append(stores, y)
				case *ssa.UnOp:
					reads = append(reads, y)
				default:
					return false
				}
			}
		case *ssa.Call:
			cal := x.Call.StaticCallee()
			if cal == nil || len(x.Call.Args) == 0 || x.Call.Args[0] != ssa.Value(fn.Params[0]) || !unread(cal, i, depth+1) {
				reads = append(reads, x)
			}
		default:
			reads = append(reads, x)
		}
	}
	before := func(a, b ssa.Instruction) bool {
		if a.Block() != b.Block() {
			return a.Block().Dominates(b.Block())
		}
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
		return false
	}
	for _, r := range reads {
		ok := false
		for _, w := range stores {
			ok = ok || before(w, r)
		}
		if !ok {
			return false
		}
	}
	return true
}

// writes reports that a method for which unread holds may write field i.
func writes(fn *ssa.Function, i int, depth int) bool {
	if depth > 4 || fn.Params[0].Referrers() == nil {
		return true
	}
	for _, in := range *fn.Params[0].Referrers() {
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if x.Field == i {
				for _, u := range *x.Referrers() {
					if _, ok := u.(*ssa.Store); ok {
						return true
					}
				}
			}
		case *ssa.Call:
			cal := x.Call.StaticCallee()
			if cal == nil || len(cal.Params) == 0 || x.Call.Args[0] != ssa.Value(fn.Params[0]) || writes(cal, i, depth+1) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// blankUnread hides the fields of an iterator its method never reads.
func blankUnread(fn *ssa.Function, v Value) Value {
	a, ok := v.(*Agg)
	if !ok {
		return v
	}
	r := &Agg{f: append([]Value(nil), a.f...)}
	for i := range r.f {
		if unread(fn, i, 0) {
			r.f[i] = CInt(0)
		}
	}
	return r
}

// settled reports that the recorded call tells what the fields never read hold
// afterwards: they were changed, or are now what they were then.
func settled(fn *ssa.Function, now, before, after Value) bool {
	n, ok1 := now.(*Agg)
	b, ok2 := before.(*Agg)
	a, ok3 := after.(*Agg)
	if !ok1 || !ok2 || !ok3 {
		return false
	}
	for i := range n.f {
		if unread(fn, i, 0) && writes(fn, i, 0) && identical(b.f[i], a.f[i]) && !identical(n.f[i], b.f[i]) {
			return false
		}
	}
	return true
}

// inline replaces pointers by what they point at.
func (s *State) inline(v Value, depth int) (Value, bool) {
	if depth > 5 {
		return nil, false
	}
	list := func(xs []Value) ([]Value, bool) {
		r := make([]Value, len(xs))
		for i, x := range xs {
			y, ok := s.inline(x, depth+1)
			if !ok {
				return nil, false
			}
			r[i] = y
		}
		return r, true
	}
	switch x := v.(type) {
	case Ptr:
		y, ok := s.inline(s.load(x), depth+1)
		return &Agg{f: []Value{Opaque{name: "pointer"}, y}}, ok
	case HSlice:
		a, ok := s.load(Ptr{x.obj, x.path}).(*Agg)
		if !ok || x.hi-x.lo > 8 || x.hi > int64(len(a.f)) {
			return nil, false
		}
		r, ok := list(a.f[x.lo:x.hi])
		return &Agg{f: append([]Value{Opaque{name: "slice"}}, r...)}, ok
	case FuncV:
		r, ok := list(x.bind)
		x.bind = r
		return x, ok
	case Iface:
		y, ok := s.inline(x.v, depth+1)
		x.v = y
		return x, ok
	case *Agg:
		if len(x.f) > 32 {
			return nil, false
		}
		r, ok := list(x.f)
		return &Agg{f: r}, ok
	case FnPtr:
		return nil, false
	}
	return v, true
}

// remember notes the end of a call.
func (s *State) remember(fn *ssa.Function, r Value) {
	k := fmt.Sprintf("calling:%d:%s", len(s.frames), fn.String())
	m, ok := s.memo[k]
	if !ok {
		return
	}
	delete(s.memo, k)
	a := m.(*Agg)
	after := a.f[1]
	if p, ok := a.f[2].(Ptr); ok {
		after = deepCopy(s.load(p))
		// the iterator may change, what it points at must not
		before, ok := s.inline(blankUnread(fn, a.f[1]), 0)
		if !ok || !s.sameVal(a.f[0].(*Agg).f[0], before, 0) {
			return
		}
	}
	s.memo["called:"+fn.String()] = &Agg{f: []Value{a.f[0], a.f[1], after, r}}
}

func (s *State) pushFrame(fn *ssa.Function, bind, args []Value, in ssa.Instruction) bool {
	if len(s.frames) > 60 {
		undecided("call depth")
	}
	fi := s.e.p.info(fn)
	if s.e.fnSeen != nil {
		s.e.fnSeen[fn] = true
	}
	fr := &Frame{fn: fi, regs: make([]Value, len(fi.vals)+len(fi.pairs)), block: fn.Blocks[0], call: in}
	for i, p := range fn.Params {
		fr.regs[fi.idx[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[fi.idx[p]] = bind[i]
	}
	fr.fresh = fi.heads[fn.Blocks[0]]
	s.frames = append(s.frames, fr)
	return true
}

func (s *State) builtin(name string, args []Value, c *ssa.CallCommon) Value {
	switch name {
	case "len":
		return s.length(args[0])
	case "cap":
		switch x := args[0].(type) {
		case HSlice:
			return CInt(x.cap - x.lo)
		case Nil:
			return CInt(0)
		case TSlice:
			return Top{}
		}
		return s.length(args[0])
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			if isInt(c.Args[0].Type()) {
				a, b := s.concretize(r), s.concretize(y)
				if _, ok := linOf(a); !ok {
					undecided("min/max of unknown")
				}
				if _, ok := linOf(b); !ok {
					undecided("min/max of unknown")
				}
				d := linAddV(a, b, -1)
				less := s.cmpZero(d, opLT)
				if less == (name == "min") {
					r = a
				} else {
					r = b
				}
			} else {
				undecided("min/max")
			}
		}
		return r
	case "append":
		switch x := args[0].(type) {
		case TSlice:
			if !x.own {
				panic(&violation{kind: "effect", msg: "append may write into the caller's text"})
			}
			undecided("append to a text")
		case Nil, HSlice:
			var h HSlice
			if y, ok := x.(HSlice); ok {
				h = y
			}
			var add []Value
			if len(args) > 1 {
				switch y := args[1].(type) {
				case HSlice:
					a := s.load(Ptr{y.obj, y.path}).(*Agg)
					add = a.f[y.lo:y.hi]
				case Nil:
				case CStr:
					for i := 0; i < len(y); i++ {
						add = append(add, CInt(y[i]))
					}
				default:
					undecided("append of %T", y)
				}
			}
			n := &Agg{}
			if h.hi > h.lo {
				a := s.load(Ptr{h.obj, h.path}).(*Agg)
				n.f = append(n.f, a.f[h.lo:h.hi]...)
			}
			n.f = append(n.f, add...)
			if len(n.f) == 0 {
				return args[0]
			}
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			id := s.alloc(types.NewArray(el, int64(len(n.f))), n)
			return HSlice{obj: id, hi: int64(len(n.f)), cap: int64(len(n.f))}
		}
	case "copy":
		if x, ok := args[0].(TSlice); ok && !x.own {
			panic(&violation{kind: "effect", msg: "copy writes into the caller's text"})
		}
		undecided("copy")
	case "ssa:wrapnilchk":
		if _, n := args[0].(Nil); n {
			panic(&violation{kind: "panic", msg: "nil pointer dereference"})
		}
		return args[0]
	case "print", "println":
		return &Agg{}
	}
	undecided("builtin %s", name)
	return nil
}

func linAddV(a, b Value, sign int64) Value {
	la, ok1 := linOf(a)
	lb, ok2 := linOf(b)
	if !ok1 || !ok2 {
		undecided("arithmetic on unknown value")
	}
	return linAdd(la, lb, sign)
}

type stdModel func(s *State, in *ssa.Call, args []Value) Value

var stdModels map[string]stdModel

func (s *State) asText(v Value) (TSlice, bool) {
	ts, ok := v.(TSlice)
	return ts, ok
}

func decodeModel(s *State, in *ssa.Call, args []Value) Value {
	switch x := args[0].(type) {
	case TSlice:
		r, w := s.decodeRune(x)
		return &Agg{f: []Value{r, w}}
	case CStr:
		if x == "" {
			return &Agg{f: []Value{CInt(0xFFFD), CInt(0)}}
		}
	case Nil:
		return &Agg{f: []Value{CInt(0xFFFD), CInt(0)}}
	}
	undecided("decode of %T", args[0])
	return nil
}

// elements of a slice held in the heap
func (s *State) elems(v Value) []Value {
	switch y := v.(type) {
	case HSlice:
		a, ok := s.load(Ptr{y.obj, y.path}).(*Agg)
		if !ok {
			undecided("slice elements")
		}
		return a.f[y.lo:y.hi]
	case Nil:
		return nil
	}
	undecided("elements of %T", v)
	return nil
}

// boolOf forces a truth value, forking.
func (s *State) boolOf(v Value) bool {
	switch x := v.(type) {
	case CInt:
		return x != 0
	case FnVal:
		outs := s.partition(x)
		if len(outs) == 1 {
			return outs[0].out
		}
		amb := false
		var alts []func(*State)
		for _, o := range outs {
			o := o
			alts = append(alts, func(n *State) { o.apply(n) })
		}
		// ambiguous atoms would loop forever
		u := s.e.u
		if x.n == 1 {
			if u.inter(outs[0].set[0], outs[1].set[0]) != u.empty {
				amb = true
			}
		}
		if amb {
			undecided("ambiguous condition inside a library model")
		}
		panic(forkReq{alts})
	}
	undecided("condition of %T", v)
	return false
}

type ssaCall = ssa.Call

func init() {
	stdModels = map[string]stdModel{
		"unicode/utf8.DecodeRune":         decodeModel,
		"unicode/utf8.DecodeRuneInString": decodeModel,
		"unicode/utf8.RuneLen": func(s *State, in *ssa.Call, args []Value) Value {
			return s.runeInt(args[0], func(a *Atom) int64 {
				if a.Kind != AtomRune {
					return 3
				}
				return int64(a.Width)
			})
		},
		"unicode/utf8.FullRune":         fullRune,
		"unicode/utf8.FullRuneInString": fullRune,
		"unicode/utf8.ValidRune": func(s *State, in *ssa.Call, args []Value) Value {
			return s.runeInt(args[0], func(a *Atom) int64 { return 1 })
		},
		"unicode/utf8.RuneStart": func(s *State, in *ssa.Call, args []Value) Value {
			u := s.e.u
			switch x := args[0].(type) {
			case CInt:
				return CInt(b2i(x&0xC0 != 0x80))
			case FnVal:
				return s.mkFn(u.map1(x, func(y ValID) ValID {
					return u.valOp2(y, u.val1(0), func(p, _ int64) (int64, bool) { return b2i(p&0xC0 != 0x80), true })
				}))
			}
			return Top{}
		},
		"slices.Contains": func(s *State, in *ssa.Call, args []Value) Value {
			for _, e := range s.elems(args[0]) {
				if s.boolOf(s.binopEq(e, args[1])) {
					return CInt(1)
				}
			}
			return CInt(0)
		},
		"slices.Index": func(s *State, in *ssa.Call, args []Value) Value {
			for i, e := range s.elems(args[0]) {
				if s.boolOf(s.binopEq(e, args[1])) {
					return CInt(i)
				}
			}
			return CInt(-1)
		},
		"errors.New": func(s *State, in *ssa.Call, args []Value) Value { return ErrV{"errors.New"} },
		"fmt.Errorf": func(s *State, in *ssa.Call, args []Value) Value { return ErrV{"fmt.Errorf"} },
		"bufio.NewScanner": func(s *State, in *ssa.Call, args []Value) Value {
			id := s.alloc(nil, &Agg{f: []Value{args[0], Nil{}, CInt(64 * 1024)}})
			s.heap[id].sym = "bufio.Scanner"
			return Ptr{obj: id}
		},
		"(*bufio.Scanner).Split": func(s *State, in *ssa.Call, args []Value) Value {
			p := s.scannerObj(args[0])
			s.store(Ptr{p.obj, encIdx("", 1)}, args[1])
			return &Agg{}
		},
		"(*bufio.Scanner).Buffer": func(s *State, in *ssa.Call, args []Value) Value {
			p := s.scannerObj(args[0])
			s.store(Ptr{p.obj, encIdx("", 2)}, args[2])
			return &Agg{}
		},
		"bufio.NewReader":     func(s *State, in *ssa.Call, args []Value) Value { return Iface{in.Type(), args[0]} },
		"bufio.NewReaderSize": func(s *State, in *ssa.Call, args []Value) Value { return Iface{in.Type(), args[0]} },
	}
}

func (s *State) binopEq(a, b Value) Value {
	return s.binop(tokenEQL, a, b, types.Typ[types.Int32], types.Typ[types.Bool])
}

func (s *State) scannerObj(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		undecided("scanner receiver %T", v)
	}
	if s.obj(p.obj).sym != "bufio.Scanner" {
		undecided("scanner receiver is not a bufio.Scanner")
	}
	return p
}

func (s *State) runeInt(v Value, f func(a *Atom) int64) Value {
	switch x := v.(type) {
	case RuneOf:
		u := s.e.u
		return s.mkFn(FnVal{v: [2]int{x.v}, n: 1, id: u.makeFn1(func(i int) ValID { return u.val1(f(&u.atoms[i])) })})
	case CInt:
		switch {
		case x < 0:
			return CInt(-1)
		case x < 0x80:
			return CInt(1)
		case x < 0x800:
			return CInt(2)
		case x >= 0xD800 && x < 0xE000:
			return CInt(-1)
		case x < 0x10000:
			return CInt(3)
		case x < 0x110000:
			return CInt(4)
		}
		return CInt(-1)
	}
	undecided("rune property of %T", v)
	return nil
}

func fullRune(s *State, in *ssa.Call, args []Value) Value {
	ts, ok := args[0].(TSlice)
	if !ok {
		undecided("FullRune of %T", args[0])
	}
	if s.cmpZero(posDiff(ts.hi, ts.lo), opLE) {
		return CInt(0)
	}
	t, idx, k := s.exactPos(ts.lo)
	if k > 0 {
		return CInt(1) // a continuation byte is a complete (invalid) item
	}
	nd := s.tapes[t].nodes[idx]
	u := s.e.u
	for i := range u.atoms {
		if a := &u.atoms[i]; u.has(s.vars[nd.v], i) && (a.Kind == AtomBadTail || a.Kind != AtomRune && a.Lead[len(a.Lead)-1] >= 0xC2) {
			return Top{}
		}
	}
	return CInt(b2i(s.cmpZero(posDiff(Pos{nd.id, 0}, ts.hi), opLE)))
}

var _ = fmt.Sprint
