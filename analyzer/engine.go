package main

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const tokenEQL = token.EQL

// Program is the loaded module: SSA, static classification, initial globals.
type Program struct {
	mu       sync.Mutex
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by import path
	modPaths map[string]bool
	infos    map[*ssa.Function]*FnInfo
	cls      *classes
	globIDs  map[*ssa.Global]int32
	globVals []*ssa.Global
	globals  map[int32]*Obj
	fset     *token.FileSet
	harness  map[string]bool // file names of harness overlays
	fns      []*ssa.Function
	fmask    map[fieldKey]uint64
}

func (p *Program) globalID(g *ssa.Global) int32 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if id, ok := p.globIDs[g]; ok {
		return id
	}
	p.globVals = append(p.globVals, g)
	id := -int32(len(p.globVals))
	p.globIDs[g] = id
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := &Obj{typ: t, val: zeroValue(t)}
	if g.Pkg == nil || !p.modPaths[g.Pkg.Pkg.Path()] {
		// a variable of another package: its value is unknown
		o.val = Top{}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
			o.val = Opaque{name: g.String()}
		}
	}
	p.globals[id] = o
	return id
}

func (p *Program) globalName(id int32) string {
	p.mu.Lock()
	defer p.mu.Unlock()
	if int(-id-1) < len(p.globVals) && p.globVals[-id-1] != nil {
		return p.globVals[-id-1].String()
	}
	return "?"
}

func (p *Program) inModule(fn *ssa.Function) bool {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
		if f.Origin() != nil {
			f = f.Origin()
		}
	}
	if f.Pkg == nil {
		// bound-method and wrapper functions
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return p.modPaths[o.Pkg().Path()]
		}
		return false
	}
	return p.modPaths[f.Pkg.Pkg.Path()]
}

// Engine explores one harness.
type Engine struct {
	p         *Program
	u         *Universe
	name      string
	alphabet  SetID
	badTail   SetID
	wide      SetID
	wideOK    bool
	bads      SetID
	badOK     bool
	splitMemo []string // results of the split function to remember
	keepOne   bool     // lone characters between positions of interest stay lone
	joins     bool     // also merge states where control flow joins
	forget    bool     // text read ahead is forgotten
	coarse    bool     // classes are left open
	tick      int64
	propFn    FnID // class value per character
	lookupOK  bool
	summ      map[*ssa.Function]func(s *State, args []Value) Value
	summAny   func(fn *ssa.Function) func(s *State, args []Value) Value
	opaque    map[string]func(s *State, args []Value) (Value, bool)
	onExtend  func(s *State, t int)
	onCopy    func(s *State, ts TSlice)
	panicOK   func(s *State, v Value) bool
	boundsOK  bool // out-of-range accesses count as panics
	newMon    func(tape int) Monitor
	onMore    func(s *State, ts TSlice)
	onEnd     func(s *State, r Value)
	onResult  func(s *State, args []Value)
	initMode  bool
	unroll    bool // follow loops as far as they go instead of to a fixpoint
	term      bool // termination analysis
	keepLast  bool
	keepEnds  bool // keep the character before every live position
	keepText  bool
	strategy  int
	params    map[string]int64

	bfn      map[int]FnID
	visited  map[string]int32
	work     []*State
	viol     []*Report
	maxViol  int
	deadline time.Time
	limit    int

	edges  []edge
	heads  []string // description per state id
	fnSeen map[*ssa.Function]bool

	nInstr, nStates, nForks, nPaths, nBound, nMore, nOblig, nTokens int64
	samples                                                         []string
	closeC                                                          map[string]SetID
	fnNums                                                          map[*ssa.Function]int
	trace                                                           bool
	keyDump                                                         bool
	preds                                                           []int32
	descs                                                           []string
}

type Report struct {
	Kind, Msg, Pos, Text string
	Stack                []string
	Engine               string
}

func (r *Report) String() string {
	return fmt.Sprintf("[%s] %s: %s at %s; text: %s; stack: %s", r.Engine, r.Kind, r.Msg, r.Pos, r.Text, strings.Join(r.Stack, " < "))
}

type edge struct {
	from, to int32
	head     string // loop head id, "" when not a loop-head arrival
	entry    bool   // first arrival
	deltas   []int8 // +1 up, -1 down, 0 same, 9 unknown
	keys     []string
}

func NewEngine(p *Program, u *Universe, name string) *Engine {
	e := &Engine{p: p, u: u, name: name, visited: map[string]int32{}, maxViol: 1, limit: 4000000,
		bfn: map[int]FnID{}, summ: map[*ssa.Function]func(s *State, args []Value) Value{},
		opaque: map[string]func(s *State, args []Value) (Value, bool){}, fnSeen: map[*ssa.Function]bool{}, params: map[string]int64{}}
	if u != nil {
		e.alphabet = u.full
	}
	return e
}

func (e *Engine) isHarness(fn *ssa.Function) bool { return e.p.isHarness(fn) }

func (p *Program) isHarness(fn *ssa.Function) bool {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return p.harness[p.fset.Position(fn.Pos()).Filename]
}

func (e *Engine) summary(fn *ssa.Function) func(s *State, args []Value) Value {
	if f, ok := e.summ[fn]; ok {
		return f
	}
	if fn.Origin() != nil {
		if f, ok := e.summ[fn.Origin()]; ok {
			return f
		}
	}
	if e.summAny != nil {
		return e.summAny(fn)
	}
	return nil
}

func (e *Engine) byteFn(k int) FnID {
	if id, ok := e.bfn[k]; ok {
		return id
	}
	u := e.u
	cont := make([]int64, 64)
	for i := range cont {
		cont[i] = int64(0x80 + i)
	}
	cv := u.valSet(cont)
	id := u.makeFn1(func(i int) ValID {
		a := &u.atoms[i]
		if k == 0 {
			if a.ASCII >= 0 {
				return u.val1(int64(a.ASCII))
			}
			return u.valSet(append([]int64(nil), a.Lead...))
		}
		if k < a.Width {
			if k-1 < len(a.Inner) {
				return u.valSet(append([]int64(nil), a.Inner[k-1]...))
			}
			return cv
		}
		return u.val1(-1)
	})
	e.bfn[k] = id
	return id
}

func (e *Engine) push(s *State) { e.work = append(e.work, s) }

func (e *Engine) pathEnd(s *State, r Value) {
	e.nPaths++
	if e.onEnd != nil {
		e.onEnd(s, r)
	}
}

func (e *Engine) onPanic(s *State, v Value) {
	if e.panicOK != nil && e.panicOK(s, v) {
		return
	}
	m := "panic"
	if i, ok := v.(Iface); ok {
		if c, ok := i.v.(CStr); ok {
			m = "panic(" + fmt.Sprintf("%q", string(c)) + ")"
		}
	}
	panic(&violation{kind: "panic", msg: "reachable " + m})
}

// Explore runs the harness function from its entry.
func (e *Engine) Explore(fn *ssa.Function, args []Value) {
	s := &State{e: e, heap: map[int32]*Obj{}, pred: -1}
	e.ExploreFrom(s, fn, args)
}

func (e *Engine) ExploreFrom(s *State, fn *ssa.Function, args []Value) {
	s.pushFrame(fn, nil, args, nil)
	e.push(s)
	for len(e.work) > 0 {
		if len(e.viol) >= e.maxViol {
			return
		}
		if len(e.visited) > e.limit {
			e.viol = append(e.viol, &Report{Kind: "undecided", Msg: fmt.Sprintf("state budget of %d exhausted", e.limit), Engine: e.name})
			return
		}
		if e.late() {
			e.viol = append(e.viol, &Report{Kind: "undecided", Msg: "time or memory budget exhausted", Engine: e.name})
			return
		}
		n := len(e.work) - 1
		st := e.work[n]
		e.work[n] = nil
		e.work = e.work[:n]
		e.runPath(st)
	}
	if e.term && len(e.viol) == 0 {
		e.checkTermination()
	}
}

// late reports whether the time budget is used up.
func (e *Engine) late() bool {
	e.tick++
	if e.tick&0x3ffff == 0 && os.Getenv("UAXDEBUG") != "" {
		fmt.Fprintln(os.Stderr, e.name, len(e.visited), "states", len(e.work), "open", e.nForks, "forks", e.tick)
	}
	if atomic.LoadInt32(&memoryLow) != 0 {
		return true
	}
	return e.tick&0x3f == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline)
}

// memoryLow is set while the process holds more memory than it should.
var memoryLow int32

// watchMemory keeps the analyser from being ended for its use of memory: an
// exploration that runs into the limit is undecided.
func watchMemory(limit uint64) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		metrics.Read(sample)
		low := int32(0)
		if sample[0].Value.Kind() == metrics.KindUint64 && sample[0].Value.Uint64() > limit {
			low = 1
		}
		atomic.StoreInt32(&memoryLow, low)
		if low == 1 {
			runtime.GC()
		}
		time.Sleep(200 * time.Millisecond)
	}
}

func (e *Engine) runPath(s *State) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case forkReq:
			e.nForks++
			if s.stall++; s.stall > 400 {
				e.viol = append(e.viol, &Report{Kind: "undecided", Msg: "no end of case distinctions at one instruction", Engine: e.name, Text: s.describe()})
				return
			}
			for i := len(x.alts) - 1; i >= 0; i-- {
				n := s
				if i > 0 {
					n = s.clone()
				}
				x.alts[i](n)
				n.again = n.stall > 8 && n.mon != nil && e.isHarness(n.top().fn.fn)
				if n.depth < 0 {
					continue
				}
				e.push(n)
			}
		case stopPath:
			e.nPaths++
		case *violation:
			if e.boundsOK && x.kind == "bounds" && e.panicOK != nil && e.panicOK(s, nil) {
				e.nPaths++
				return
			}
			e.report(s, x)
		default:
			if os.Getenv("UAXDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "crash in state:", s.describe())
			}
			panic(r)
		}
	}()
	if s.again {
		s.again = false
		if s.monMoves() {
			s.stall = 0
			if !e.canon(s) {
				return
			}
		}
	}
	for n := 0; ; n++ {
		if n&0xfff == 0xfff && e.late() {
			undecided("time or memory budget exhausted in one path")
		}
		f := s.top()
		if f.fresh {
			if e.initMode {
				f.fresh = false
			} else if e.unroll {
				if s.blocks++; s.blocks > 400 {
					undecided("no end of the path in sight")
				}
				f.fresh = false
			} else {
				if !e.canon(s) {
					return
				}
				f = s.top()
				f.fresh = false
			}
		}
		if e.trace {
			in := f.block.Instrs[f.pc]
			fmt.Fprintf(os.Stderr, "%s b%d: %s\n", f.fn.fn.Name(), f.block.Index, in)
		}
		if !s.step() {
			return
		}
		s.stall = 0
	}
}

// monMoves lets the specification take steps in the midst of an obligation (a
// token that is a long run of characters) and reports whether it moved on.
func (s *State) monMoves() bool {
	t, i, ok := s.mon.Cursor(s)
	if !ok {
		return false
	}
	s.mon.Advance(s, func(tape int) int { return len(s.tapes[tape].nodes) - 1 })
	t1, i1, ok := s.mon.Cursor(s)
	return ok && t1 == t && i1 > i
}

func (e *Engine) report(s *State, v *violation) {
	r := &Report{Kind: v.kind, Msg: v.msg, Engine: e.name}
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		var pos token.Pos
		if f.pc < len(f.block.Instrs) {
			pos = f.block.Instrs[f.pc].Pos()
			for k := f.pc; pos == token.NoPos && k >= 0; k-- {
				pos = f.block.Instrs[k].Pos()
			}
		}
		if pos == token.NoPos {
			pos = f.fn.fn.Pos()
		}
		ps := e.p.fset.Position(pos)
		r.Stack = append(r.Stack, fmt.Sprintf("%s (%s)", f.fn.fn.Name(), shortPos(ps)))
		if r.Pos == "" && !e.p.harness[ps.Filename] {
			r.Pos = shortPos(ps)
		}
	}
	r.Text = s.describe()
	if e.descs != nil && s.pred >= 0 {
		var path []string
		for i, n := s.pred, 0; i >= 0 && n < 40; i, n = e.preds[i], n+1 {
			path = append(path, e.descs[i])
		}
		for i := len(path) - 1; i >= 0; i-- {
			fmt.Fprintln(os.Stderr, "  ", path[i])
		}
	}
	e.viol = append(e.viol, r)
}

func (s *State) describe() string {
	var b strings.Builder
	for ti, t := range s.tapes {
		if ti > 0 {
			b.WriteString(" || ")
		}
		b.WriteString("^")
		for _, n := range t.nodes {
			b.WriteString(" ")
			if n.v >= 0 {
				b.WriteString(s.e.u.describe(s.vars[n.v]))
			} else {
				b.WriteString(s.e.u.describe(n.run) + "+")
			}
			fmt.Fprintf(&b, "|%d", n.id)
		}
		if t.closed {
			b.WriteString(" $")
		} else {
			b.WriteString(" ...")
		}
		if t.cutOn {
			fmt.Fprintf(&b, " cut@%d+%d(%v,%v)", t.cut.m, t.cut.k, t.cutAt, t.cutIn)
		}
	}
	if s.mon != nil {
		b.WriteString("  monitor: " + s.mon.Describe())
	}
	return b.String()
}

// ---------------------------------------------------------------------------
// canonicalisation

type rewriter struct {
	mark func(int32) int32
	v    func(int) int
	obj  func(int32) int32
	fn   func(FnVal) Value
}

func (w *rewriter) pos(p Pos) Pos {
	if w.mark != nil {
		p.m = w.mark(p.m)
	}
	return p
}

func (w *rewriter) val(v Value) Value {
	switch x := v.(type) {
	case nil, CInt, CStr, CFloat, Nil, Ctr, Top, AnyOf, ErrV, Opaque:
		return v
	case *Lin:
		if w.mark == nil {
			return x
		}
		t := make([]LTerm, len(x.t))
		for i, y := range x.t {
			t[i] = LTerm{w.mark(y.m), y.c}
		}
		return normLin(t, x.k)
	case RuneOf:
		if w.v != nil {
			return RuneOf{w.v(x.v)}
		}
		return x
	case FnVal:
		if w.fn != nil {
			return w.fn(x)
		}
		return x
	case TSlice:
		x.lo, x.hi = w.pos(x.lo), w.pos(x.hi)
		return x
	case TPtr:
		x.p = w.pos(x.p)
		return x
	case HSlice:
		if w.obj != nil && x.obj > 0 {
			x.obj = w.obj(x.obj)
		}
		return x
	case Ptr:
		if w.obj != nil && x.obj > 0 {
			x.obj = w.obj(x.obj)
		}
		return x
	case FnPtr:
		if w.obj != nil && x.obj > 0 {
			x.obj = w.obj(x.obj)
		}
		if w.fn != nil {
			if f, ok := w.fn(x.f).(FnVal); ok {
				x.f = f
			}
		}
		return x
	case *Agg:
		var n *Agg
		for i, y := range x.f {
			z := w.val(y)
			if n == nil && !sameVal(z, y) {
				n = &Agg{f: append([]Value(nil), x.f...)}
			}
			if n != nil {
				n.f[i] = z
			}
		}
		if n == nil {
			return x
		}
		return n
	case Iface:
		x.v = w.val(x.v)
		return x
	case FuncV:
		if len(x.bind) == 0 {
			return x
		}
		b := make([]Value, len(x.bind))
		for i, y := range x.bind {
			b[i] = w.val(y)
		}
		x.bind = b
		return x
	}
	panic(fmt.Sprintf("rewrite %T", v))
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Agg:
		y, ok := b.(*Agg)
		return ok && x == y
	case *Lin:
		y, ok := b.(*Lin)
		return ok && x == y
	case FuncV:
		return len(x.bind) == 0
	case Iface:
		return false
	case CInt, CStr, Nil, Top, Ctr, AnyOf, ErrV:
		return true
	}
	return false
}

// eachVal visits all root values of the state.
func (s *State) mapAll(w *rewriter) {
	for _, f := range s.frames {
		for i, v := range f.regs {
			if v != nil {
				f.regs[i] = w.val(v)
			}
		}
		for gi, g := range f.ghost {
			n := *g
			n.regs = append([]Value(nil), g.regs...)
			n.heap = append([]GCell(nil), g.heap...)
			for i := range n.regs {
				n.regs[i] = w.val(n.regs[i])
			}
			for i := range n.heap {
				n.heap[i].val = w.val(n.heap[i].val)
				if w.obj != nil {
					n.heap[i].obj = w.obj(n.heap[i].obj)
				}
			}
			f.ghost[gi] = &n
		}
	}
	ids := s.heapIDs()
	for _, id := range ids {
		o := s.heap[id]
		nv := w.val(o.val)
		s.heap[id] = &Obj{typ: o.typ, sym: o.sym, site: o.site, val: nv}
	}
	if s.memo != nil {
		m := make(map[string]Value, len(s.memo))
		for k, v := range s.memo {
			m[k] = w.val(v)
		}
		s.memo = m
	}
}

func (s *State) heapIDs() []int32 {
	ids := make([]int32, 0, len(s.heap))
	for id := range s.heap {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func visitVal(v Value, f func(Value)) {
	f(v)
	switch x := v.(type) {
	case *Agg:
		for _, y := range x.f {
			visitVal(y, f)
		}
	case Iface:
		visitVal(x.v, f)
	case FuncV:
		for _, y := range x.bind {
			visitVal(y, f)
		}
	}
}

func (e *Engine) deadRegs(f *Frame, top bool) []int {
	fi := f.fn
	e.p.mu.Lock()
	defer e.p.mu.Unlock()
	if fi.dead == nil {
		fi.dead = map[[2]int][]int{}
	}
	key := [2]int{f.block.Index, f.pc}
	if top {
		key[1] = -1 - f.pc
	}
	if d, ok := fi.dead[key]; ok {
		return d
	}
	var live map[int]bool
	if top && f.pc > 0 {
		live = fi.beforeLive(f.block, f.pc)
	} else if top {
		live = fi.headLive(f.block)
	} else {
		live = fi.afterLive(f.block, f.pc)
	}
	d := []int{}
	for i := range fi.vals {
		if !live[i] {
			d = append(d, i)
		}
	}
	fi.dead[key] = d
	return d
}

// maskRegs clears the bits of integer registers that no use observes.
func (s *State) maskRegs(f *Frame) {
	s.e.p.mu.Lock()
	masks := s.e.p.masks(f.fn)
	s.e.p.mu.Unlock()
	for i, m := range masks {
		if m == allBits || f.regs[i] == nil {
			continue
		}
		if v := s.maskVal(f.regs[i], m); v != nil {
			f.regs[i] = v
		}
	}
}

// canon brings the state to canonical form and reports whether it is new.
func (e *Engine) canon(s *State) bool {
	top := s.top()
	arrHead, arrEntry, deltas, gkeys := "", false, []int8(nil), []string(nil)
	// liveness
	for i, f := range s.frames {
		for _, r := range e.deadRegs(f, i == len(s.frames)-1) {
			f.regs[r] = nil
		}
		s.maskRegs(f)
		// drop ghosts of loops that were left
		k := 0
		for _, g := range f.ghost {
			if f.fn.loops[g.head][f.block] {
				f.ghost[k] = g
				k++
			}
		}
		f.ghost = f.ghost[:k]
	}
	if e.term && !e.isHarness(top.fn.fn) {
		if top.fn.heads[top.block] {
			arrHead, arrEntry, deltas, gkeys = s.ghostStep(top)
		} else {
			arrHead = "join"
		}
	}
	s.maskFields()
	s.normalise()
	s.gcHeap()
	if s.mon != nil {
		impl, _ := s.liveMarks()
		s.mon.Advance(s, func(tape int) int { return s.progressMark(tape, impl) })
	}
	s.compact()
	s.canonVars()
	s.renumber()
	key := s.key()
	id, ok := e.visited[key]
	if !ok {
		id = int32(len(e.visited))
		e.visited[key] = id
		e.nStates++
		if e.descs != nil {
			e.preds = append(e.preds, s.pred)
			e.descs = append(e.descs, fmt.Sprintf("#%d %s b%d %s", id, top.fn.fn.Name(), top.block.Index, s.regString()+s.describe()))
		}
		if e.keyDump || id > 5000 && id%37 == 0 && os.Getenv("UAXKEYS") != "" {
			fmt.Fprintf(os.Stderr, "state %d from %d: %s b%d regs %s  tape %s\n", id, s.pred, top.fn.fn.Name(), top.block.Index, s.regString(), s.describe())
		}
	}
	if e.term {
		e.edges = append(e.edges, edge{from: s.pred, to: id, head: arrHead, entry: arrEntry, deltas: deltas, keys: gkeys})
		if int(id) >= len(e.heads) {
			e.heads = append(e.heads, fmt.Sprintf("%s@%s", top.fn.fn.Name(), shortPos(e.p.fset.Position(blockPos(top.block)))))
		}
	}
	if ok {
		return false
	}
	s.pred = id
	if s.mon != nil {
		if t, i, ok := s.mon.PeelAt(s); ok {
			s.forkPeel(t, i)
		}
	}
	return true
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos() != token.NoPos {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

func (s *State) regString() string {
	var b strings.Builder
	for _, f := range s.frames {
		b.WriteString("[")
		for i, v := range f.regs {
			if v != nil && i >= len(f.fn.vals) {
				fmt.Fprintf(&b, "anchor=%v ", v)
			} else if v != nil {
				if fv, ok := v.(FnVal); ok {
					fmt.Fprintf(&b, "%s=fn%d(v%d", f.fn.vals[i].Name(), fv.id, fv.v[0])
					fmt.Fprintf(&b, ":%s)", s.e.u.describe(s.vars[fv.v[0]]))
				} else {
					fmt.Fprintf(&b, "%s=%v ", f.fn.vals[i].Name(), v)
				}
				b.WriteString(" ")
			}
		}
		b.WriteString("]")
	}
	for _, id := range s.heapIDs() {
		fmt.Fprintf(&b, " obj%d=%v", id, s.heap[id].val)
		if a, ok := s.heap[id].val.(*Agg); ok {
			fmt.Fprintf(&b, "%v", a.f)
		}
	}
	return b.String()
}

// textBases lists the start positions of texts in view, for reading constant
// integers as positions.
func (s *State) textBases(f *Frame) []Pos {
	var out []Pos
	add := func(v Value) {
		visitVal(v, func(y Value) {
			if ts, ok := y.(TSlice); ok {
				for _, p := range out {
					if p == ts.lo {
						return
					}
				}
				out = append(out, ts.lo)
			}
		})
	}
	if f != nil {
		for _, v := range f.regs {
			if v != nil {
				add(v)
			}
		}
	}
	for _, id := range s.heapIDs() {
		add(s.heap[id].val)
	}
	return out
}

func (s *State) normPosInt(v Value, bases []Pos) Value {
	switch x := v.(type) {
	case CInt:
		if x <= 0 {
			return x
		}
		for _, b := range bases {
			t, _ := s.locate(b.m)
			p := s.normPos(Pos{b.m, b.k + int64(x)})
			if p.k != 0 {
				continue
			}
			if p.m == b.m {
				continue
			}
			_ = t
			return posDiff(p, b)
		}
	case *Lin:
		// normalise the positive unit term
		r := s.resolveLin(x)
		l, ok := r.(*Lin)
		if !ok {
			return r
		}
		fwd := func(l *Lin) (Value, bool) {
			pi := -1
			for i, y := range l.t {
				if y.c == 1 && !isEND(y.m) && !isCUT(y.m) {
					if pi >= 0 {
						return l, false
					}
					pi = i
				}
			}
			if pi < 0 {
				return l, false
			}
			if l.k == 0 {
				return l, true
			}
			p := s.normPos(Pos{l.t[pi].m, l.k})
			if p.m == l.t[pi].m {
				return l, p.k == 0
			}
			t := append([]LTerm(nil), l.t...)
			t[pi].m = p.m
			return normLin(t, p.k), p.k == 0
		}
		n, exact := fwd(l)
		if len(l.t) == 1 && l.t[0].c == 1 {
			return n
		}
		if exact && len(l.t) == 2 {
			for _, b := range bases {
				if b.m == l.t[0].m && l.t[0].c == -1 || b.m == l.t[1].m && l.t[1].c == -1 {
					return n // relative to a text in view
				}
			}
		}
		switch g := s.gather(l).(type) {
		case *Lin:
			n, _ = fwd(g)
		default:
			if m := s.normPosInt(g, bases); m != g {
				return m
			}
		}
		return n
	}
	return v
}

func (s *State) normalise() {
	cls := s.e.p.cls
	for _, f := range s.frames {
		var bases []Pos
		s.normPairs(f)
		for i, v := range f.regs {
			if v == nil {
				continue
			}
			switch x := v.(type) {
			case CInt, *Lin:
				sv := f.fn.vals[i]
				if !isInt(sv.Type()) {
					continue
				}
				if _, ok := x.(CInt); ok && cls.few[sv] {
					continue
				}
				if cls.isPos(sv) {
					if bases == nil {
						bases = s.textBases(f)
					}
					f.regs[i] = s.normPosInt(v, bases)
				} else if c, ok := x.(CInt); ok && c >= 8 {
					if _, isPhi := sv.(*ssa.Phi); isPhi && cls.isCtr(sv) {
						f.regs[i] = Ctr{int64(c) % 4, 4}
					}
				}
			case Ctr:
				if x.min > 4 {
					f.regs[i] = Ctr{x.mod, 4}
				}
			case TSlice:
				x.lo, x.hi = s.normPos(x.lo), s.normPos(x.hi)
				f.regs[i] = x
			case *Agg, Iface, FuncV:
				f.regs[i] = s.normNested(v)
			}
		}
	}
	var bases []Pos
	for _, id := range s.heapIDs() {
		o := s.heap[id]
		if o.typ == nil {
			if a, ok := o.val.(*Agg); ok {
				s.heap[id] = &Obj{typ: o.typ, sym: o.sym, site: o.site, val: s.normNested(a)}
			}
			continue
		}
		switch v := o.val.(type) {
		case *Agg:
			st, ok := o.typ.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			if bases == nil {
				bases = s.textBases(nil)
			}
			n := &Agg{f: append([]Value(nil), v.f...)}
			for i, y := range n.f {
				switch z := y.(type) {
				case CInt, *Lin:
					if isInt(st.Field(i).Type()) {
						k := fieldKey{types.TypeString(o.typ, nil), i}
						if cls.isPos(k) {
							// prefer the text of the same object
							own := objBases(v)
							n.f[i] = s.normPosInt(y, append(own, bases...))
						} else if c, ok := z.(CInt); ok && c >= 8 && cls.isCtr(k) {
							n.f[i] = Ctr{int64(c) % 4, 4}
						}
					}
				case TSlice:
					z.lo, z.hi = s.normPos(z.lo), s.normPos(z.hi)
					n.f[i] = z
				}
			}
			s.heap[id] = &Obj{typ: o.typ, sym: o.sym, site: o.site, val: n}
		case CInt, *Lin:
			if o.site != nil && isInt(o.typ) {
				if cls.isPos(o.site) {
					if bases == nil {
						bases = s.textBases(nil)
					}
					s.heap[id] = &Obj{typ: o.typ, sym: o.sym, site: o.site, val: s.normPosInt(v, append(s.frameBases(), bases...))}
				} else if c, ok := v.(CInt); ok && c >= 8 && cls.isCtr(o.site) {
					s.heap[id] = &Obj{typ: o.typ, sym: o.sym, site: o.site, val: Ctr{int64(c) % 4, 4}}
				}
			}
		case TSlice:
			v.lo, v.hi = s.normPos(v.lo), s.normPos(v.hi)
			s.heap[id] = &Obj{typ: o.typ, sym: o.sym, site: o.site, val: v}
		}
	}
}

func (s *State) frameBases() []Pos {
	var out []Pos
	for _, f := range s.frames {
		out = append(out, s.textBases(f)...)
	}
	return out
}

func objBases(a *Agg) []Pos {
	var out []Pos
	for _, y := range a.f {
		if ts, ok := y.(TSlice); ok {
			out = append(out, ts.lo)
		}
	}
	return out
}

func (s *State) normNested(v Value) Value {
	switch x := v.(type) {
	case TSlice:
		x.lo, x.hi = s.normPos(x.lo), s.normPos(x.hi)
		return x
	case *Agg:
		n := &Agg{f: make([]Value, len(x.f))}
		for i, y := range x.f {
			n.f[i] = s.normNested(y)
		}
		return n
	case Iface:
		x.v = s.normNested(x.v)
		return x
	case FuncV:
		if len(x.bind) > 0 {
			b := make([]Value, len(x.bind))
			for i, y := range x.bind {
				b[i] = s.normNested(y)
			}
			x.bind = b
		}
		return x
	}
	return v
}

func (s *State) gcHeap() {
	if len(s.heap) == 0 {
		return
	}
	order := []int32{}
	num := map[int32]int32{}
	var visit func(v Value)
	mark := func(id int32) {
		if id <= 0 {
			return
		}
		if _, ok := num[id]; ok {
			return
		}
		num[id] = int32(len(order) + 1)
		order = append(order, id)
		if o, ok := s.heap[id]; ok {
			visit(o.val)
		}
	}
	visit = func(v Value) {
		visitVal(v, func(y Value) {
			switch x := y.(type) {
			case Ptr:
				mark(x.obj)
			case HSlice:
				mark(x.obj)
			case FnPtr:
				mark(x.obj)
			}
		})
	}
	for _, f := range s.frames {
		for _, v := range f.regs {
			if v != nil {
				visit(v)
			}
		}
	}
	if s.memo != nil {
		for _, k := range sortedKeys(s.memo) {
			visit(s.memo[k])
		}
	}
	same := len(order) == len(s.heap)
	for i, id := range order {
		if int32(i+1) != id {
			same = false
		}
	}
	if same {
		s.nobj = int32(len(order))
		return
	}
	nh := map[int32]*Obj{}
	for i, id := range order {
		nh[int32(i+1)] = s.heap[id]
	}
	for _, f := range s.frames { // ghosts of dead objects
		for gi, g := range f.ghost {
			n := *g
			n.heap = nil
			for _, c := range g.heap {
				if _, ok := num[c.obj]; ok {
					n.heap = append(n.heap, c)
				}
			}
			f.ghost[gi] = &n
		}
	}
	s.heap = nh
	s.nobj = int32(len(order))
	s.mapAll(&rewriter{obj: func(id int32) int32 { return num[id] }})
}

func sortedKeys(m map[string]Value) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// liveMarks returns the marks in use, by the program alone and in all.
func (s *State) liveMarks() (impl, live map[int32]bool) {
	live = map[int32]bool{}
	impl = live
	visit := func(v Value) {
		visitVal(v, func(y Value) {
			switch x := y.(type) {
			case *Lin:
				for _, t := range x.t {
					live[t.m] = true
				}
			case TSlice:
				live[x.lo.m] = true
				live[x.hi.m] = true
			case TPtr:
				live[x.p.m] = true
			}
		})
	}
	for _, f := range s.frames {
		for _, v := range f.regs {
			if v != nil {
				visit(v)
			}
		}
		for _, g := range f.ghost {
			for _, v := range g.regs {
				visit(v)
			}
			for _, c := range g.heap {
				visit(c.val)
			}
		}
	}
	for _, o := range s.heap {
		visit(o.val)
	}
	for _, v := range s.memo {
		visit(v)
	}
	if s.mon != nil {
		impl = make(map[int32]bool, len(live))
		for k := range live {
			impl[k] = true
		}
	}
	for _, t := range s.tapes {
		if t.cutOn {
			live[t.cut.m] = true
		}
	}
	if s.mon != nil {
		s.mon.Marks(func(m int32) int32 { live[m] = true; return m })
	}
	return impl, live
}

func (s *State) readLater(f *Frame, reg int) bool {
	if reg >= len(f.fn.vals) {
		return false
	}
	pc := f.pc
	if f != s.top() {
		pc++ // the call itself is under way
	}
	s.e.p.mu.Lock()
	defer s.e.p.mu.Unlock()
	return f.fn.readLater(f.block, pc, f.fn.vals[reg])
}

// progressMark estimates how far the program has moved on a text: the index of
// the node it will not read again. The estimate only affects precision.
func (s *State) progressMark(ti int, impl map[int32]bool) int {
	t := s.tapes[ti]
	idx := func(m int32) int {
		if isBOS(m) || isEND(m) || isCUT(m) {
			return -1
		}
		for i := range t.nodes {
			if t.nodes[i].id == m {
				return i
			}
		}
		return -2
	}
	last := len(t.nodes) - 1
	if s.e.strategy == 0 {
		best := -3
		inner := false // a function called is working through a text
		for fi := len(s.frames) - 1; fi >= 0; fi-- {
			f := s.frames[fi]
			if s.e.isHarness(f.fn.fn) {
				continue
			}
			lin, lo := -3, -3
			for ri, v := range f.regs {
				switch x := v.(type) {
				case *Lin:
					if !s.readLater(f, ri) {
						continue
					}
					mx := -3
					for _, y := range x.t {
						if y.c > 0 && !isBOS(y.m) && !isEND(y.m) && !isCUT(y.m) {
							if i := idx(y.m); i >= 0 && i > mx {
								mx = i
							}
						}
					}
					if mx >= 0 && (lin < 0 || mx < lin) {
						lin = mx
					}
				case TSlice:
					if ri >= len(f.fn.vals) {
						continue
					}
					if _, moves := f.fn.vals[ri].(*ssa.Phi); inner && !moves {
						continue // it may go over the same text again
					}
					if x.tape == ti && s.readLater(f, ri) {
						if i := idx(x.lo.m); i > lo {
							lo = i
						}
					}
				}
			}
			if lin < 0 {
				lin = lo
			} else {
				inner = true
			}
			if lin >= -1 && (best == -3 || lin < best) {
				best = lin
			}
		}
		if best >= -1 {
			return best
		}
	}
	best := -1
	for i, n := range t.nodes {
		if impl[n.id] && !(t.closed && i == last) {
			best = i
		}
	}
	return best
}

// compact merges text that is no longer needed character by character.
func (s *State) compact() {
	impl, live := s.liveMarks()
	u := s.e.u
	// positions the code is working with, as opposed to those of the client
	near := map[int32]bool{}
	if s.e.keepOne {
		for _, f := range s.frames {
			if s.e.isHarness(f.fn.fn) {
				continue
			}
			for _, v := range f.regs {
				if v == nil {
					continue
				}
				visitVal(v, func(y Value) {
					switch x := y.(type) {
					case TSlice:
						near[x.lo.m] = true
					}
				})
			}
		}
	}
	for ti, t := range s.tapes {
		if len(t.nodes) == 0 {
			continue
		}
		// text is settled once both the program and the specification have
		// moved past it
		cur := s.progressMark(ti, impl)
		settled := cur
		if s.mon == nil {
			if t.closed && settled == len(t.nodes)-1 {
				settled--
			}
		} else if mt, mi, ok := s.mon.Cursor(s); ok && mt == ti && mi < settled {
			settled = mi
		}
		// the characters just before a text the code is working on stay lone
		lone := make([]bool, len(t.nodes))
		for i, nd := range t.nodes {
			if near[nd.id] {
				for j := i; j >= 0 && j > i-3 && t.nodes[j].v >= 0; j-- {
					lone[j] = true
				}
			}
		}
		out := make([]Node, 0, len(t.nodes))
		full := s.goodAlphabet()
		if s.wipe {
			last := len(t.nodes) - 1
			mine := false
			if s.mon != nil {
				s.mon.Marks(func(m int32) int32 { mine = mine || m == t.nodes[last].id; return m })
			}
			if t.closed && !mine {
				// the last mark is known as the end of the text only
				id, end := t.nodes[last].id, endMark(ti)
				t.closed = false
				t.nodes = t.nodes[:last]
				s.mapAll(&rewriter{mark: func(m int32) int32 {
					if m == id {
						return end
					}
					return m
				}})
			}
			for i, nd := range t.nodes {
				if live[nd.id] || t.closed && i == last {
					out = append(out, Node{id: nd.id, v: -1, run: s.alphabet()})
				}
			}
			t.nodes = out
			continue
		}
		setOf := func(n Node) SetID {
			if n.v >= 0 {
				return s.vars[n.v]
			}
			return n.run
		}
		merge := func(ns []Node, set SetID) {
			if len(ns) == 0 {
				return
			}
			if len(ns) == 1 && ns[0].v < 0 && ns[0].run == set {
				out = append(out, ns[0])
				return
			}
			out = append(out, Node{id: ns[len(ns)-1].id, v: -1, run: set, seen: ns[len(ns)-1].seen})
		}
		union := func(ns []Node) SetID {
			r := setOf(ns[0])
			for _, n := range ns[1:] {
				r = u.union(r, setOf(n))
			}
			return u.inter(u.snap(r), s.alphabet())
		}
		start := 0
		for start < len(t.nodes) {
			end := start
			for end < len(t.nodes) && !live[t.nodes[end].id] {
				end++
			}
			if end == len(t.nodes) {
				// text beyond every live position
				rest := t.nodes[start:]
				if s.e.joins || s.e.forget {
					n := 1
					if s.e.coarse {
						n = 0
					}
					out = append(out, rest[:n]...)
					if len(rest) > n {
						merge(rest[n:], full)
						t.closed = false
					}
					break
				}
				if n := len(rest); n > 4 {
					out = append(out, rest[0], rest[1])
					merge(rest[2:n-1], union(rest[2:n-1]))
					out = append(out, rest[n-1])
				} else {
					out = append(out, rest...)
				}
				break
			}
			region := t.nodes[start : end+1]
			isCur := end == cur
			switch {
			case end <= settled:
				n := len(region)
				keep := 0
				if isCur && s.e.keepLast || s.e.keepEnds {
					keep = 1
				}
				for i := 0; i < n-keep; {
					nd := region[i]
					set := full
					if lone[start+i] {
						if s.e.keepText {
							set = union([]Node{nd})
						}
						if s.vars[nd.v] != set {
							nd.v = s.newVar(set)
						}
						out = append(out, nd)
						i++
						continue
					}
					j := i
					for j < n-keep && !lone[start+j] {
						j++
					}
					if s.e.keepText {
						set = union(region[i:j])
					}
					merge(region[i:j], set)
					i = j
				}
				out = append(out, region[n-keep:]...)
			case s.e.joins || s.e.forget:
				if s.e.keepOne && len(region) > 1 && region[0].v >= 0 {
					out = append(out, region[0])
					region = region[1:]
				}
				if len(region) > 1 {
					merge(region, union(region))
				} else if nd := region[0]; !s.e.coarse {
					out = append(out, nd)
				} else if nd.v >= 0 {
					nd.v = s.newVar(union(region))
					out = append(out, nd)
				} else {
					nd.run = union(region)
					out = append(out, nd)
				}
			default:
				if n := len(region); n > 4 {
					out = append(out, region[0], region[1])
					merge(region[2:n-1], union(region[2:n-1]))
					out = append(out, region[n-1])
				} else {
					out = append(out, region...)
				}
			}
			start = end + 1
		}
		t.nodes = out
	}
	s.wipe = false
}

// canonVars drops unused variables, closes detached ones under
// indistinguishability, restricts functions to the current sets and renumbers.
func (s *State) canonVars() {
	u := s.e.u
	attached := map[int]bool{}
	for _, t := range s.tapes {
		for _, n := range t.nodes {
			if n.v >= 0 {
				attached[n.v] = true
			}
		}
	}
	type ref struct {
		f FnID
		k int
	}
	refs := map[int]map[ref]bool{}
	runeUse := map[int]bool{}
	var order []int
	seen := map[int]bool{}
	note := func(v int) {
		if !seen[v] {
			seen[v] = true
			order = append(order, v)
		}
	}
	for _, t := range s.tapes {
		for _, n := range t.nodes {
			if n.v >= 0 {
				note(n.v)
			}
		}
	}
	visit := func(v Value) {
		visitVal(v, func(y Value) {
			switch x := y.(type) {
			case FnVal:
				for k := 0; k < x.n; k++ {
					note(x.v[k])
					if refs[x.v[k]] == nil {
						refs[x.v[k]] = map[ref]bool{}
					}
					refs[x.v[k]][ref{x.id, k}] = true
				}
			case FnPtr:
				for k := 0; k < x.f.n; k++ {
					note(x.f.v[k])
					runeUse[x.f.v[k]] = true
				}
			case RuneOf:
				note(x.v)
				runeUse[x.v] = true
			}
		})
	}
	s.eachRoot(visit)
	// closure
	for _, v := range order {
		if attached[v] || runeUse[v] {
			continue
		}
		var fs []ref
		for r := range refs[v] {
			fs = append(fs, r)
		}
		sort.Slice(fs, func(i, j int) bool {
			if fs[i].f != fs[j].f {
				return fs[i].f < fs[j].f
			}
			return fs[i].k < fs[j].k
		})
		ck := fmt.Sprint(fs, s.vars[v])
		cl, ok := s.e.closeC[ck]
		if !ok {
			sig := func(i int) string {
				b := make([]byte, 0, 4*len(fs))
				for _, r := range fs {
					t := u.fns[r.f]
					g := u.gms[t.gm[r.k]][i]
					if g < 0 {
						return ""
					}
					if t.n == 1 {
						b = binary.LittleEndian.AppendUint32(b, uint32(t.tab[g]))
					} else {
						b = binary.LittleEndian.AppendUint32(b, uint32(g))
					}
				}
				return string(b)
			}
			have := map[string]bool{}
			u.each(s.vars[v], func(i int) { have[sig(i)] = true })
			cl = u.setOf(func(a *Atom) bool { return false })
			bits := make([]uint64, u.words)
			for i := range u.atoms {
				if sg := sig(i); sg != "" && have[sg] {
					bits[i/64] |= 1 << (i % 64)
				}
			}
			cl = u.internSet(bits)
			if s.e.closeC == nil {
				s.e.closeC = map[string]SetID{}
			}
			s.e.closeC[ck] = cl
		}
		s.vars[v] = cl
	}
	// restrict functions (may drop variables)
	s.mapAll(&rewriter{fn: func(f FnVal) Value {
		s1 := SetID(-1)
		if f.n == 2 {
			s1 = s.vars[f.v[1]]
		}
		r, k, isC := u.restrict(f, s.vars[f.v[0]], s1)
		if isC {
			if k == ValTop {
				return Top{}
			}
			if vs := u.vals[k]; len(vs) == 1 {
				return CInt(vs[0])
			}
			return FnVal{v: f.v, n: 1, id: u.makeFn1(func(int) ValID { return k })}
		}
		return r
	}})
	// renumber
	num := map[int]int{}
	var nv []SetID
	take := func(v int) {
		if _, ok := num[v]; !ok {
			num[v] = len(nv)
			nv = append(nv, s.vars[v])
		}
	}
	for _, t := range s.tapes {
		for _, n := range t.nodes {
			if n.v >= 0 {
				take(n.v)
			}
		}
	}
	s.eachRoot(func(v Value) {
		visitVal(v, func(y Value) {
			switch x := y.(type) {
			case FnVal:
				for k := 0; k < x.n; k++ {
					take(x.v[k])
				}
			case FnPtr:
				for k := 0; k < x.f.n; k++ {
					take(x.f.v[k])
				}
			case RuneOf:
				take(x.v)
			}
		})
	})
	for _, t := range s.tapes {
		for i := range t.nodes {
			if t.nodes[i].v >= 0 {
				t.nodes[i].v = num[t.nodes[i].v]
			}
		}
	}
	ren := func(f FnVal) FnVal {
		for k := 0; k < f.n; k++ {
			f.v[k] = num[f.v[k]]
		}
		if f.n == 2 && f.v[0] > f.v[1] {
			f = u.swapVars(f)
		}
		return f
	}
	s.mapAll(&rewriter{fn: func(f FnVal) Value { return ren(f) }, v: func(v int) int { return num[v] }})
	s.vars = nv
}

// swapVars exchanges the variable order of a two-variable function.
func (u *Universe) swapVars(f FnVal) FnVal {
	t := u.fns[f.id]
	n0, n1 := u.gmN[t.gm[0]], u.gmN[t.gm[1]]
	nt := &FnTab{n: 2, gm: [2]GMID{t.gm[1], t.gm[0]}, tab: make([]ValID, n0*n1)}
	for i := 0; i < n0; i++ {
		for j := 0; j < n1; j++ {
			nt.tab[j*n0+i] = t.tab[i*n1+j]
		}
	}
	return FnVal{v: [2]int{f.v[1], f.v[0]}, n: 2, id: u.internFn(nt)}
}

func (s *State) eachRoot(f func(Value)) {
	for _, fr := range s.frames {
		for _, v := range fr.regs {
			if v != nil {
				f(v)
			}
		}
		for _, g := range fr.ghost {
			for _, v := range g.regs {
				f(v)
			}
			for _, c := range g.heap {
				f(c.val)
			}
		}
	}
	for _, id := range s.heapIDs() {
		f(s.heap[id].val)
	}
	for _, k := range sortedKeys(s.memo) {
		f(s.memo[k])
	}
}

// renumber gives marks consecutive numbers.
func (s *State) renumber() {
	num := map[int32]int32{}
	n := int32(0)
	for _, t := range s.tapes {
		for i := range t.nodes {
			n++
			num[t.nodes[i].id] = n
			t.nodes[i].id = n
		}
	}
	same := true
	for k, v := range num {
		if k != v {
			same = false
		}
	}
	s.nmark = n
	if same {
		return
	}
	m := func(x int32) int32 {
		if x < 0 {
			return x
		}
		y, ok := num[x]
		if !ok {
			panic(&violation{kind: "internal", msg: fmt.Sprintf("dangling mark %d", x)})
		}
		return y
	}
	s.mapAll(&rewriter{mark: m})
	for _, t := range s.tapes {
		if t.cutOn {
			t.cut.m = m(t.cut.m)
		}
	}
	if s.mon != nil {
		s.mon.Marks(m)
	}
}

// ---------------------------------------------------------------------------
// key

type keyer struct {
	b []byte
	e *Engine
}

func (k *keyer) i(x int64)  { k.b = binary.AppendVarint(k.b, x) }
func (k *keyer) s(x string) { k.i(int64(len(x))); k.b = append(k.b, x...) }
func (k *keyer) pos(p Pos)  { k.i(int64(p.m)); k.i(p.k) }

func (k *keyer) val(v Value) {
	switch x := v.(type) {
	case nil:
		k.b = append(k.b, 0)
	case CInt:
		k.b = append(k.b, 1)
		k.i(int64(x))
	case CStr:
		k.b = append(k.b, 2)
		k.s(string(x))
	case CFloat:
		k.b = append(k.b, 3)
		k.s(string(x))
	case Nil:
		k.b = append(k.b, 4)
	case *Lin:
		k.b = append(k.b, 5)
		k.i(int64(len(x.t)))
		for _, t := range x.t {
			k.i(int64(t.m))
			k.i(t.c)
		}
		k.i(x.k)
	case Ctr:
		k.b = append(k.b, 6)
		k.i(x.mod)
		k.i(x.min)
	case Top:
		k.b = append(k.b, 7)
	case RuneOf:
		k.b = append(k.b, 8)
		k.i(int64(x.v))
	case AnyOf:
		k.b = append(k.b, 9, x.list)
		k.i(int64(x.idx))
	case TSlice:
		k.b = append(k.b, 10)
		k.i(int64(x.tape))
		k.pos(x.lo)
		k.pos(x.hi)
		k.i(b2i(x.str)*2 + b2i(x.own))
	case TPtr:
		k.b = append(k.b, 11)
		k.i(int64(x.tape))
		k.pos(x.p)
	case HSlice:
		k.b = append(k.b, 12)
		k.i(int64(x.obj))
		k.s(x.path)
		k.i(x.lo)
		k.i(x.hi)
		k.i(x.cap)
	case Ptr:
		k.b = append(k.b, 13)
		k.i(int64(x.obj))
		k.s(x.path)
	case FnPtr:
		k.b = append(k.b, 14)
		k.i(int64(x.obj))
		k.s(x.path)
		k.val(x.f)
	case *Agg:
		k.b = append(k.b, 15)
		k.i(int64(len(x.f)))
		for _, y := range x.f {
			k.val(y)
		}
	case Iface:
		k.b = append(k.b, 16)
		k.s(types.TypeString(x.t, nil))
		k.val(x.v)
	case FuncV:
		k.b = append(k.b, 17)
		if x.fn != nil {
			k.s(x.fn.String())
		} else {
			k.s("#" + x.name)
		}
		for _, y := range x.bind {
			k.val(y)
		}
	case ErrV:
		k.b = append(k.b, 18)
		k.s(x.name)
	case Opaque:
		k.b = append(k.b, 19)
		k.s(x.name)
		k.i(int64(x.id))
	case FnVal:
		k.b = append(k.b, 20)
		k.i(int64(x.n))
		k.i(int64(x.id))
		for j := 0; j < x.n; j++ {
			k.i(int64(x.v[j]))
		}
	default:
		panic(fmt.Sprintf("key %T", v))
	}
}

func (s *State) key() string {
	k := &keyer{e: s.e, b: make([]byte, 0, 512)}
	for _, f := range s.frames {
		k.i(int64(s.e.fnNum(f.fn.fn)))
		k.i(int64(f.block.Index))
		k.i(int64(f.pc))
		for i, v := range f.regs {
			if v != nil {
				k.i(int64(i))
				k.val(v)
			}
		}
		k.i(-1)
		for _, g := range f.ghost {
			k.i(int64(g.head.Index))
			for _, v := range g.regs {
				k.val(v)
			}
			for _, c := range g.heap {
				k.i(int64(c.obj))
				k.val(c.val)
			}
		}
		k.i(-2)
	}
	for _, id := range s.heapIDs() {
		k.i(int64(id))
		k.s(s.heap[id].sym)
		k.val(s.heap[id].val)
	}
	k.i(-3)
	for _, v := range s.vars {
		k.i(int64(v))
	}
	k.i(-4)
	for _, t := range s.tapes {
		for _, n := range t.nodes {
			k.i(int64(n.id))
			if n.v >= 0 {
				k.i(int64(n.v))
			} else {
				k.i(-1 - int64(n.run))
			}
		}
		k.i(-5)
		k.i(b2i(t.closed) + 2*b2i(t.cutOn) + 4*b2i(t.cutAt) + 8*b2i(t.cutIn))
		if t.cutOn {
			k.pos(t.cut)
		}
	}
	for _, m := range sortedKeys(s.memo) {
		k.s(m)
		k.val(s.memo[m])
	}
	k.i(int64(s.alpha))
	if s.mon != nil {
		s.mon.Key(k)
	}
	return string(k.b)
}

func (e *Engine) fnNum(fn *ssa.Function) int {
	if e.fnNums == nil {
		e.fnNums = map[*ssa.Function]int{}
	}
	n, ok := e.fnNums[fn]
	if !ok {
		n = len(e.fnNums) + 1
		e.fnNums[fn] = n
	}
	return n
}
