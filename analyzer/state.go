package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// abstract values

type Value interface{}

type CInt int64    // integer, rune, byte or boolean constant
type CStr string   // constant string
type CFloat string // opaque constant
type Nil struct{}  // nil pointer, slice, map, func or interface

// Lin is an integer of the form sum(coef*position(mark)) + k.
type Lin struct {
	t []LTerm
	k int64
}
type LTerm struct {
	m int32
	c int64
}

// Ctr is a counter known only modulo 4 and to be at least min.
type Ctr struct{ mod, min int64 }

// Top is an unknown value of basic type.
type Top struct{}

// RuneOf is the code point of a character variable.
type RuneOf struct{ v int }

// AnyOf is an element of a symbolic joiner set (list 'M' or 'L', element 1 or 2).
type AnyOf struct {
	list byte
	idx  int
}

// Pos is a byte position: k bytes after mark m.
type Pos struct {
	m int32
	k int64
}

// TSlice is a view of a tape.
type TSlice struct {
	tape   int
	lo, hi Pos
	str    bool
	own    bool // private copy: writes allowed
}

// TPtr points at a byte of a tape.
type TPtr struct {
	tape int
	p    Pos
	own  bool
}

// HSlice is a view of an array object.
type HSlice struct {
	obj         int32
	path        string
	lo, hi, cap int64
}

// Ptr points into a heap object.
type Ptr struct {
	obj  int32
	path string // encoded index path
}

type Agg struct{ f []Value } // struct, array or tuple (immutable)

type Iface struct {
	t types.Type
	v Value
}
type FuncV struct {
	fn   *ssa.Function
	bind []Value
	name string // intrinsic or opaque function name if fn == nil
}
type ErrV struct{ name string } // opaque non-nil error
type Opaque struct {
	name string
	id   int
}

// TypedIface etc. left out: not needed.

func (l *Lin) String() string {
	s := ""
	for _, t := range l.t {
		s += fmt.Sprintf("%+d*m%d", t.c, t.m)
	}
	return s + fmt.Sprintf("%+d", l.k)
}

func bosMark(t int) int32 { return -int32(1000 + t) }
func endMark(t int) int32 { return -int32(2000 + t) }
func cutMark(t int) int32 { return -int32(3000 + t) }
func isBOS(m int32) bool  { return m <= -1000 && m > -2000 }
func isEND(m int32) bool  { return m <= -2000 && m > -3000 }
func isCUT(m int32) bool  { return m <= -3000 && m > -4000 }
func markTape(m int32) int {
	switch {
	case isBOS(m):
		return int(-m - 1000)
	case isEND(m):
		return int(-m - 2000)
	case isCUT(m):
		return int(-m - 3000)
	}
	return -1
}

// ---------------------------------------------------------------------------
// tapes

type Node struct {
	id  int32
	v   int   // variable of a single character, or -1
	run SetID // for v<0: one or more characters of this set

	seen bool // the program has read it
}

type Tape struct {
	nodes  []Node
	closed bool // no more text after the last node
	cutOn  bool
	cutAt  bool // resolved
	cutIn  bool // strictly inside the character that follows cut
	cut    Pos  // resolved position, or lower bound
}

func (t *Tape) clone() *Tape {
	c := *t
	c.nodes = append([]Node(nil), t.nodes...)
	return &c
}

type Frame struct {
	fn    *FnInfo
	regs  []Value
	block *ssa.BasicBlock
	prev  *ssa.BasicBlock
	pc    int
	call  ssa.Instruction // call site in the caller
	ghost []*Ghost
	dfr   []Value
	fresh bool // just arrived at block start (phis pending)
}

// Ghost remembers progress measures at the last visit of a loop head.
type Ghost struct {
	head *ssa.BasicBlock
	regs []Value // phi values
	heap []GCell
	keys []string
}

type Obj struct {
	typ  types.Type
	val  Value
	sym  string    // for opaque objects
	site ssa.Value // allocation
}

type State struct {
	e      *Engine
	frames []*Frame
	heap   map[int32]*Obj
	nobj   int32
	tapes  []*Tape
	vars   []SetID
	nmark  int32
	mon    Monitor
	memo   map[string]Value // opaque function results
	pred   int32            // id of the last canonical state
	depth  int
	stall  int   // forks since the last instruction
	blocks int   // basic blocks entered (unrolled exploration)
	again  bool  // the state is to be brought to canonical form before it goes on
	alpha  SetID // 0: engine alphabet
	wipe   bool  // forget the text at the next join
}

func (s *State) clone() *State {
	c := *s
	c.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		g.ghost = append([]*Ghost(nil), f.ghost...)
		c.frames[i] = &g
	}
	c.heap = make(map[int32]*Obj, len(s.heap))
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.tapes = make([]*Tape, len(s.tapes))
	for i, t := range s.tapes {
		c.tapes[i] = t.clone()
	}
	c.vars = append([]SetID(nil), s.vars...)
	if s.memo != nil {
		c.memo = make(map[string]Value, len(s.memo))
		for k, v := range s.memo {
			c.memo[k] = v
		}
	}
	if s.mon != nil {
		c.mon = s.mon.Clone()
	}
	return &c
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) newVar(set SetID) int {
	s.vars = append(s.vars, set)
	return len(s.vars) - 1
}
func (s *State) newMark() int32 { s.nmark++; return s.nmark }

// ---------------------------------------------------------------------------
// control signals (raised by panic while evaluating one instruction; nothing is
// mutated before they are raised)

// forkReq asks the engine to retry the instruction in each alternative state.
type forkReq struct{ alts []func(*State) }

// stop ends a path silently.
type stopPath struct{}

type violation struct {
	kind string
	msg  string
	pos  string
}

func (v *violation) Error() string { return v.kind + ": " + v.msg }

func undecided(format string, a ...interface{}) {
	panic(&violation{kind: "undecided", msg: fmt.Sprintf(format, a...)})
}

// ---------------------------------------------------------------------------
// linear arithmetic over positions

func linOf(v Value) (*Lin, bool) {
	switch x := v.(type) {
	case CInt:
		return &Lin{k: int64(x)}, true
	case *Lin:
		return x, true
	}
	return nil, false
}

func normLin(t []LTerm, k int64) Value {
	sort.Slice(t, func(i, j int) bool { return t[i].m < t[j].m })
	var out []LTerm
	for _, x := range t {
		if isBOS(x.m) {
			continue
		}
		if n := len(out); n > 0 && out[n-1].m == x.m {
			out[n-1].c += x.c
		} else {
			out = append(out, x)
		}
	}
	r := out[:0]
	for _, x := range out {
		if x.c != 0 {
			r = append(r, x)
		}
	}
	if len(r) == 0 {
		return CInt(k)
	}
	return &Lin{t: r, k: k}
}

func linAdd(a, b *Lin, sign int64) Value {
	t := make([]LTerm, 0, len(a.t)+len(b.t))
	t = append(t, a.t...)
	for _, x := range b.t {
		t = append(t, LTerm{x.m, sign * x.c})
	}
	return normLin(t, a.k+sign*b.k)
}

func posLin(p Pos) *Lin {
	v := normLin([]LTerm{{p.m, 1}}, p.k)
	l, _ := linOf(v)
	return l
}

// tapeOfMark finds the tape and node index of a mark (index -1 for BOS,
// len(nodes) for an unresolved END).
func (s *State) locate(m int32) (tape, idx int) {
	if isBOS(m) {
		return markTape(m), -1
	}
	if isEND(m) {
		t := markTape(m)
		return t, len(s.tapes[t].nodes)
	}
	if isCUT(m) {
		return markTape(m), -2
	}
	for ti, t := range s.tapes {
		for i := range t.nodes {
			if t.nodes[i].id == m {
				return ti, i
			}
		}
	}
	panic(&violation{kind: "internal", msg: fmt.Sprintf("mark %d not found", m)})
}

func (s *State) lastMark(t int) int32 {
	tp := s.tapes[t]
	if len(tp.nodes) == 0 {
		return bosMark(t)
	}
	return tp.nodes[len(tp.nodes)-1].id
}

func (s *State) nodeWidth(n *Node) (lo, hi int64) {
	if n.v >= 0 {
		a, b := s.e.u.widths(s.vars[n.v])
		return int64(a), int64(b)
	}
	a, _ := s.e.u.widths(n.run)
	return int64(a), 1 << 40
}

const inf = int64(1) << 40

// resolveMark replaces END/CUT marks that are already known.
func (s *State) resolveMark(m int32) Pos {
	if isEND(m) {
		t := markTape(m)
		if s.tapes[t].closed {
			return Pos{s.lastMark(t), 0}
		}
	}
	if isCUT(m) {
		t := markTape(m)
		if s.tapes[t].cutAt {
			return s.tapes[t].cut
		}
	}
	return Pos{m, 0}
}

func (s *State) resolveLin(l *Lin) Value {
	need := false
	for _, x := range l.t {
		if isEND(x.m) || isCUT(x.m) {
			need = true
		}
	}
	if !need {
		return l
	}
	t := make([]LTerm, 0, len(l.t))
	k := l.k
	for _, x := range l.t {
		p := s.resolveMark(x.m)
		t = append(t, LTerm{p.m, x.c})
		k += x.c * p.k
	}
	return normLin(t, k)
}

// forkExtend asks for the text after the materialised part of a tape.
func (s *State) forkExtend(t int) {
	alts := []func(*State){
		func(n *State) { n.tapes[t].closed = true },
		func(n *State) { n.extend(t, n.goodAlphabet()) },
	}
	if s.e.badTail != 0 {
		alts = append(alts, func(n *State) { n.extend(t, n.e.badTail); n.tapes[t].closed = true })
	}
	panic(forkReq{alts})
}

// goodAlphabet is the alphabet without the pieces that only end a text.
func (s *State) goodAlphabet() SetID {
	if s.e.badTail == 0 {
		return s.alphabet()
	}
	return s.e.u.minus(s.alphabet(), s.e.badTail)
}

func (s *State) extend(t int, set SetID) {
	v := s.newVar(set)
	s.tapes[t].nodes = append(s.tapes[t].nodes, Node{id: s.newMark(), v: v})
	if s.e.onExtend != nil {
		s.e.onExtend(s, t)
	}
}

// forkPeel splits the first character off a run node.
func (s *State) forkPeel(t, idx int) {
	panic(forkReq{[]func(*State){
		func(n *State) { // exactly one character
			nd := &n.tapes[t].nodes[idx]
			v := n.newVar(nd.run)
			nd.v = v
			nd.run = 0
		},
		func(n *State) {
			nd := n.tapes[t].nodes[idx]
			v := n.newVar(nd.run)
			tp := n.tapes[t]
			nn := make([]Node, 0, len(tp.nodes)+1)
			nn = append(nn, tp.nodes[:idx]...)
			nn = append(nn, Node{id: n.newMark(), v: v, seen: nd.seen})
			nn = append(nn, tp.nodes[idx:]...)
			tp.nodes = nn
		},
	}})
}

// forkPeelLast splits the last character off a run node.
func (s *State) forkPeelLast(t, idx int) {
	panic(forkReq{[]func(*State){
		func(n *State) {
			nd := &n.tapes[t].nodes[idx]
			v := n.newVar(nd.run)
			nd.v = v
			nd.run = 0
		},
		func(n *State) {
			tp := n.tapes[t]
			nd := tp.nodes[idx]
			v := n.newVar(nd.run)
			nn := make([]Node, 0, len(tp.nodes)+1)
			nn = append(nn, tp.nodes[:idx]...)
			nn = append(nn, Node{id: n.newMark(), v: -1, run: nd.run, seen: nd.seen})
			nn = append(nn, Node{id: nd.id, v: v, seen: nd.seen})
			nn = append(nn, tp.nodes[idx+1:]...)
			tp.nodes = nn
		},
	}})
}

// forkWidth splits a character variable by encoded width.
func (s *State) forkWidth(v int) {
	s.forkVar(v, func(a *Atom) int64 { return int64(a.Width) })
}

func (s *State) forkVar(v int, f func(a *Atom) int64) {
	groups := map[int64][]uint64{}
	var order []int64
	u := s.e.u
	u.each(s.vars[v], func(i int) {
		k := f(&u.atoms[i])
		if groups[k] == nil {
			groups[k] = make([]uint64, u.words)
			order = append(order, k)
		}
		groups[k][i/64] |= 1 << (i % 64)
	})
	if len(order) < 2 {
		undecided("internal: useless split")
	}
	var alts []func(*State)
	for _, k := range order {
		id := u.internSet(groups[k])
		alts = append(alts, func(n *State) { n.vars[v] = id })
	}
	panic(forkReq{alts})
}

// forkCut decides whether the chunk end lies at its current lower bound, inside
// the following character, or later.
func (s *State) forkCut(t int) {
	tp := s.tapes[t]
	lb := tp.cut // always K==0 while unresolved
	_, idx := s.locate(lb.m)
	next := idx + 1
	if next >= len(tp.nodes) {
		if tp.closed {
			// nothing follows: the cut is here
			panic(forkReq{[]func(*State){func(n *State) { n.tapes[t].cutAt = true }}})
		}
		// cut here, or text continues
		alts := []func(*State){
			func(n *State) { n.tapes[t].cutAt = true },
			func(n *State) { n.extend(t, n.goodAlphabet()) },
		}
		if s.e.badTail != 0 {
			alts = append(alts, func(n *State) { n.extend(t, n.e.badTail); n.tapes[t].closed = true })
		}
		panic(forkReq{alts})
	}
	nd := &tp.nodes[next]
	if nd.v < 0 {
		s.forkPeel(t, next)
	}
	if tp.cutIn {
		// exact offset
		lo, hi := s.nodeWidth(nd)
		if lo != hi {
			s.forkWidth(nd.v)
		}
		var alts []func(*State)
		for k := int64(1); k < lo; k++ {
			k := k
			alts = append(alts, func(n *State) {
				n.tapes[t].cutAt, n.tapes[t].cutIn = true, false
				n.tapes[t].cut = Pos{lb.m, k}
			})
		}
		panic(forkReq{alts})
	}
	id, v := nd.id, nd.v
	u := s.e.u
	wide := u.inter(s.vars[v], s.e.wideSet())
	alts := []func(*State){
		func(n *State) { n.tapes[t].cutAt = true },
		func(n *State) { n.tapes[t].cut = Pos{id, 0} },
	}
	if wide != u.empty {
		alts = append(alts, func(n *State) { n.tapes[t].cutIn = true; n.vars[v] = wide })
	}
	panic(forkReq{alts})
}

// wideSet is the set of characters of more than one byte.
func (e *Engine) wideSet() SetID {
	if !e.wideOK {
		e.wide = e.u.setOf(func(a *Atom) bool { return a.Width > 1 })
		e.wideOK = true
	}
	return e.wide
}

// bounds computes the interval of a linear expression, and reports the segment
// to refine when the interval is not a single value.
type segRef struct {
	kind int // 0 none, 1 tail of tape, 2 character, 3 run, 4 cut
	tape int
	idx  int
}

func (s *State) bounds(l *Lin) (lo, hi int64, seg segRef) {
	lo, hi = l.k, l.k
	for ti := range s.tapes {
		tp := s.tapes[ti]
		var coef map[int]int64 // node index -> sum of coefs of marks at that index
		var tail, total, cutc int64
		for _, x := range l.t {
			if isCUT(x.m) {
				if markTape(x.m) != ti {
					continue
				}
				cutc += x.c
				// value = lower bound + unknown
				_, i := s.locate(tp.cut.m)
				if coef == nil {
					coef = map[int]int64{}
				}
				coef[i] += x.c
				total += x.c
				continue
			}
			t, i := s.locate(x.m)
			if t != ti {
				continue
			}
			if coef == nil {
				coef = map[int]int64{}
			}
			if i == len(tp.nodes) { // END, unresolved
				tail += x.c
			}
			coef[i] += x.c
			total += x.c
		}
		if coef == nil {
			continue
		}
		// weight of node j = sum of coefs of marks with index >= j
		w := total - coef[-1]
		inner := -1
		if cutc != 0 && tp.cutIn {
			_, i := s.locate(tp.cut.m)
			inner = i + 1
		}
		for j := range tp.nodes {
			if j == inner {
				// a character with the end of the chunk inside it
				a, b := s.nodeWidth(&tp.nodes[j])
				mn, mx := inf, -inf
				for x := a; x <= b; x++ {
					for d := int64(1); d < x; d++ {
						y := w*x + cutc*d
						if y < mn {
							mn = y
						}
						if y > mx {
							mx = y
						}
					}
				}
				lo += mn
				hi += mx
				if mn != mx {
					seg = segRef{4, ti, 0}
				}
			} else if w != 0 {
				a, b := s.nodeWidth(&tp.nodes[j])
				if w > 0 {
					lo += w * a
					hi += w * b
				} else {
					lo += w * b
					hi += w * a
				}
				if a != b && seg.kind == 0 {
					if tp.nodes[j].v < 0 {
						seg = segRef{3, ti, j}
					} else {
						seg = segRef{2, ti, j}
					}
				}
			}
			w -= coef[j]
		}
		if tail != 0 {
			if tail > 0 {
				hi += inf
			} else {
				lo -= inf
			}
			seg = segRef{1, ti, 0}
		}
		if cutc != 0 && inner < 0 {
			if cutc > 0 {
				hi += inf
			} else {
				lo -= inf
			}
			if seg.kind != 1 || true {
				seg = segRef{4, ti, 0}
			}
		}
	}
	return
}

func (s *State) forkSeg(sg segRef) {
	switch sg.kind {
	case 1:
		s.forkExtend(sg.tape)
	case 2:
		s.forkWidth(s.tapes[sg.tape].nodes[sg.idx].v)
	case 3:
		s.forkPeel(sg.tape, sg.idx)
	case 4:
		s.forkCut(sg.tape)
	}
	undecided("position comparison cannot be refined")
}

// sign returns -1, 0, 1 for the sign of l, forking as needed. want restricts
// which distinctions matter: lt: only <0 vs >=0; eq: only ==0 vs !=0.
func (s *State) cmpZero(v Value, op int) bool {
	for {
		l, ok := linOf(v)
		if !ok {
			undecided("comparison of non-linear value")
		}
		if len(l.t) > 0 {
			v = s.resolveLin(l)
			l, _ = linOf(v)
		}
		lo, hi, seg := s.bounds(l)
		switch op {
		case opLT: // l < 0
			if hi < 0 {
				return true
			}
			if lo >= 0 {
				return false
			}
		case opLE:
			if hi <= 0 {
				return true
			}
			if lo > 0 {
				return false
			}
		case opEQ:
			if lo == hi {
				return lo == 0
			}
			if lo > 0 || hi < 0 {
				return false
			}
		}
		s.forkSeg(seg)
	}
}

const (
	opLT = iota
	opLE
	opEQ
)

// decideZero is cmpZero without forking: returns (result, known).
func (s *State) decideZero(v Value, op int) (bool, bool) {
	l, ok := linOf(v)
	if !ok {
		return false, false
	}
	if len(l.t) > 0 {
		l, _ = linOf(s.resolveLin(l))
	}
	lo, hi, _ := s.bounds(l)
	switch op {
	case opLT:
		if hi < 0 {
			return true, true
		}
		if lo >= 0 {
			return false, true
		}
	case opLE:
		if hi <= 0 {
			return true, true
		}
		if lo > 0 {
			return false, true
		}
	case opEQ:
		if lo == hi {
			return lo == 0, true
		}
		if lo > 0 || hi < 0 {
			return false, true
		}
	}
	return false, false
}

func posDiff(a, b Pos) Value {
	return linAdd(posLin(a), posLin(b), -1)
}

// normPos moves a position forward over characters of known width (without
// forking) so that k lies inside the following character.
func (s *State) normPos(p Pos) Pos {
	p0 := s.resolveMark(p.m)
	p = Pos{p0.m, p0.k + p.k}
	if isEND(p.m) || isCUT(p.m) {
		return p
	}
	if p.k == 0 {
		return p
	}
	t, i := s.locate(p.m)
	tp := s.tapes[t]
	for p.k > 0 && i+1 < len(tp.nodes) {
		a, b := s.nodeWidth(&tp.nodes[i+1])
		if a != b || p.k < a {
			break
		}
		p.k -= a
		i++
		p.m = tp.nodes[i].id
	}
	for p.k < 0 && i >= 0 {
		a, b := s.nodeWidth(&tp.nodes[i])
		if a != b {
			break
		}
		p.k += a
		i--
		if i < 0 {
			p.m = bosMark(t)
		} else {
			p.m = tp.nodes[i].id
		}
	}
	return p
}

// exactPos resolves p to a character (node index i+1 of tape) and offset,
// forking as needed. Returns tape, index of the node containing the byte after
// p (len(nodes) if at the materialised frontier), and the offset within it.
func (s *State) exactPos(p Pos) (t, idx int, k int64) {
	p = s.normPos(p)
	if isEND(p.m) {
		if p.k == 0 {
			return markTape(p.m), -9, 0
		}
		s.forkExtend(markTape(p.m))
	}
	if isCUT(p.m) {
		s.forkCut(markTape(p.m))
	}
	t, i := s.locate(p.m)
	tp := s.tapes[t]
	if p.k < 0 {
		if i < 0 {
			panic(&violation{kind: "bounds", msg: "position before the start of the text"})
		}
		nd := &tp.nodes[i]
		if nd.v < 0 {
			s.forkPeelLast(t, i)
		}
		s.forkWidth(nd.v)
	}
	if i+1 >= len(tp.nodes) {
		if p.k > 0 {
			if tp.closed {
				return t, i + 1, p.k
			}
			s.forkExtend(t)
		}
		return t, i + 1, 0
	}
	nd := &tp.nodes[i+1]
	if nd.v < 0 {
		s.forkPeel(t, i+1)
	}
	a, b := s.nodeWidth(nd)
	if p.k >= a && a != b {
		s.forkWidth(nd.v)
	}
	return t, i + 1, p.k
}

// gather rewrites the marks of a sum relative to the earliest mark at a known
// distance, so that they cancel.
func (s *State) gather(l *Lin) Value {
	t := append([]LTerm(nil), l.t...)
	k := l.k
	for j := range t {
		m := t[j].m
		if isBOS(m) || isEND(m) || isCUT(m) {
			continue
		}
		tp, i := s.locate(m)
		if i < 0 {
			continue
		}
		for i >= 0 {
			a, b := s.nodeWidth(&s.tapes[tp].nodes[i])
			if a != b {
				break
			}
			k += t[j].c * a
			i--
		}
		if i < 0 {
			t[j].m = bosMark(tp)
		} else {
			t[j].m = s.tapes[tp].nodes[i].id
		}
	}
	r := normLin(t, k)
	if n, ok := r.(*Lin); ok && weight(n) >= weight(l) {
		return l
	}
	return r
}

func weight(l *Lin) (w int64) {
	for _, x := range l.t {
		if x.c < 0 {
			w -= x.c
		} else {
			w += x.c
		}
	}
	return
}

// linPos turns a linear value into a position on a tape (base position added by
// the caller).
func (s *State) linPos(v Value, tape int) Pos {
	l, ok := linOf(v)
	if !ok {
		undecided("index is not a position")
	}
	l, _ = linOf(s.resolveLin(l))
	if len(l.t) > 1 || len(l.t) == 1 && l.t[0].c != 1 {
		l, _ = linOf(s.gather(l))
	}
	if len(l.t) == 0 {
		return Pos{bosMark(tape), l.k}
	}
	if len(l.t) == 1 && l.t[0].c == 1 {
		return Pos{l.t[0].m, l.k}
	}
	// try to eliminate by concretising exact segments
	coef := map[int]int64{}
	var total int64
	tp := s.tapes[tape]
	for _, x := range l.t {
		t, i := s.locate(x.m)
		if t != tape || i == -2 {
			undecided("index mixes texts")
		}
		coef[i] += x.c
		total += x.c
	}
	w := total - coef[-1]
	k := l.k
	best := bosMark(tape)
	ok1 := true // still in the prefix of weight 1
	for j := 0; j < len(tp.nodes); j++ {
		a, b := s.nodeWidth(&tp.nodes[j])
		if ok1 && w == 1 {
			best = tp.nodes[j].id
		} else {
			ok1 = false
			if w != 0 {
				if a != b {
					if tp.nodes[j].v >= 0 {
						s.forkWidth(tp.nodes[j].v)
					}
					undecided("index is not a position of the text")
				}
				k += w * a
			}
		}
		w -= coef[j]
	}
	if coef[len(tp.nodes)] != 0 {
		if !tp.closed {
			s.forkExtend(tape)
		}
		undecided("index mixes the end of the text")
	}
	return Pos{best, k}
}

func (s *State) alphabet() SetID {
	if s.alpha != 0 {
		return s.alpha
	}
	return s.e.alphabet
}
