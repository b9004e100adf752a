package main

import (
	"fmt"
	"sort"
)

// ---------------------------------------------------------------------------
// Specification automata. A rule set is written as a decision function over a
// finite context (what the text before a position looks like) and the class of
// the next character; contexts are enumerated and minimised.

const (
	decBreak = iota
	decJoin
	decLook
)

// Dec decides whether there is a boundary before a character. For decLook the
// answer depends on the text from that character on: la names the look-ahead
// automaton, yes/no the continuation.
type Dec struct {
	kind    int
	la      int
	yes, no *Dec
}

var dBreak = &Dec{kind: decBreak}
var dJoin = &Dec{kind: decJoin}

// LA is a look-ahead automaton: step returns the verdict after reading a
// character (0 continue, 1 yes, 2 no); end is the verdict at the end of text.
// The first character it sees is the one after the position (first=true).
type LA struct {
	name string
	step func(st int, ref uint32) (int, int)
	end  int
}

type RuleSet struct {
	name   string
	names  []string // class names: bit i
	init   interface{}
	decide func(ctx interface{}, ref uint32) *Dec
	next   func(ctx interface{}, ref uint32, brk bool) interface{}
	las    []LA
	perTok bool // context restarts at every boundary
}

// Spec is a rule set tabulated over the reference classes of a universe.
type Spec struct {
	rs       *RuleSet
	u        *Universe
	classOf  []int // atom -> class index (-1: outside the specification)
	refs     []uint32
	nStates  int
	start    int
	dec      [][]*Dec // [state][class]
	nextJoin [][]int
	nextBrk  [][]int
	laStep   [][][][2]int // [la][state][class] -> (state, verdict)
	setC     map[specKey]stepRes
	stateStr []string
}

type specKey struct {
	q   int
	set SetID
}

type stepRes struct {
	uniform bool // all classes of the set behave alike
	dec     *Dec
	next    int // state after a join (or, perTok, after a break)
	nextB   int
	parts   []SetID // otherwise: sets to split into
}

func bit(names []string, n string) uint32 {
	for i, x := range names {
		if x == n {
			return 1 << i
		}
	}
	panic("no class " + n)
}

func BuildSpec(rs *RuleSet, u *Universe) *Spec {
	sp := &Spec{rs: rs, u: u, setC: map[specKey]stepRes{}}
	idx := map[uint32]int{}
	for i := range u.atoms {
		a := &u.atoms[i]
		if a.Kind != AtomRune {
			sp.classOf = append(sp.classOf, -1)
			continue
		}
		r := a.Ref | uint32(a.JM)<<28 | uint32(a.JL)<<30
		k, ok := idx[r]
		if !ok {
			k = len(sp.refs)
			idx[r] = k
			sp.refs = append(sp.refs, r)
		}
		sp.classOf = append(sp.classOf, k)
	}
	ctxs := []interface{}{rs.init}
	num := map[interface{}]int{rs.init: 0}
	get := func(c interface{}) int {
		k, ok := num[c]
		if !ok {
			k = len(ctxs)
			num[c] = k
			ctxs = append(ctxs, c)
		}
		return k
	}
	var dec [][]*Dec
	var nj, nb [][]int
	for i := 0; i < len(ctxs); i++ {
		d := make([]*Dec, len(sp.refs))
		j := make([]int, len(sp.refs))
		b := make([]int, len(sp.refs))
		for k, r := range sp.refs {
			d[k] = rs.decide(ctxs[i], r)
			j[k] = get(rs.next(ctxs[i], r, false))
			c := ctxs[i]
			if rs.perTok {
				c = rs.init
			}
			b[k] = get(rs.next(c, r, true))
		}
		dec = append(dec, d)
		nj = append(nj, j)
		nb = append(nb, b)
	}
	// Moore minimisation
	n := len(ctxs)
	part := make([]int, n)
	sig := func(i int) string { return "" }
	sig = func(i int) string {
		s := fmt.Sprint(part[i])
		for k := range sp.refs {
			s += "|" + decString(dec[i][k])
			if may(dec[i][k], decJoin) {
				s += fmt.Sprint("j", part[nj[i][k]])
			}
			if may(dec[i][k], decBreak) {
				s += fmt.Sprint("b", part[nb[i][k]])
			}
		}
		return s
	}
	cnt := 1
	for {
		m := map[string]int{}
		np := make([]int, n)
		for i := 0; i < n; i++ {
			s := sig(i)
			k, ok := m[s]
			if !ok {
				k = len(m)
				m[s] = k
			}
			np[i] = k
		}
		part = np
		if len(m) == cnt {
			break
		}
		cnt = len(m)
	}
	sp.nStates = cnt
	sp.start = part[0]
	rep := make([]int, cnt)
	for i := n - 1; i >= 0; i-- {
		rep[part[i]] = i
	}
	for q := 0; q < cnt; q++ {
		i := rep[q]
		sp.dec = append(sp.dec, dec[i])
		j := make([]int, len(sp.refs))
		b := make([]int, len(sp.refs))
		for k := range sp.refs {
			j[k] = part[nj[i][k]]
			b[k] = part[nb[i][k]]
		}
		sp.nextJoin = append(sp.nextJoin, j)
		sp.nextBrk = append(sp.nextBrk, b)
		sp.stateStr = append(sp.stateStr, fmt.Sprintf("%+v", ctxs[i]))
	}
	for _, la := range rs.las {
		var t [][][2]int
		for st := 0; st < 4; st++ {
			row := make([][2]int, len(sp.refs))
			for k, r := range sp.refs {
				ns, v := la.step(st, r)
				row[k] = [2]int{ns, v}
			}
			t = append(t, row)
		}
		sp.laStep = append(sp.laStep, t)
	}
	return sp
}

func may(d *Dec, k int) bool {
	if d.kind == decLook {
		return may(d.yes, k) || may(d.no, k)
	}
	return d.kind == k
}

func decString(d *Dec) string {
	switch d.kind {
	case decBreak:
		return "B"
	case decJoin:
		return "J"
	}
	return fmt.Sprintf("L%d(%s,%s)", d.la, decString(d.yes), decString(d.no))
}

// step classifies the behaviour of state q on a character of set.
func (sp *Spec) step(q int, set SetID) stepRes {
	if r, ok := sp.setC[specKey{q, set}]; ok {
		return r
	}
	groups := map[string][]uint64{}
	var res stepRes
	u := sp.u
	u.each(set, func(i int) {
		k := sp.classOf[i]
		if k < 0 {
			panic(&violation{kind: "internal", msg: "specification applied to malformed text"})
		}
		d := sp.dec[q][k]
		s := decString(d) + fmt.Sprint(":", sp.nextJoin[q][k], ":", sp.nextBrk[q][k])
		if groups[s] == nil {
			groups[s] = make([]uint64, u.words)
			res.dec, res.next, res.nextB = d, sp.nextJoin[q][k], sp.nextBrk[q][k]
		}
		groups[s][i/64] |= 1 << (i % 64)
	})
	if len(groups) == 1 {
		res.uniform = true
	} else {
		ks := make([]string, 0, len(groups))
		for k := range groups {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			res.parts = append(res.parts, u.internSet(groups[k]))
		}
	}
	sp.setC[specKey{q, set}] = res
	return res
}

// ---------------------------------------------------------------------------
// the monitor: one Spec running along a tape

type SpecMon struct {
	sp      *Spec
	tape    int
	q       int
	cur     int32 // mark: text before it has been read
	atStart bool  // at cur a token starts (boundary acknowledged, or start of text)
	pending bool  // a boundary is due at cur (determined, not yet acknowledged)
	dec     *Dec  // remaining decision while look-ahead is in progress
	laSt    int
	laCur   int32
	first   int32 // end mark of the character the decision is about
	peel    bool  // waiting for a run
}

func NewSpecMon(sp *Spec, tape int) *SpecMon {
	return &SpecMon{sp: sp, tape: tape, q: sp.start, cur: bosMark(tape), atStart: true}
}

func (m *SpecMon) Clone() Monitor { c := *m; return &c }
func (m *SpecMon) Marks(f func(int32) int32) {
	m.cur = f(m.cur)
	if m.dec != nil {
		m.laCur = f(m.laCur)
		m.first = f(m.first)
	}
}
func (m *SpecMon) Key(k *keyer) {
	k.i(int64(m.q))
	k.i(int64(m.cur))
	k.i(b2i(m.atStart) + 2*b2i(m.pending))
	if m.dec != nil {
		k.s(decString(m.dec))
		k.i(int64(m.laSt))
		k.i(int64(m.laCur))
	}
}
func (m *SpecMon) Cursor(s *State) (int, int, bool) {
	t, i := s.locate(m.cur)
	return t, i, true
}
func (m *SpecMon) Describe() string {
	s := fmt.Sprintf("%s state %s at mark %d", m.sp.rs.name, m.sp.stateStr[m.q], m.cur)
	if m.pending {
		s += " boundary due"
	}
	if m.dec != nil {
		s += fmt.Sprintf(" looking ahead %s from mark %d", decString(m.dec), m.laCur)
	}
	return s
}

// Advance reads as much of the already known text as possible.
func (m *SpecMon) Advance(s *State, limit func(tape int) int) {
	m.peel = false
	l := limit(m.tape)
	for !m.pending {
		// decide only about characters the program has moved past
		if _, i := s.locate(m.cur); i >= l && !s.tapes[m.tape].closed {
			return
		} else if i >= l && i+1 < len(s.tapes[m.tape].nodes) {
			return
		}
		if !m.progress(s, false) {
			return
		}
	}
}

// PeelAt names the run the specification is waiting to read.
func (m *SpecMon) PeelAt(s *State) (t, idx int, ok bool) {
	if !m.peel {
		return 0, 0, false
	}
	c := m.cur
	if m.dec != nil {
		c = m.laCur
	}
	t, i := s.locate(c)
	if i+1 < len(s.tapes[t].nodes) && s.tapes[t].nodes[i+1].v < 0 {
		return t, i + 1, true
	}
	return 0, 0, false
}

// progress makes one step; with force it extends or opens the text as needed.
func (m *SpecMon) progress(s *State, force bool) bool {
	if m.dec != nil {
		return m.look(s, force)
	}
	t, i := s.locate(m.cur)
	tp := s.tapes[t]
	if i+1 >= len(tp.nodes) {
		if tp.closed {
			if m.atStart {
				if force {
					panic(&violation{kind: "added", msg: "token reported after the end of the text"})
				}
				return false
			}
			m.pending = true // end of text
			return true
		}
		if !force {
			return false
		}
		s.forkExtend(t)
	}
	nd := tp.nodes[i+1]
	if nd.v < 0 {
		// a run: read it whole when all its characters act alike and loop
		r := m.sp.step(m.q, nd.run)
		if r.uniform && !m.atStart && r.dec.kind == decJoin {
			r2 := m.sp.step(r.next, nd.run)
			if r2.uniform && r2.dec.kind == decJoin && r2.next == r.next {
				m.q = r.next
				m.cur = nd.id
				return true
			}
		}
		if !force {
			m.peel = true
			return false
		}
		s.forkPeel(t, i+1)
	}
	r := m.sp.step(m.q, s.vars[nd.v])
	if !r.uniform {
		m.split(s, nd.v, r.parts)
	}
	if m.atStart {
		// first character of the text or of a token
		m.q = r.nextB
		m.atStart = false
		m.cur = nd.id
		return true
	}
	switch r.dec.kind {
	case decBreak:
		m.pending = true
	case decJoin:
		m.q = r.next
		m.cur = nd.id
	case decLook:
		m.dec = r.dec
		m.laSt = 0
		m.laCur = m.cur
		m.first = nd.id
	}
	return true
}

func (m *SpecMon) split(s *State, v int, parts []SetID) {
	var alts []func(*State)
	for _, p := range parts {
		p := p
		alts = append(alts, func(n *State) { n.vars[v] = p })
	}
	panic(forkReq{alts})
}

// look advances the look-ahead; false when it has to wait for more text.
func (m *SpecMon) look(s *State, force bool) bool {
	if m.dec.kind != decLook {
		d := m.dec
		m.dec = nil
		if d.kind == decBreak {
			m.pending = true
			return true
		}
		// join: consume the character
		t, i := s.locate(m.cur)
		nd := s.tapes[t].nodes[i+1]
		r := m.sp.step(m.q, s.vars[nd.v])
		m.q = r.next
		m.cur = nd.id
		return true
	}
	la := m.sp.laStep[m.dec.la]
	t, i := s.locate(m.laCur)
	tp := s.tapes[t]
	verdict := 0
	if i+1 >= len(tp.nodes) {
		if !tp.closed {
			if !force {
				return false
			}
			s.forkExtend(t)
		}
		verdict = m.sp.rs.las[m.dec.la].end
	} else {
		nd := tp.nodes[i+1]
		set := nd.run
		if nd.v >= 0 {
			set = s.vars[nd.v]
		}
		groups := map[[2]int][]uint64{}
		var one [2]int
		u := s.e.u
		u.each(set, func(a int) {
			r := la[m.laSt][m.sp.classOf[a]]
			if groups[r] == nil {
				groups[r] = make([]uint64, u.words)
				one = r
			}
			groups[r][a/64] |= 1 << (a % 64)
		})
		if nd.v < 0 {
			if len(groups) == 1 && one[1] == 0 && one[0] == m.laSt {
				m.laCur = nd.id
				return true
			}
			if !force {
				m.peel = true
				return false
			}
			s.forkPeel(t, i+1)
		}
		if len(groups) > 1 {
			var ks [][2]int
			for k := range groups {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(a, b int) bool {
				if ks[a][1] != ks[b][1] && (ks[a][1] == 0 || ks[b][1] == 0) {
					return ks[b][1] == 0 // those that decide come first
				}
				if ks[a][0] != ks[b][0] {
					return ks[a][0] < ks[b][0]
				}
				return ks[a][1] < ks[b][1]
			})
			var parts []SetID
			for _, k := range ks {
				parts = append(parts, u.internSet(groups[k]))
			}
			m.split(s, nd.v, parts)
		}
		m.laSt = one[0]
		verdict = one[1]
		if verdict == 0 {
			m.laCur = nd.id
			return true
		}
	}
	switch verdict {
	case 1:
		m.dec = m.dec.yes
	case 2:
		m.dec = m.dec.no
	default:
		panic("look-ahead verdict")
	}
	m.laSt = 0
	m.laCur = m.cur
	return true
}

// Boundary checks that the position p (a mark, offset 0) is the next boundary.
func (m *SpecMon) Boundary(s *State, p Pos) {
	// the position must be a character boundary
	for {
		if m.pending {
			d := linAdd(posLin(Pos{m.cur, 0}), posLin(p), -1) // cur - p
			if s.cmpZero(d, opEQ) {
				m.pending = false
				m.atStart = true
				if m.sp.rs.perTok {
					m.q = m.sp.start
				}
				return
			}
			if s.cmpZero(d, opLT) {
				panic(&violation{kind: "missed", msg: m.sp.rs.name + " boundary missed: the token runs past a boundary the rules require"})
			}
			panic(&violation{kind: "added", msg: m.sp.rs.name + " boundary added: the token ends where the rules have no boundary"})
		}
		// is the specification already past p?
		d := linAdd(posLin(Pos{m.cur, 0}), posLin(p), -1)
		if !m.atStart && m.dec == nil {
			if gt, known := s.decideZero(linAddV(CInt(0), d, -1), opLT); known && gt {
				panic(&violation{kind: "added", msg: m.sp.rs.name + " boundary added: the token ends where the rules have no boundary"})
			}
		}
		before := *m
		m.progress(s, true)
		if *m == before {
			panic(&violation{kind: "internal", msg: "specification stuck"})
		}
	}
}
