package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// A language of texts, as a deterministic automaton over the alphabet, run
// along a tape: what a yes/no classifier of texts has to answer.

type DFA struct {
	name  string
	state []string
	start int
	step  [][]int // [state][atom]
	acc   []bool
	dead  []bool // the answer no longer depends on the rest
	setC  map[specKey]dfaRes
}

type dfaRes struct {
	uniform bool
	to      int
	parts   []SetID
}

// buildDFA tabulates a language over the universe. Atoms for which next
// returns -1 are outside the language's domain.
func buildDFA(name string, u *Universe, states []string, acc func(q int) bool, next func(q int, a *Atom) int) *DFA {
	d := &DFA{name: name, state: states, setC: map[specKey]dfaRes{}}
	for q := range states {
		row := make([]int, len(u.atoms))
		for i := range u.atoms {
			row[i] = next(q, &u.atoms[i])
		}
		d.step = append(d.step, row)
		d.acc = append(d.acc, acc(q))
	}
	for q := range states {
		// reachable states all answer alike
		seen := map[int]bool{q: true}
		todo := []int{q}
		same := true
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			same = same && d.acc[x] == d.acc[q]
			for _, y := range d.step[x] {
				if y >= 0 && !seen[y] {
					seen[y] = true
					todo = append(todo, y)
				}
			}
		}
		d.dead = append(d.dead, same)
	}
	return d
}

func (d *DFA) on(u *Universe, q int, set SetID) dfaRes {
	if r, ok := d.setC[specKey{q, set}]; ok {
		return r
	}
	groups := map[int][]uint64{}
	u.each(set, func(i int) {
		t := d.step[q][i]
		if t < 0 {
			panic(&violation{kind: "internal", msg: "specification applied to malformed text"})
		}
		if groups[t] == nil {
			groups[t] = make([]uint64, u.words)
		}
		groups[t][i/64] |= 1 << (i % 64)
	})
	var res dfaRes
	var ks []int
	for k := range groups {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	if len(ks) == 1 {
		res = dfaRes{uniform: true, to: ks[0]}
	} else {
		for _, k := range ks {
			res.parts = append(res.parts, u.internSet(groups[k]))
		}
	}
	d.setC[specKey{q, set}] = res
	return res
}

// DFAMon runs an automaton along a tape.
type DFAMon struct {
	d    *DFA
	tape int
	q    int
	cur  int32
	peel bool
}

func (m *DFAMon) Clone() Monitor            { c := *m; return &c }
func (m *DFAMon) Marks(f func(int32) int32) { m.cur = f(m.cur) }
func (m *DFAMon) Key(k *keyer) {
	k.i(int64(m.q))
	k.i(int64(m.cur))
}
func (m *DFAMon) Cursor(s *State) (int, int, bool) {
	t, i := s.locate(m.cur)
	return t, i, true
}
func (m *DFAMon) Describe() string {
	return fmt.Sprintf("%s: %s at mark %d", m.d.name, m.d.state[m.q], m.cur)
}

func (m *DFAMon) Advance(s *State, limit func(tape int) int) {
	m.peel = false
	l := limit(m.tape)
	for {
		if _, i := s.locate(m.cur); i >= l && !s.tapes[m.tape].closed {
			return
		}
		if !m.progress(s, false) {
			return
		}
	}
}

func (m *DFAMon) PeelAt(s *State) (t, idx int, ok bool) {
	if !m.peel {
		return 0, 0, false
	}
	t, i := s.locate(m.cur)
	if i+1 < len(s.tapes[t].nodes) && s.tapes[t].nodes[i+1].v < 0 {
		return t, i + 1, true
	}
	return 0, 0, false
}

func (m *DFAMon) progress(s *State, force bool) bool {
	t, i := s.locate(m.cur)
	tp := s.tapes[t]
	if i+1 >= len(tp.nodes) {
		if tp.closed || !force {
			return false
		}
		s.forkExtend(t)
	}
	nd := tp.nodes[i+1]
	u := s.e.u
	if nd.v < 0 {
		r := m.d.on(u, m.q, nd.run)
		if r.uniform {
			if r2 := m.d.on(u, r.to, nd.run); r2.uniform && r2.to == r.to {
				m.q, m.cur = r.to, nd.id
				return true
			}
		}
		if !force {
			m.peel = true
			return false
		}
		s.forkPeel(t, i+1)
	}
	r := m.d.on(u, m.q, s.vars[nd.v])
	if !r.uniform {
		var alts []func(*State)
		for _, p := range r.parts {
			p, v := p, nd.v
			alts = append(alts, func(n *State) { n.vars[v] = p })
		}
		panic(forkReq{alts})
	}
	m.q, m.cur = r.to, nd.id
	return true
}

// verdict compares an answer about the whole text with the language.
func (m *DFAMon) verdict(s *State, ok bool) {
	for !m.d.dead[m.q] {
		if !m.progress(s, true) {
			break // end of text
		}
	}
	if m.d.acc[m.q] != ok {
		what := "accepts a text that is not"
		if !ok {
			what = "rejects a text that is"
		}
		panic(&violation{kind: "classification", msg: fmt.Sprintf("the classifier %s %s (%s)", what, m.d.name, m.d.state[m.q])})
	}
}

func (m *DFAMon) Boundary(s *State, p Pos) { undecided("no boundaries here") }

// verifVerdict(ok): the code's answer about the text.
func verdictIn(s *State, in *ssa.Call, args []Value) (Value, bool) {
	m, ok := s.mon.(*DFAMon)
	if !ok {
		return &Agg{}, true // any answer
	}
	s.e.nOblig++
	m.verdict(s, s.truth(args[0]))
	return &Agg{}, true
}

// numericLang: digits and connectors, with a single mid-number mark (and
// ignorables after it) between two digits.
func numericLang(su *Setup) *DFA {
	cb := clsBits{su.rd.names}
	num, conn, mid, ign := cb.of("Numeric"), cb.of("ExtendNumLet"), cb.of("MidNum", "MidNumLet", "SingleQuote"), cb.of("Extend", "Format", "ZWJ")
	const (
		begin = iota
		digit
		connector
		mark
		no
	)
	return buildDFA("numeric", su.u, []string{"start", "after a digit", "after a connector", "after a mid-number mark", "not numeric"},
		func(q int) bool { return q == digit || q == connector },
		func(q int, a *Atom) int {
			if a.Kind != AtomRune {
				return -1
			}
			is := func(c uint32) bool { return a.Ref&c != 0 }
			switch {
			case q == no:
				return no
			case is(num):
				return digit
			case is(conn) && q != mark:
				return connector
			case is(mid) && q == digit:
				return mark
			case is(ign) && q == mark:
				return mark
			}
			return no
		})
}

// ideographicLang: a Han, Hiragana or Katakana character, then those,
// connectors or ignorables.
func ideographicLang(su *Setup) *DFA {
	cb := clsBits{su.rd.names}
	ideo, rest := cb.of("BleveIdeographic"), cb.of("BleveIdeographic", "ExtendNumLet", "Extend", "Format", "ZWJ")
	return buildDFA("ideographic", su.u, []string{"start", "ideographic so far", "not ideographic"},
		func(q int) bool { return q == 1 },
		func(q int, a *Atom) int {
			switch {
			case a.Kind != AtomRune:
				return -1
			case q == 0 && a.Ref&ideo != 0, q == 1 && a.Ref&rest != 0:
				return 1
			}
			return 2
		})
}

// letterLang: some character is a letter or a number.
func letterLang(su *Setup) *DFA {
	var alnum uint64
	kindOf(0)
	for k := range catNames {
		if inCat(uint8(2*k), "L", "N") {
			alnum |= 3 << (2 * k)
		}
	}
	return buildDFA("alphanumeric", su.u, []string{"no letter or number so far", "has a letter or number"},
		func(q int) bool { return q == 1 },
		func(q int, a *Atom) int {
			switch {
			case a.Kind != AtomRune:
				return -1
			case q == 1:
				return 1
			}
			return int(b2i(a.Kinds&alnum != 0))
		})
}
