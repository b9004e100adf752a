package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// ECMA-48 escape sequences, as a recogniser of bytes that is started at every
// token: where (if anywhere) does a complete sequence that begins here end?

const (
	anStart  = iota
	anEsc    // after ESC
	anCSI    // parameter bytes
	anCSI2   // intermediate bytes
	anNF     // intermediates of an nF sequence
	anOSC    // 7-bit operating system command
	anOSCEsc // ... after ESC
	anStr    // 7-bit control string
	anStrEsc // ... after ESC
	anOSC8   // 8-bit operating system command
	anStr8   // 8-bit control string
	anNone   // no complete sequence
	anDone   // complete, with this byte
	anBefore // complete, without this byte
)

var anNames = []string{"start of token", "after ESC", "CSI parameters", "CSI intermediates", "nF intermediates", "OSC", "OSC, ESC", "control string", "control string, ESC", "8-bit OSC", "8-bit control string", "no sequence", "complete", "complete before this byte"}

func ansiStep(q int, b byte) int {
	in := func(lo, hi byte) bool { return lo <= b && b <= hi }
	const (
		bel, can, sub, esc, st = 0x07, 0x18, 0x1A, 0x1B, 0x9C
	)
	switch q {
	case anStart:
		switch {
		case b == esc:
			return anEsc
		case b == 0x9B:
			return anCSI
		case b == 0x9D:
			return anOSC8
		case b == 0x90, b == 0x98, b == 0x9E, b == 0x9F:
			return anStr8
		case in(0x80, 0x9F):
			return anDone
		}
	case anEsc:
		switch {
		case b == '[':
			return anCSI
		case b == ']':
			return anOSC
		case b == 'P', b == 'X', b == '^', b == '_':
			return anStr
		case in(0x30, 0x7E):
			return anDone
		case in(0x20, 0x2F):
			return anNF
		}
	case anCSI:
		switch {
		case in(0x30, 0x3F):
			return anCSI
		case in(0x20, 0x2F):
			return anCSI2
		case in(0x40, 0x7E):
			return anDone
		}
	case anCSI2:
		switch {
		case in(0x20, 0x2F):
			return anCSI2
		case in(0x40, 0x7E):
			return anDone
		}
	case anNF:
		switch {
		case in(0x20, 0x2F):
			return anNF
		case in(0x30, 0x7E):
			return anDone
		}
	case anOSC, anOSCEsc, anStr, anStrEsc:
		plain, after := anOSC, anOSCEsc
		if q == anStr || q == anStrEsc {
			plain, after = anStr, anStrEsc
		}
		switch {
		case b == can || b == sub:
			return anBefore
		case b == bel && plain == anOSC:
			return anDone
		case b == '\\' && q == after:
			return anDone
		case b == esc:
			return after
		}
		return plain
	case anOSC8, anStr8:
		switch {
		case b == can || b == sub:
			return anBefore
		case b == st, b == bel && q == anOSC8:
			return anDone
		}
		return q
	}
	return anNone
}

// The first two bytes of the token, as far as the checks need them.
const (
	byESC = iota + 1
	byCR
	byLF
	byASCII // any other ASCII
	byC1    // 0x80..0x9F: a C1 control byte
	byOther
	byEnd // there is none
)

func byteClass(b byte) int8 {
	switch {
	case b == 0x1B:
		return byESC
	case b == '\r':
		return byCR
	case b == '\n':
		return byLF
	case b < 0x80:
		return byASCII
	case b < 0xA0:
		return byC1
	}
	return byOther
}

// anState is what is known of the text of a token read so far.
type anState struct {
	q             int8
	first, second int8
}

func (x anState) next(b byte) anState {
	if x.first == 0 {
		x.first = byteClass(b)
	} else if x.second == 0 {
		x.second = byteClass(b)
	}
	if x.q < anNone {
		x.q = int8(ansiStep(int(x.q), b))
	}
	return x
}

// settled: reading on tells nothing more.
func (x anState) settled() bool { return x.q >= anNone && x.second != 0 }

type anKey struct {
	x   anState
	set SetID
}

type anRes struct {
	uniform bool
	to      anState
	parts   []SetID
}

// ansiDFA remembers how states read sets of symbols.
type ansiDFA map[anKey]anRes

func (d ansiDFA) on(u *Universe, x anState, set SetID) anRes {
	k := anKey{x, set}
	if r, ok := d[k]; ok {
		return r
	}
	groups := map[anState][]uint64{}
	var order []anState
	u.each(set, func(i int) {
		t := x.next(byte(u.atoms[i].Lead[0]))
		if groups[t] == nil {
			groups[t] = make([]uint64, u.words)
			order = append(order, t)
		}
		groups[t][i/64] |= 1 << (i % 64)
	})
	var res anRes
	if len(order) == 1 {
		res = anRes{uniform: true, to: order[0]}
	} else {
		for _, t := range order {
			res.parts = append(res.parts, u.internSet(groups[t]))
		}
	}
	d[k] = res
	return res
}

// AnsiMon runs the recogniser from the start of the current token.
type AnsiMon struct {
	d     ansiDFA
	tape  int
	begin int32 // start of the token
	x     anState
	cur   int32
	end   int32 // end of the sequence (anDone)
	peel  bool
	c1    bool // judge tokens as C10 does
}

func (m *AnsiMon) Clone() Monitor { c := *m; return &c }
func (m *AnsiMon) Marks(f func(int32) int32) {
	m.begin, m.cur = f(m.begin), f(m.cur)
	if m.x.q == anDone {
		m.end = f(m.end)
	}
}
func (m *AnsiMon) Key(k *keyer) {
	k.i(int64(m.x.q) + 64*int64(m.x.first) + 1024*int64(m.x.second))
	m.Clone().Marks(func(x int32) int32 { k.i(int64(x)); return x })
}
func (m *AnsiMon) Cursor(s *State) (int, int, bool) {
	t, i := s.locate(m.cur)
	return t, i, true
}
func (m *AnsiMon) Describe() string {
	return fmt.Sprintf("escape sequence: %s, token from mark %d, read to mark %d", anNames[m.x.q], m.begin, m.cur)
}
func (m *AnsiMon) Boundary(s *State, p Pos) { undecided("no boundaries here") }

func (m *AnsiMon) Advance(s *State, limit func(tape int) int) {
	m.peel = false
	l := limit(m.tape)
	for !m.x.settled() {
		if _, i := s.locate(m.cur); i >= l && !s.tapes[m.tape].closed {
			return
		}
		if !m.progress(s, false) {
			return
		}
	}
}

func (m *AnsiMon) PeelAt(s *State) (t, idx int, ok bool) {
	if !m.peel {
		return 0, 0, false
	}
	t, i := s.locate(m.cur)
	if i+1 < len(s.tapes[t].nodes) && s.tapes[t].nodes[i+1].v < 0 {
		return t, i + 1, true
	}
	return 0, 0, false
}

func (m *AnsiMon) progress(s *State, force bool) bool {
	t, i := s.locate(m.cur)
	tp := s.tapes[t]
	if i+1 >= len(tp.nodes) {
		if tp.closed {
			m.x.q = anNone // the text ends first
			if m.x.first == 0 {
				m.x.first = byEnd
			} else if m.x.second == 0 {
				m.x.second = byEnd
			}
			return true
		}
		if !force {
			return false
		}
		s.forkExtend(t)
	}
	nd := tp.nodes[i+1]
	u := s.e.u
	if nd.v < 0 {
		r := m.d.on(u, m.x, nd.run)
		if r.uniform && r.to == m.x {
			m.cur = nd.id
			return true
		}
		if !force {
			m.peel = true
			return false
		}
		s.forkPeel(t, i+1)
	}
	r := m.d.on(u, m.x, s.vars[nd.v])
	if !r.uniform {
		var alts []func(*State)
		for _, p := range r.parts {
			p, v := p, nd.v
			alts = append(alts, func(n *State) { n.vars[v] = p })
		}
		panic(forkReq{alts})
	}
	m.x = r.to
	if m.x.q == anBefore {
		m.x.q, m.end = anDone, m.cur
	} else if m.x.q == anDone {
		m.end = nd.id
	}
	m.cur = nd.id
	return true
}

// token judges a token that ends at p.
func (m *AnsiMon) token(s *State, p Pos, seven, eight bool) {
	next := func() {
		// what remains is judged afresh
		q := s.normPos(p)
		if q.k != 0 {
			undecided("token ends inside a character")
		}
		*m = AnsiMon{d: m.d, tape: m.tape, c1: m.c1, begin: q.m, cur: q.m}
	}
	for m.x.first == 0 {
		m.progress(s, true)
	}
	isESC, isC1 := m.x.first == byESC, m.x.first == byC1
	if m.c1 && !isC1 && seven || !m.c1 && isC1 && eight {
		next() // the other property's
		return
	}
	s.e.nOblig++
	if isESC && seven || isC1 && eight {
		for m.x.q != anNone && m.x.q != anDone {
			m.progress(s, true)
		}
		if m.x.q == anDone {
			kind := "7-bit"
			if isC1 {
				kind = "8-bit"
			}
			d := linAdd(posLin(p), posLin(Pos{m.end, 0}), -1)
			if !s.cmpZero(d, opEQ) {
				if s.cmpZero(d, opLT) {
					panic(&violation{kind: "cut", msg: "a token that starts a complete " + kind + " escape sequence ends before the end of the sequence"})
				}
				panic(&violation{kind: "overrun", msg: "a token that starts a complete " + kind + " escape sequence runs past the end of the sequence"})
			}
			next()
			return
		}
	}
	// an ordinary grapheme cluster
	lo, end := s.posVal(Pos{m.begin, 0}), s.posVal(Pos{endMark(m.tape), 0})
	for k, v := range s.memo {
		if a, ok := v.(*Agg); ok && len(a.f) == 3 && len(k) > 6 && k[:6] == "split:" {
			if s.sameInt(a.f[0], lo) && s.sameInt(a.f[1], end) && s.sameInt(a.f[2], s.posVal(p)) {
				next()
				return
			}
		}
	}
	// the rules leave no choice for ASCII followed by ASCII or nothing
	if ascii := isESC || m.x.first == byCR || m.x.first == byLF || m.x.first == byASCII; ascii {
		for m.x.second == 0 {
			m.progress(s, true)
		}
		if m.x.second != byC1 && m.x.second != byOther {
			want := Pos{m.begin, 1}
			if m.x.first == byCR && m.x.second == byLF {
				want.k = 2
			}
			if s.cmpZero(linAdd(posLin(p), posLin(want), -1), opEQ) {
				next()
				return
			}
		}
	}
	why := "although the option is off"
	switch {
	case !isESC && !isC1:
		why = "although no escape sequence starts here"
	case isESC && seven || isC1 && eight:
		why = "although the sequence is malformed or unterminated"
	}
	panic(&violation{kind: "ordinary", msg: "a token is not the ordinary grapheme cluster, " + why})
}

// ansiIn: verifAnsi(data, adv, seven, eight)
func ansiIn(s *State, in *ssa.Call, args []Value) (Value, bool) {
	data := s.textArg(args[0])
	seven, eight := s.truth(args[2]), s.truth(args[3])
	if s.cmpZero(args[1], opLE) {
		fail("contract", "a token is not longer than zero bytes")
	}
	m, ok := s.mon.(*AnsiMon)
	if !ok {
		undecided("no recogniser")
	}
	if !s.cmpZero(linAddV(s.posVal(data.lo), s.posVal(Pos{m.begin, 0}), -1), opEQ) {
		fail("property", "a token does not start where the previous one ends")
	}
	m.token(s, s.normPos(s.linPos(s.add(s.posVal(data.lo), args[1]), data.tape)), seven, eight)
	s.e.nBound++
	return &Agg{}, true
}

func ansiProp(c1 bool) []Task {
	var ts []Task
	for _, h := range []string{"verifAnsiBytes", "verifAnsiString"} {
		ts = append(ts, explore(exploreOpt{name: "graphemes/" + h, pkg: "graphemes", harness: h,
			configs: []config{{budget: 100e9}, {forget: true, budget: 100e9}, {keepLast: true, keepText: true, budget: 100e9}, {keepText: true, keepEnds: true, budget: 200e9}},
			custom:  func(c *Ctx) *Setup { return rawSetup(c, "graphemes") },
			prep: func(su *Setup, e *Engine) {
				opaqueSplits(e)
				e.splitMemo = []string{"last"}
				d := ansiDFA{}
				e.newMon = func(tape int) Monitor {
					b := bosMark(tape)
					return &AnsiMon{d: d, tape: tape, begin: b, cur: b, c1: c1}
				}
			}}))
	}
	return ts
}
