package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A caller's split function that may return anything. What it returned last is
// remembered until the token it decides has been checked.

const wildKey = "wild" // {lo, hi, advance, misbehaved}

// wildSplit is a call of such a function.
func (s *State) wildSplit(data, eof Value) Value {
	if !s.truth(eof) {
		fail("property", "the split function is told that more text may follow")
	}
	if s.emptyText(data) {
		fail("property", "the split function is asked about an empty text")
	}
	ts, ok := data.(TSlice)
	if !ok || ts.own {
		fail("property", "the split function is given something other than the remaining text")
	}
	lo, hi := s.posVal(ts.lo), s.posVal(ts.hi)
	if w, ok := s.memo[wildKey].(*Agg); ok && w.f[3] == Value(CInt(1)) {
		fail("property", "the iterator goes on after the split function misbehaved")
	}
	t, idx, k := s.exactPos(ts.lo)
	if k != 0 {
		undecided("split inside a character")
	}
	f := s.top()
	in, isCall := f.block.Instrs[f.pc].(*ssa.Call)
	if !isCall {
		undecided("split function called outside a call")
	}
	set := func(n *State, adv Value, bad int64) {
		if n.memo == nil {
			n.memo = map[string]Value{}
		}
		n.memo[wildKey] = &Agg{f: []Value{lo, hi, adv, CInt(bad)}}
	}
	var alts []func(n *State) Value
	// a result within the contract
	at := func(prep func(n *State) int32) {
		alts = append(alts, func(n *State) Value {
			p := n.posVal(Pos{prep(n), 0})
			if past, known := n.decideZero(linAddV(hi, p, -1), opLT); known && past {
				n.depth = -1 // no such result
				return nil
			} else if !known {
				undecided("the end of the data given to the split function is unknown")
			}
			adv := linAddV(p, lo, -1)
			set(n, adv, 0)
			return &Agg{f: []Value{adv, TSlice{tape: t, lo: ts.lo, hi: n.linPos(p, t), str: ts.str}, Nil{}}}
		})
	}
	tp := s.tapes[t]
	if idx >= 0 {
		for i := idx; i < len(tp.nodes); i++ {
			i := i
			nd := tp.nodes[i]
			at(func(n *State) int32 { return nd.id })
			if nd.v < 0 {
				at(func(n *State) int32 {
					q := n.tapes[t]
					id := n.newMark()
					nn := append([]Node(nil), q.nodes[:i]...)
					nn = append(nn, Node{id: id, v: -1, run: nd.run, seen: nd.seen})
					q.nodes = append(nn, q.nodes[i:]...)
					return id
				})
			}
		}
	}
	if !tp.closed {
		at(func(n *State) int32 {
			q := n.tapes[t]
			id := n.newMark()
			q.nodes = append(q.nodes, Node{id: id, v: -1, run: n.alphabet()})
			return id
		})
	}
	// and results outside it
	n := posDiff(ts.hi, ts.lo)
	bad := func(adv, tok, err Value) {
		alts = append(alts, func(n *State) Value {
			set(n, adv, 1)
			return &Agg{f: []Value{adv, tok, err}}
		})
	}
	custom := ErrV{"custom"}
	bad(CInt(0), Nil{}, custom)
	bad(n, ts, custom)
	bad(CInt(-1), ts, custom)
	bad(CInt(0), ts, Nil{})
	bad(CInt(-1), ts, Nil{})
	bad(CInt(-2), Nil{}, Nil{})
	bad(linAddV(n, CInt(1), 1), ts, Nil{})
	bad(linAddV(n, CInt(2), 1), ts, Nil{})
	bad(CInt(huge), ts, Nil{})
	s.branch(in, alts...)
	return nil
}

// huge stands for numbers so large that adding a position overflows.
const huge = int64(1) << 62

// answerIn: verifAnswer(data, adv): a token of adv bytes of data was reported.
func answerIn(s *State, in *ssa.Call, args []Value) (Value, bool) {
	w, asked := s.memo[wildKey].(*Agg)
	if asked && w.f[3] == Value(CInt(1)) {
		fail("property", "a split function that returns an error or an advance outside the data is not stopped")
	}
	s.e.nOblig++
	data := s.textArg(args[0])
	one := func() bool {
		return s.cmpZero(linAddV(args[1], CInt(1), -1), opEQ) && s.cmpZero(linAddV(posDiff(data.hi, data.lo), CInt(1), -1), opEQ)
	}
	if !asked {
		// of a single byte there is only one token
		if !one() {
			fail("property", "a token is reported without asking the split function")
		}
		return &Agg{}, true
	}
	if !s.cmpZero(linAddV(s.posVal(data.lo), w.f[0], -1), opEQ) || !s.cmpZero(linAddV(s.posVal(data.hi), w.f[1], -1), opEQ) {
		fail("property", "the split function is given something other than the remaining text")
	}
	if !s.cmpZero(linAddV(args[1], w.f[2], -1), opEQ) {
		fail("property", "the token is not the one the split function returned")
	}
	m := map[string]Value{}
	for k, v := range s.memo {
		if k != wildKey {
			m[k] = v
		}
	}
	s.memo = m
	return &Agg{}, true
}

// noAnswerIn: nothing the split function returned was left out.
func noAnswerIn(s *State, in *ssa.Call, args []Value) (Value, bool) {
	s.e.nOblig++
	if w, ok := s.memo[wildKey].(*Agg); ok {
		if w.f[3] == Value(CInt(1)) {
			fail("property", "a split function that returns an error or an advance outside the data ends the iteration quietly")
		}
		fail("property", "a token the split function returned is not reported")
	}
	return &Agg{}, true
}

// wildSplits gives an engine such a split function.
func wildSplits(e *Engine) {
	e.keepOne = true
	e.opaque = map[string]func(s *State, args []Value) (Value, bool){
		"split": func(s *State, args []Value) (Value, bool) { return s.wildSplit(args[0], args[1]), true },
	}
	e.panicOK = func(s *State, v Value) bool {
		w, ok := s.memo[wildKey].(*Agg)
		return ok && w.f[3] == Value(CInt(1))
	}
}

func customTasks() (ts []Task) {
	for _, pkg := range []string{"iterators", "words"} {
		for _, h := range []string{"verifCustomB", "verifCustomS"} {
			pkg, h := pkg, h
			ts = append(ts, explore(exploreOpt{name: pkg + "/" + h, pkg: pkg, harness: h, configs: rawConfigs,
				custom: func(c *Ctx) *Setup { return rawSetup(c, pkg) },
				prep: func(su *Setup, e *Engine) {
					wildSplits(e)
					e.term = true
					e.boundsOK = strings.HasSuffix(h, "S")
				}}))
		}
	}
	return
}
