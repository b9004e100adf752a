package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Explorations over raw bytes: the text is any byte sequence, and the split
// functions of the package are replaced by what C06 establishes about them:
// deterministic, no error, and an advance of at least one byte and at most the
// data.

// rawSetup is the byte alphabet with the split functions summarised.
func rawSetup(c *Ctx, pkg string) *Setup {
	u := byteUniverse()
	add := func(pred func(b byte) bool) {
		u.templ = append(u.templ, u.setOf(func(a *Atom) bool { return pred(byte(a.Lead[0])) }))
	}
	alnum := func(b byte) bool {
		return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
	}
	add(alnum)
	add(func(b byte) bool { return alnum(b) || b == ' ' })
	add(func(b byte) bool { return b >= 0x20 && b <= 0x2F })
	add(func(b byte) bool { return b >= 0x30 && b <= 0x3F })
	for _, c := range []byte{0x07, 0x18, 0x1A, 0x1B, 0x9C, '\\'} {
		c := c
		add(func(b byte) bool { return b != c })
	}
	add(func(b byte) bool { return b < 0x80 })
	su := &Setup{p: c.p, pkg: pkg, u: u, isLook: map[*ssa.Function]bool{}}
	su.propFn = u.makeFn1(func(i int) ValID { return ValTop })
	return su
}

// splitSig reports whether a signature is that of a split function.
func splitSig(sig *types.Signature) bool {
	if sig.Params().Len() != 2 || sig.Results().Len() != 3 || sig.TypeParams().Len() > 0 {
		return false
	}
	isErr := func(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
	isBool := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool
	}
	p, r := sig.Params(), sig.Results()
	return isText(p.At(0).Type()) && isBool(p.At(1).Type()) && isInt(r.At(0).Type()) &&
		types.Identical(p.At(0).Type().Underlying(), r.At(1).Type().Underlying()) && isErr(r.At(2).Type())
}

// opaqueSplits makes an engine treat split functions as unknown but well behaved.
func opaqueSplits(e *Engine) {
	e.keepOne = true
	e.summAny = func(fn *ssa.Function) func(s *State, args []Value) Value {
		if !splitSig(fn.Signature) || !e.p.inModule(fn) || e.isHarness(fn) {
			return nil
		}
		name := fn.String()
		return func(s *State, args []Value) Value {
			return s.opaqueSplit(name, args[len(args)-2], args[len(args)-1])
		}
	}
	if e.opaque == nil {
		e.opaque = map[string]func(s *State, args []Value) (Value, bool){}
	}
	e.opaque["split"] = func(s *State, args []Value) (Value, bool) {
		return s.opaqueSplit("split", args[0], args[1]), true
	}
}

func (s *State) opaqueSplit(name string, data, eof Value) Value {
	ret := func(adv, tok Value) Value { return &Agg{f: []Value{adv, tok, Nil{}}} }
	if !s.truth(eof) {
		undecided("the split function is asked about part of the text")
	}
	ts, ok := data.(TSlice)
	if !ok || s.cmpZero(posDiff(ts.hi, ts.lo), opLE) {
		if !ok && !s.emptyText(data) {
			undecided("split of %T", data)
		}
		return ret(CInt(0), data)
	}
	if ts.own {
		undecided("split of a copy")
	}
	t, idx, k := s.exactPos(ts.lo)
	if k != 0 {
		undecided("split inside a character")
	}
	res := func(p Value) Value {
		d, _ := linOf(p)
		lo, _ := linOf(s.posVal(ts.lo))
		return ret(linAdd(d, lo, -1), TSlice{tape: t, lo: ts.lo, hi: s.linPos(p, t), str: ts.str})
	}
	slot := fmt.Sprintf("split:%s:%d:", name, t)
	lo, hi := s.posVal(ts.lo), s.posVal(ts.hi)
	for _, key := range s.e.splitMemo {
		key = slot + key
		if v, ok := s.memo[key]; ok {
			a := v.(*Agg)
			if s.sameInt(a.f[0], lo) && s.sameInt(a.f[1], hi) {
				return res(a.f[2])
			}
		}
	}
	// the first and the latest result are remembered where clients compare
	key := ""
	for _, m := range s.e.splitMemo {
		if m == "last" || m == "bos" && s.sameInt(lo, CInt(0)) {
			key = slot + m
			break
		}
	}
	f := s.top()
	in, isCall := f.block.Instrs[f.pc].(*ssa.Call)
	if !isCall {
		undecided("split function called outside a call")
	}
	var alts []func(n *State) Value
	at := func(prep func(n *State) int32) {
		alts = append(alts, func(n *State) Value {
			p := n.posVal(Pos{prep(n), 0})
			d, _ := linOf(p)
			h, _ := linOf(hi)
			if past, known := n.decideZero(linAdd(h, d, -1), opLT); known && past {
				n.depth = -1 // no such result
				return nil
			} else if !known {
				undecided("the end of the data given to the split function is unknown")
			}
			if key != "" {
				if n.memo == nil {
					n.memo = map[string]Value{}
				}
				n.memo[key] = &Agg{f: []Value{lo, hi, p}}
			}
			return ret(linAddV(CInt(0), linAddV(s.posVal(ts.lo), p, -1), -1), TSlice{tape: t, lo: ts.lo, hi: n.linPos(p, t), str: ts.str})
		})
	}
	tp := s.tapes[t]
	if idx >= 0 {
		for i := idx; i < len(tp.nodes); i++ {
			i := i
			nd := tp.nodes[i]
			at(func(n *State) int32 { return nd.id })
			if nd.v < 0 {
				at(func(n *State) int32 {
					q := n.tapes[t]
					id := n.newMark()
					nn := append([]Node(nil), q.nodes[:i]...)
					nn = append(nn, Node{id: id, v: -1, run: nd.run, seen: nd.seen})
					q.nodes = append(nn, q.nodes[i:]...)
					return id
				})
			}
		}
	}
	if !tp.closed {
		at(func(n *State) int32 {
			q := n.tapes[t]
			id := n.newMark()
			q.nodes = append(q.nodes, Node{id: id, v: -1, run: n.alphabet()})
			return id
		})
	}
	s.branch(in, alts...)
	return nil
}

// sameInt reports that two integers are certainly equal.
func (s *State) sameInt(a, b Value) bool {
	if _, ok := linOf(a); !ok {
		return false
	}
	if _, ok := linOf(b); !ok {
		return false
	}
	eq, known := s.decideZero(linAddV(a, b, -1), opEQ)
	return known && eq
}

var posHarnesses = []string{"verifPosB", "verifPosS", "verifFirstB", "verifFirstS", "verifResetB", "verifResetS", "verifSetTextB", "verifSetTextS", "verifFirstAgainB", "verifFirstAgainS"}

var rawConfigs = []config{
	{coarse: true, forget: true, budget: 240 * time.Second},
	{forget: true, budget: 200 * time.Second},
	{forget: true, keepLast: true, keepText: true, budget: 120 * time.Second},
	{joins: true, budget: 120 * time.Second},
}

func posTasks(names []string, term bool) (ts []Task) {
	for _, pkg := range append([]string{"iterators"}, pkgs4...) {
		for _, h := range names {
			pkg, h := pkg, h
			ts = append(ts, explore(exploreOpt{name: pkg + "/" + h, pkg: pkg, harness: h, configs: rawConfigs,
				custom: func(c *Ctx) *Setup { return rawSetup(c, pkg) },
				prep: func(su *Setup, e *Engine) {
					opaqueSplits(e)
					e.term = term
					if strings.HasPrefix(h, "verifFirst") {
						e.splitMemo = []string{"bos"}
					}
				}}))
		}
	}
	return
}
