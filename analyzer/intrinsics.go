package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Intrinsics are the functions harness clients use to talk to the analysis.

type intrinsic func(s *State, in *ssa.Call, args []Value) (Value, bool)

var intrinsics map[string]intrinsic

func (s *State) newTape() int {
	s.tapes = append(s.tapes, &Tape{})
	return len(s.tapes) - 1
}

// branch forks with the given results for the call instruction.
func (s *State) branch(in *ssa.Call, alts ...func(n *State) Value) {
	var fs []func(*State)
	for _, a := range alts {
		a := a
		fs = append(fs, func(n *State) {
			v := a(n)
			f := n.top()
			n.set(f, in, v)
			f.pc++
		})
	}
	panic(forkReq{fs})
}

func (s *State) textArg(v Value) TSlice {
	ts, ok := v.(TSlice)
	if !ok {
		undecided("harness: %T is not a text", v)
	}
	return ts
}

func fail(kind, msg string) { panic(&violation{kind: kind, msg: msg}) }

// contract checks what a split function returned for data.
func (s *State) contract(data TSlice, adv, tok, err Value, eof bool) {
	if _, ok := err.(Nil); !ok {
		fail("contract", "split function returns an error")
	}
	if _, ok := linOf(adv); !ok {
		undecided("advance is unknown")
	}
	n := posDiff(data.hi, data.lo)
	if s.cmpZero(adv, opLT) {
		fail("contract", "split function returns a negative advance")
	}
	if !s.cmpZero(linAddV(adv, n, -1), opLE) {
		fail("contract", "split function advances past the end of the data")
	}
	if s.cmpZero(adv, opEQ) {
		if eof {
			fail("contract", "split function advances by zero at end of input")
		}
		if !data.str {
			// the scanner delivers any non-nil token
			if ts, ok := tok.(TSlice); ok {
				_ = ts
				fail("contract", "split function returns a token without advancing")
			}
		}
		return
	}
	ts, ok := tok.(TSlice)
	if !ok || ts.tape != data.tape {
		fail("contract", "split function advances without returning the bytes it advances over")
	}
	if ts.own {
		fail("contract", "split function returns a copy instead of a view of the text")
	}
	end := s.linPos(s.add(s.posVal(data.lo), adv), data.tape)
	if !s.cmpZero(posDiff(ts.lo, data.lo), opEQ) {
		fail("contract", "the token does not start where the data starts")
	}
	if !s.cmpZero(posDiff(ts.hi, end), opEQ) {
		fail("contract", "the token is not exactly the bytes the split function advances over")
	}
}

func (s *State) truth(v Value) bool {
	switch x := v.(type) {
	case CInt:
		return x != 0
	case FnVal:
		return s.boolOf(x)
	}
	undecided("harness condition is unknown (%T)", v)
	return false
}

func constStr(v Value) string {
	if c, ok := v.(CStr); ok {
		return string(c)
	}
	return "?"
}

func init() {
	intrinsics = map[string]intrinsic{
		"verifString": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			t := s.newTape()
			if s.mon == nil && s.e.newMon != nil {
				s.mon = s.e.newMon(t)
			}
			return TSlice{tape: t, lo: Pos{bosMark(t), 0}, hi: Pos{endMark(t), 0}, str: true}, true
		},
		"verifBytes": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			t := s.newTape()
			if s.mon == nil && s.e.newMon != nil {
				s.mon = s.e.newMon(t)
			}
			return TSlice{tape: t, lo: Pos{bosMark(t), 0}, hi: Pos{endMark(t), 0}}, true
		},
		"verifRemember": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			if s.memo == nil {
				s.memo = map[string]Value{}
			}
			s.memo["remember"] = CInt(1)
			return &Agg{}, true
		},
		// verifForget: nothing is known of the text any more
		"verifForget": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			s.memo = nil
			f := s.top()
			for _, r := range s.e.deadRegs(f, false) {
				f.regs[r] = nil
			}
			for _, tp := range s.tapes {
				tp.cutOn, tp.cutAt, tp.cutIn = false, false, false
			}
			s.normalise()
			s.wipe = true
			s.compact()
			return &Agg{}, true
		},
		"verifNondet": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			s.branch(in, func(*State) Value { return CInt(0) }, func(*State) Value { return CInt(1) })
			return nil, false
		},
		"verifParam": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			return CInt(s.e.params[constStr(args[0])]), true
		},
		"verifStop": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			panic(stopPath{})
		},
		"verifFail": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			fail("property", constStr(args[0]))
			return nil, false
		},
		"verifAssert": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			if !s.truth(args[0]) {
				fail("property", constStr(args[1]))
			}
			s.e.nOblig++
			return &Agg{}, true
		},
		"verifAssume": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			if !s.truth(args[0]) {
				panic(stopPath{})
			}
			return &Agg{}, true
		},
		"verifContractB": contractIn, "verifContractS": contractIn,
		"verifBoundaryB": boundaryIn, "verifBoundaryS": boundaryIn,
		"verifSameB": sameIn, "verifSameS": sameIn,
		"verifViewB": viewIn, "verifViewS": viewIn,
		// verifChunkB(data) (chunk, eof): what a reader may have delivered so far
		"verifChunkB": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			ts := s.textArg(args[0])
			s.branch(in,
				func(n *State) Value {
					n.tapes[ts.tape].cutOn = false
					n.tapes[ts.tape].cutAt = false
					n.tapes[ts.tape].cutIn = false
					return &Agg{f: []Value{ts, CInt(1)}}
				},
				func(n *State) Value {
					tp := n.tapes[ts.tape]
					tp.cutOn, tp.cutAt, tp.cutIn, tp.cut = true, false, false, ts.lo
					return &Agg{f: []Value{TSlice{tape: ts.tape, lo: ts.lo, hi: Pos{cutMark(ts.tape), 0}}, CInt(0)}}
				})
			return nil, false
		},
		"verifMoreB": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			ts := s.textArg(args[0])
			if s.e.onMore != nil {
				s.e.onMore(s, ts)
			}
			s.e.nMore++
			panic(stopPath{})
		},
		// verifInstalled(sc) returns the split function installed on a scanner
		"verifInstalled": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			p := s.scannerObj(args[0])
			a := s.obj(p.obj).val.(*Agg)
			if i, ok := a.f[0].(Iface); !ok || i.v != (Value)(Opaque{name: "reader"}) {
				if _, raw := a.f[0].(Opaque); !raw {
					fail("property", "the scanner does not read from the caller's reader directly")
				}
			}
			if c, ok := a.f[2].(CInt); !ok || c < 64*1024 {
				fail("property", "the scanner's buffer limit is below the default")
			}
			return a.f[1], true
		},
		// verifSameObj(a, b): the two objects certainly hold the same values
		"verifSameObj": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			s.e.nOblig++
			return CInt(b2i(s.sameVal(args[0], args[1], 0))), true
		},
		"verifReader": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			return Opaque{name: "reader"}, true
		},
		"verifAnsiB": ansiIn, "verifAnsiS": ansiIn,
		"verifAnswerB": answerIn, "verifAnswerS": answerIn, "verifNoAnswer": noAnswerIn,
		"verifVerdict": verdictIn,
		"verifSplitB":  splitIn, "verifSplitS": splitIn,
		"verifResult": func(s *State, in *ssa.Call, args []Value) (Value, bool) {
			if s.e.onResult != nil {
				s.e.onResult(s, args)
			}
			return &Agg{}, true
		},
		"verifJoinersM": func(s *State, in *ssa.Call, args []Value) (Value, bool) { return joinerSet(s, 'M'), true },
		"verifJoinersL": func(s *State, in *ssa.Call, args []Value) (Value, bool) { return joinerSet(s, 'L'), true },
	}
}

// joinerSet is a list of arbitrary characters.
func joinerSet(s *State, list byte) Value {
	n := 0
	for i := range s.e.u.atoms {
		a := &s.e.u.atoms[i]
		if list == 'M' && a.JM > n {
			n = a.JM
		}
		if list == 'L' && a.JL > n {
			n = a.JL
		}
	}
	a := &Agg{}
	for i := 1; i <= n; i++ {
		a.f = append(a.f, AnyOf{list, i})
	}
	id := s.alloc(nil, a)
	s.heap[id].sym = "joiners"
	return HSlice{obj: id, hi: int64(n), cap: int64(n)}
}

func splitIn(s *State, in *ssa.Call, args []Value) (Value, bool) {
	return FuncV{name: "split"}, true
}

func contractIn(s *State, in *ssa.Call, args []Value) (Value, bool) {
	data := s.textArg(args[0])
	s.e.nOblig++
	s.contract(data, args[1], args[2], args[3], s.truth(args[4]))
	return &Agg{}, true
}

// boundary(data, adv): a token of the data ends after adv bytes.
func boundaryIn(s *State, in *ssa.Call, args []Value) (Value, bool) {
	data := s.textArg(args[0])
	if _, ok := linOf(args[1]); !ok {
		undecided("advance is unknown")
	}
	if s.cmpZero(args[1], opLE) {
		fail("contract", "a token is not longer than zero bytes")
	}
	if !s.cmpZero(linAddV(args[1], posDiff(data.hi, data.lo), -1), opLE) {
		fail("contract", "a token ends past the end of the data")
	}
	if s.mon != nil {
		p := s.normPos(s.linPos(s.add(s.posVal(data.lo), args[1]), data.tape))
		s.mon.Boundary(s, p)
	}
	s.e.nBound++
	return &Agg{}, true
}

// same(a, b, msg): two slices are the same part of the same text.
func sameIn(s *State, in *ssa.Call, args []Value) (Value, bool) {
	s.e.nOblig++
	msg := constStr(args[2])
	a, ok1 := args[0].(TSlice)
	b, ok2 := args[1].(TSlice)
	if !ok1 || !ok2 {
		ea, eb := s.emptyText(args[0]), s.emptyText(args[1])
		if ea && eb {
			return &Agg{}, true
		}
		fail("property", msg)
	}
	if a.tape != b.tape {
		fail("property", msg)
	}
	if !s.cmpZero(posDiff(a.lo, b.lo), opEQ) || !s.cmpZero(posDiff(a.hi, b.hi), opEQ) {
		fail("property", msg)
	}
	return &Agg{}, true
}

func (s *State) emptyText(v Value) bool {
	switch x := v.(type) {
	case Nil:
		return true
	case CStr:
		return x == ""
	case TSlice:
		return s.cmpZero(posDiff(x.hi, x.lo), opEQ)
	}
	return false
}

// view(v, data, lo, hi, msg): v is exactly data[lo:hi], not a copy.
func viewIn(s *State, in *ssa.Call, args []Value) (Value, bool) {
	data := s.textArg(args[1])
	msg := constStr(args[4])
	s.e.nOblig++
	ts, ok := args[0].(TSlice)
	if !ok {
		if s.emptyText(args[0]) && s.cmpZero(linAddV(args[3], args[2], -1), opEQ) {
			return &Agg{}, true
		}
		fail("property", msg)
	}
	if ts.tape != data.tape || ts.own {
		fail("property", msg)
	}
	lo := s.linPos(s.add(s.posVal(data.lo), args[2]), data.tape)
	hi := s.linPos(s.add(s.posVal(data.lo), args[3]), data.tape)
	if !s.cmpZero(posDiff(ts.lo, lo), opEQ) || !s.cmpZero(posDiff(ts.hi, hi), opEQ) {
		fail("property", msg)
	}
	return &Agg{}, true
}

// sameVal reports that two values are certainly equal, looking through pointers.
func (s *State) sameVal(a, b Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := a.(type) {
	case CInt, *Lin:
		return s.sameInt(a, b)
	case CStr:
		return a == b
	case Nil:
		_, ok := b.(Nil)
		return ok
	case Opaque:
		return a == b
	case Iface:
		y, ok := b.(Iface)
		return ok && types.Identical(x.t, y.t) && s.sameVal(x.v, y.v, depth+1)
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.fn != y.fn || x.name != y.name || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !s.sameVal(x.bind[i], y.bind[i], depth+1) {
				return false
			}
		}
		return true
	case TSlice:
		y, ok := b.(TSlice)
		return ok && x.tape == y.tape && x.own == y.own && s.sameInt(s.posVal(x.lo), s.posVal(y.lo)) && s.sameInt(s.posVal(x.hi), s.posVal(y.hi))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return s.sameVal(s.load(x), s.load(y), depth+1)
	case HSlice:
		return a == b
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !s.sameVal(x.f[i], y.f[i], depth+1) {
				return false
			}
		}
		return true
	case FnVal:
		return a == b
	}
	return false
}
