package main

import (
	"fmt"
	"sort"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Setup is a package with its character classes derived.
type Setup struct {
	p      *Program
	pkg    string
	lf     *LookupFacts
	rd     *RefData
	u      *Universe
	propFn FnID
	isLook map[*ssa.Function]bool
}

type uniOpt struct {
	jm, jl int  // joiner variants of every character: sizes of the lists
	bad    bool // malformed pieces
	coarse bool // classes are left open
}

// NewSetup builds the alphabet of a tokenizer package.
func NewSetup(p *Program, lf *LookupFacts, rd *RefData, o uniOpt) *Setup {
	type key struct {
		ref      uint32
		val      int64
		w, ascii int
		jm, jl   int
	}
	leads := map[key]map[int64]bool{}
	var order []key
	var sample, last = map[key]rune{}, map[key]rune{}
	kinds := map[key]uint64{}
	var noJoin uint32 // characters that joiners must not be
	cb := clsBits{rd.names}
	noJoin = cb.of("CR", "LF", "Newline", "Extend", "Format", "ZWJ")
	for r := rune(0); r < 0x110000; r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		k := key{ref: rd.ref[r], val: lf.vals[r], w: utf8.RuneLen(r), ascii: -1}
		if r < 0x80 {
			k.ascii = int(r)
		}
		if o.coarse {
			k.ref, k.val = 0, 0
		}
		var e [4]byte
		utf8.EncodeRune(e[:], r)
		if leads[k] == nil {
			leads[k] = map[int64]bool{}
			order = append(order, k)
			sample[k] = r
		}
		kinds[k] |= 1 << kindOf(r)
		last[k] = r
		leads[k][int64(e[0])] = true
	}
	var atoms []Atom
	for _, k := range order {
		a := Atom{Kind: AtomRune, Ref: k.ref, Val: k.val, Width: k.w, LookW: k.w, ASCII: k.ascii, Kinds: kinds[k], Lo: sample[k], Hi: last[k]}
		for l := range leads[k] {
			a.Lead = append(a.Lead, l)
		}
		sort.Slice(a.Lead, func(i, j int) bool { return a.Lead[i] < a.Lead[j] })
		switch {
		case k.ascii > 32 && k.ascii < 127:
			a.Name = fmt.Sprintf("%q", rune(k.ascii))
		case k.ascii >= 0:
			a.Name = fmt.Sprintf("%02X", k.ascii)
		default:
			a.Name = fmt.Sprintf("%s(U+%04X)", rd.className(k.ref), sample[k])
		}
		atoms = append(atoms, a)
	}
	if o.jm+o.jl > 0 {
		base := atoms
		atoms = nil
		for _, a := range base {
			if a.Ref&noJoin != 0 {
				atoms = append(atoms, a)
				continue
			}
			for jm := 0; jm <= o.jm; jm++ {
				for jl := 0; jl <= o.jl; jl++ {
					b := a
					b.JM, b.JL = jm, jl
					if jm > 0 {
						b.Name += fmt.Sprintf("/M%d", jm)
					}
					if jl > 0 {
						b.Name += fmt.Sprintf("/L%d", jl)
					}
					atoms = append(atoms, b)
				}
			}
		}
	}
	if o.bad {
		for w := 1; w <= 4; w++ {
			for n := 1; n <= 4; n++ {
				bp := lf.bads[[2]int{w, n}]
				if bp == nil {
					continue
				}
				var inner [][]int64
				for i := 1; i < w; i++ {
					inner = append(inner, keys64(bp.inner[i]))
				}
				vals := bp.vals
				if o.coarse {
					vals = []int64{0}
				}
				for _, v := range vals {
					atoms = append(atoms, Atom{Kind: AtomBad, Val: v, Width: w, LookW: w, ASCII: -1, Lead: keys64(bp.lead),
						Need: n, Early: bp.early, Inner: inner, Name: fmt.Sprintf("malformed%d/%d(%#x)", w, n, v)})
				}
			}
		}
		for w := 1; w <= 3; w++ {
			var lead []int64
			for l := 0xC2; l < 0xF8; l++ {
				if need(l) > w {
					lead = append(lead, int64(l))
				}
			}
			atoms = append(atoms, Atom{Kind: AtomBadTail, Width: w, LookW: 0, ASCII: -1, Lead: lead, Name: fmt.Sprintf("cut-short%d", w)})
		}
	}
	u := NewUniverse(atoms)
	su := &Setup{p: p, pkg: lf.pkg, lf: lf, rd: rd, u: u, isLook: map[*ssa.Function]bool{}}
	su.propFn = u.makeFn1(func(i int) ValID {
		if o.coarse {
			return ValTop
		}
		return u.val1(u.atoms[i].Val)
	})
	for _, f := range lf.fns {
		su.isLook[f] = true
	}
	// coarse sets for text between positions of interest
	add := func(pred func(a *Atom) bool) { u.templ = append(u.templ, u.setOf(pred)) }
	ign := cb.of("Extend", "Format", "ZWJ")
	if lf.pkg == "sentences" {
		ign = cb.of("Extend", "Format")
	}
	alnum := func(a *Atom) bool {
		c := a.ASCII
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	add(func(a *Atom) bool { return a.Kind == AtomRune && a.Ref&ign != 0 })
	add(alnum)
	add(func(a *Atom) bool { return alnum(a) || a.ASCII == ' ' })
	add(func(a *Atom) bool { return a.ASCII >= 0 })
	if lf.pkg == "sentences" {
		stop := cb.of("OLetter", "Upper", "Lower", "Sep", "CR", "LF", "STerm", "ATerm")
		add(func(a *Atom) bool { return a.Kind == AtomRune && a.Ref&stop == 0 })
	}
	add(func(a *Atom) bool { return a.Kind == AtomRune })
	return su
}

// filterSetup is an alphabet of characters by general category, without
// character classes.
func filterSetup(p *Program, pkg string, bad bool) *Setup {
	type key struct {
		kind  uint8
		w     int
		ascii int
		rng   int
	}
	idx := map[key]int{}
	var atoms []Atom
	cuts := []rune{0x80, 0x100, 0x300, 0x800, 0x2000, 0x3000, 0xFFFD, 0xFFFE, 0x10000}
	for r := rune(0); r < 0x110000; r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		k := key{kind: kindOf(r), w: utf8.RuneLen(r), ascii: -1}
		if r < 0x80 {
			k.ascii = int(r)
		}
		for _, c := range cuts {
			if r >= c {
				k.rng++
			}
		}
		i, ok := idx[k]
		if !ok {
			i = len(atoms)
			idx[k] = i
			a := Atom{Kind: AtomRune, Width: k.w, LookW: k.w, ASCII: k.ascii, Kinds: 1 << k.kind, Lo: r}
			switch {
			case r > 32 && r < 127:
				a.Name = fmt.Sprintf("%q", r)
			case r < 128:
				a.Name = fmt.Sprintf("%02X", r)
			default:
				a.Name = fmt.Sprintf("%s(U+%04X)", catNames[k.kind/2], r)
			}
			atoms = append(atoms, a)
		}
		var e [4]byte
		utf8.EncodeRune(e[:], r)
		a := &atoms[i]
		a.Hi = r
		if n := len(a.Lead); n == 0 || a.Lead[n-1] != int64(e[0]) {
			a.Lead = append(a.Lead, int64(e[0]))
		}
	}
	if bad {
		var lead []int64
		for b := int64(0x80); b < 0x100; b++ {
			lead = append(lead, b)
		}
		atoms = append(atoms, Atom{Kind: AtomBad, Width: 1, LookW: 1, ASCII: -1, Lead: lead, Need: 1, Name: "malformed"})
	}
	u := NewUniverse(atoms)
	su := &Setup{p: p, pkg: pkg, u: u, isLook: map[*ssa.Function]bool{}}
	su.propFn = u.makeFn1(func(i int) ValID { return ValTop })
	u.templ = append(u.templ, u.setOf(func(a *Atom) bool { return a.ASCII >= 0 }), u.setOf(func(a *Atom) bool { return a.Kind == AtomRune }))
	return su
}

// Engine prepares an exploration in which the class lookup is replaced by its
// summary.
func (su *Setup) Engine(name string) *Engine {
	e := NewEngine(su.p, su.u, su.pkg+"/"+name)
	e.propFn = su.propFn
	u := su.u
	tail := u.setOf(func(a *Atom) bool { return a.Kind == AtomBadTail })
	e.badTail = 0
	if tail != u.empty {
		e.badTail = tail
	}
	for f := range su.isLook {
		e.summ[f] = su.lookup
	}
	return e
}

// lookup is the summary of the class lookup established by AnalyseLookup.
func (su *Setup) lookup(s *State, args []Value) Value {
	ts, ok := args[0].(TSlice)
	if !ok {
		switch x := args[0].(type) {
		case Nil:
			fail("panic", "class lookup of an empty text")
		case CStr:
			if x == "" {
				fail("panic", "class lookup of an empty text")
			}
		}
		undecided("class lookup of %T", args[0])
	}
	if s.cmpZero(posDiff(ts.hi, ts.lo), opLE) {
		fail("panic", "class lookup of an empty text")
	}
	u := su.u
	ret := func(v, w Value) Value { return &Agg{f: []Value{v, w}} }
	t, idx, k := s.exactPos(ts.lo)
	if idx < 0 || idx >= len(s.tapes[t].nodes) {
		s.forkExtend(t)
	}
	nd := s.tapes[t].nodes[idx]
	if k > 0 {
		// not at the start of a character: a stray continuation byte
		u.each(s.vars[nd.v], func(i int) {
			if a := &u.atoms[i]; a.Kind == AtomBad && !contOnly(a, int(k)) {
				undecided("class lookup inside malformed text")
			}
		})
		if v, ok := su.lf.stray(); ok {
			return ret(CInt(v), CInt(1))
		}
		return ret(Top{}, CInt(1))
	}
	set := s.vars[nd.v]
	tail := s.e.badTail
	if tail != 0 && u.inter(set, tail) != u.empty {
		if !u.subset(set, tail) {
			s.forkVar(nd.v, func(a *Atom) int64 { return b2i(a.Kind == AtomBadTail) })
		}
		return ret(CInt(0), CInt(0))
	}
	// is the whole character available?
	if !s.cmpZero(posDiff(Pos{nd.id, 0}, ts.hi), opLE) {
		early := false
		if long := u.inter(set, s.e.badSet()); long != u.empty {
			u.each(long, func(i int) { early = early || u.atoms[i].Width > 1 && (u.atoms[i].Need == 1 || u.atoms[i].Early) })
		}
		if early {
			undecided("class lookup decides on malformed text at the end of the data")
		}
		return ret(CInt(0), CInt(0))
	}
	if long := u.inter(set, s.e.badSet()); long != u.empty {
		// the bytes a malformed piece announces may not all be there; how the
		// text goes on is left open
		need := 1
		u.each(long, func(i int) {
			if u.atoms[i].Need > need {
				need = u.atoms[i].Need
			}
		})
		enough, ok := s.decideZero(linAddV(CInt(need), posDiff(ts.hi, ts.lo), -1), opLE)
		if need > 1 && !(ok && enough) {
			f := s.top()
			in, isCall := f.block.Instrs[f.pc].(*ssa.Call)
			if !isCall {
				undecided("class lookup outside a call")
			}
			cut := u.inter(set, u.setOf(func(a *Atom) bool { return a.Kind == AtomBad && a.Need > 1 }))
			s.branch(in,
				func(n *State) Value {
					n.vars[nd.v] = cut
					return ret(CInt(0), CInt(0))
				},
				func(n *State) Value { return su.found(n, t, idx) })
		}
	}
	return su.found(s, t, idx)
}

// found is the result of a successful lookup of a character.
func (su *Setup) found(s *State, t, idx int) Value {
	nd := s.tapes[t].nodes[idx]
	prev := bosMark(t)
	if idx > 0 {
		prev = s.tapes[t].nodes[idx-1].id
	}
	s.tapes[t].nodes[idx].seen = true
	w := posDiff(Pos{nd.id, 0}, Pos{prev, 0})
	return &Agg{f: []Value{s.mkFn(FnVal{v: [2]int{nd.v}, n: 1, id: su.propFn}), w}}
}

// contOnly reports whether all bytes of a malformed piece from k on are
// continuation bytes.
func contOnly(a *Atom, k int) bool {
	for ; k < a.Width; k++ {
		for _, b := range a.Inner[k-1] {
			if b < 0x80 || b > 0xBF {
				return false
			}
		}
	}
	return true
}

// badSet is the set of malformed pieces.
func (e *Engine) badSet() SetID {
	if !e.badOK {
		e.bads = e.u.setOf(func(a *Atom) bool { return a.Kind == AtomBad })
		e.badOK = true
	}
	return e.bads
}
