package main

// Independent transcription of the UAX #29 (Unicode 17) rule tables.

type clsBits struct{ names []string }

func (b clsBits) of(ns ...string) uint32 {
	var r uint32
	for _, n := range ns {
		for i, x := range b.names {
			if x == n {
				r |= 1 << i
			}
		}
	}
	return r
}

const (
	flagM1 = 1 << 28
	flagM2 = 2 << 28
	flagM  = flagM1 | flagM2
	flagL1 = 1 << 30
	flagL2 = 2 << 30
	flagL  = flagL1 | flagL2
)

// ---- graphemes -------------------------------------------------------------

type gctx struct {
	sot  bool
	prev uint32 // classes of the previous character
	pict int    // 0; 1 ExtPict Extend*; 2 ExtPict Extend* ZWJ
	incb int    // 0; 1 Consonant [Extend Linker]* without linker; 2 with linker
	ri   bool   // odd number of RI before
}

func graphemeRules(names []string) *RuleSet {
	b := clsBits{names}
	cr, lf, ctl := b.of("CR"), b.of("LF"), b.of("Control")
	ext, zwj, ri := b.of("Extend"), b.of("ZWJ"), b.of("RegionalIndicator")
	prep, sm := b.of("Prepend"), b.of("SpacingMark")
	l, v, t, lv, lvt := b.of("L"), b.of("V"), b.of("T"), b.of("LV"), b.of("LVT")
	pict := b.of("ExtendedPictographic")
	cons, link, iext := b.of("InCBConsonant"), b.of("InCBLinker"), b.of("InCBExtend")
	// only these classes of the previous character matter
	keep := cr | lf | ctl | prep | l | v | t | lv | lvt
	return &RuleSet{name: "grapheme cluster", names: names, init: gctx{sot: true},
		decide: func(ci interface{}, n uint32) *Dec {
			c := ci.(gctx)
			p := c.prev
			switch {
			case c.sot: // GB1
				return dBreak
			case p&cr != 0 && n&lf != 0: // GB3
				return dJoin
			case p&(ctl|cr|lf) != 0: // GB4
				return dBreak
			case n&(ctl|cr|lf) != 0: // GB5
				return dBreak
			case p&l != 0 && n&(l|v|lv|lvt) != 0: // GB6
				return dJoin
			case p&(lv|v) != 0 && n&(v|t) != 0: // GB7
				return dJoin
			case p&(lvt|t) != 0 && n&t != 0: // GB8
				return dJoin
			case n&(ext|zwj) != 0: // GB9
				return dJoin
			case n&sm != 0: // GB9a
				return dJoin
			case p&prep != 0: // GB9b
				return dJoin
			case c.incb == 2 && n&cons != 0: // GB9c
				return dJoin
			case c.pict == 2 && n&pict != 0: // GB11
				return dJoin
			case c.ri && n&ri != 0: // GB12, GB13
				return dJoin
			}
			return dBreak // GB999
		},
		next: func(ci interface{}, n uint32, brk bool) interface{} {
			c := ci.(gctx)
			r := gctx{prev: n & keep}
			switch {
			case n&pict != 0:
				r.pict = 1
			case c.pict == 1 && n&ext != 0:
				r.pict = 1
			case c.pict == 1 && n&zwj != 0:
				r.pict = 2
			}
			switch {
			case n&cons != 0:
				r.incb = 1
			case c.incb > 0 && n&link != 0:
				r.incb = 2
			case c.incb > 0 && n&iext != 0:
				r.incb = c.incb
			}
			r.ri = n&ri != 0 && !c.ri
			return r
		}}
}

// ---- words and phrases -----------------------------------------------------

type wctx struct {
	sot  bool
	prev uint32 // classes of the character immediately before
	last uint32 // class before, ignoring Extend|Format|ZWJ (WB4)
	lst2 uint32 // the one before that
	ri   bool   // odd number of RI before, ignoring
	tok  bool   // joiner rules: at least one character in the token
}

// look-ahead kinds
const (
	laAHL = iota
	laHeb
	laNum
)

func wordRules(names []string, phrases, joiners bool) *RuleSet {
	b := clsBits{names}
	cr, lf, nl := b.of("CR"), b.of("LF"), b.of("Newline")
	zwj, wseg, pict := b.of("ZWJ"), b.of("WSegSpace"), b.of("ExtendedPictographic")
	ign := b.of("Extend", "Format", "ZWJ")
	ahl := b.of("ALetter", "HebrewLetter")
	heb := b.of("HebrewLetter")
	midl, midn, mnl := b.of("MidLetter"), b.of("MidNum"), b.of("MidNumLet")
	sq, dq := b.of("SingleQuote"), b.of("DoubleQuote")
	num, kat, enl, ri := b.of("Numeric"), b.of("Katakana"), b.of("ExtendNumLet"), b.of("RegionalIndicator")
	mnlq := mnl | sq
	if phrases {
		ahl |= pict
	}
	let := b.of("ALetter")
	// eff gives the classes of a character inside a token, with joiners applied
	eff := func(n uint32, first bool) uint32 {
		r := n &^ (flagM | flagL)
		if joiners {
			if first && n&flagL != 0 {
				r |= let | heb
			}
			if !first && n&flagM != 0 {
				r |= mnl
			}
		}
		return r
	}
	ahead := func(target uint32) func(st int, n uint32) (int, int) {
		return func(st int, n uint32) (int, int) {
			n &^= flagM | flagL
			if st == 0 { // the character right after the position
				return 1, 0
			}
			if n&ign != 0 {
				return 1, 0
			}
			if n&target != 0 {
				return 1, 1
			}
			return 1, 2
		}
	}
	name := "word"
	if phrases {
		name = "phrase"
	}
	keepP := cr | lf | nl | zwj | wseg
	return &RuleSet{name: name, names: names, init: wctx{sot: true}, perTok: joiners,
		las: []LA{{"letter follows", ahead(ahl), 2}, {"Hebrew letter follows", ahead(heb), 2}, {"number follows", ahead(num), 2}},
		decide: func(ci interface{}, n uint32) *Dec {
			c := ci.(wctx)
			n = eff(n, c.sot)
			p, q, r := c.prev, c.last, c.lst2
			switch {
			case c.sot: // WB1
				return dBreak
			case p&cr != 0 && n&lf != 0: // WB3
				return dJoin
			case p&(nl|cr|lf) != 0: // WB3a
				return dBreak
			case n&(nl|cr|lf) != 0: // WB3b
				return dBreak
			case p&zwj != 0 && n&pict != 0: // WB3c
				return dJoin
			case p&wseg != 0 && n&wseg != 0: // WB3d
				return dJoin
			case n&ign != 0: // WB4
				return dJoin
			}
			d := dBreak // WB999
			switch {
			case q&ahl != 0 && n&ahl != 0: // WB5
				d = dJoin
			case r&ahl != 0 && q&(midl|mnlq) != 0 && n&ahl != 0: // WB7
				d = dJoin
			case q&heb != 0 && n&sq != 0: // WB7a
				d = dJoin
			case r&heb != 0 && q&dq != 0 && n&heb != 0: // WB7c
				d = dJoin
			case q&num != 0 && n&num != 0: // WB8
				d = dJoin
			case q&ahl != 0 && n&num != 0: // WB9
				d = dJoin
			case q&num != 0 && n&ahl != 0: // WB10
				d = dJoin
			case r&num != 0 && q&(midn|mnlq) != 0 && n&num != 0: // WB11
				d = dJoin
			case q&kat != 0 && n&kat != 0: // WB13
				d = dJoin
			case q&(ahl|num|kat|enl) != 0 && n&enl != 0: // WB13a
				d = dJoin
			case q&enl != 0 && n&(ahl|num|kat) != 0: // WB13b
				d = dJoin
			case c.ri && n&ri != 0: // WB15, WB16
				d = dJoin
			case phrases && q&(num|ahl|wseg) != 0 && n&(num|ahl|wseg) != 0: // documented relaxation
				d = dJoin
			}
			if d.kind == decJoin {
				return d
			}
			if q&num != 0 && n&(midn|mnlq) != 0 { // WB12
				d = &Dec{kind: decLook, la: laNum, yes: dJoin, no: d}
			}
			if q&heb != 0 && n&dq != 0 { // WB7b
				d = &Dec{kind: decLook, la: laHeb, yes: dJoin, no: d}
			}
			if q&ahl != 0 && n&(midl|mnlq) != 0 { // WB6
				d = &Dec{kind: decLook, la: laAHL, yes: dJoin, no: d}
			}
			return d
		},
		next: func(ci interface{}, n uint32, brk bool) interface{} {
			c := ci.(wctx)
			n = eff(n, c.sot || brk && joiners)
			r := wctx{prev: n & keepP, last: c.last, lst2: c.lst2, ri: c.ri}
			// WB4: ignorables attach to the preceding character, except after
			// the start of text and line breaks
			if n&ign != 0 && !c.sot && c.prev&(cr|lf|nl) == 0 {
				return r
			}
			r.last = n &^ pict
			if phrases {
				r.last = n
			}
			r.last &= ahl | heb | midl | midn | mnlq | dq | num | kat | enl | wseg
			r.lst2 = 0
			if !c.sot {
				r.lst2 = c.last & (ahl | heb | num)
				if r.last&(midl|mnlq|midn|dq) == 0 {
					r.lst2 = 0
				}
			}
			r.ri = n&ri != 0 && !c.ri
			return r
		}}
}

// ---- sentences -------------------------------------------------------------

type sctx struct {
	sot  bool
	crp  bool // previous character is CR
	para bool // previous character is a paragraph separator
	ul   bool // last (ignoring) is Upper or Lower
	ulA  bool // ATerm directly preceded by Upper|Lower (ignoring)
	term int  // 0; 1 ATerm; 2 STerm
	tail int  // 0 SATerm; 1 Close+; 2 Close* Sp+
}

func sentenceRules(names []string) *RuleSet {
	b := clsBits{names}
	cr, lf, sep := b.of("CR"), b.of("LF"), b.of("Sep")
	ign := b.of("Extend", "Format")
	num, up, low, ol := b.of("Numeric"), b.of("Upper"), b.of("Lower"), b.of("OLetter")
	at, st, cl, sps, sc := b.of("ATerm"), b.of("STerm"), b.of("Close"), b.of("Sp"), b.of("SContinue")
	para := cr | lf | sep
	sat := at | st
	stop := ol | up | low | para | sat
	return &RuleSet{name: "sentence", names: names, init: sctx{sot: true},
		las: []LA{{"lower-case letter follows", func(s int, n uint32) (int, int) {
			if n&low != 0 {
				return 0, 1
			}
			if n&stop != 0 {
				return 0, 2
			}
			return 0, 0
		}, 2}},
		decide: func(ci interface{}, n uint32) *Dec {
			c := ci.(sctx)
			switch {
			case c.sot: // SB1
				return dBreak
			case c.crp && n&lf != 0: // SB3
				return dJoin
			case c.para: // SB4
				return dBreak
			case n&ign != 0: // SB5
				return dJoin
			case c.term == 1 && c.tail == 0 && n&num != 0: // SB6
				return dJoin
			case c.term == 1 && c.tail == 0 && c.ulA && n&up != 0: // SB7
				return dJoin
			}
			d := dJoin // SB998
			switch {
			case c.term != 0 && n&(sc|sat) != 0: // SB8a
				d = dJoin
			case c.term != 0 && c.tail <= 1 && n&(cl|sps|para) != 0: // SB9
				d = dJoin
			case c.term != 0 && n&(sps|para) != 0: // SB10
				d = dJoin
			case c.term != 0: // SB11
				d = dBreak
			}
			if d.kind == decBreak && c.term == 1 { // SB8
				return &Dec{kind: decLook, la: 0, yes: dJoin, no: d}
			}
			return d
		},
		next: func(ci interface{}, n uint32, brk bool) interface{} {
			c := ci.(sctx)
			if n&ign != 0 && !c.sot && !c.para {
				c.crp = false
				return c
			}
			r := sctx{crp: n&cr != 0, para: n&para != 0}
			switch {
			case n&at != 0:
				r.term = 1
				r.ulA = c.ul
			case n&st != 0:
				r.term = 2
			case n&cl != 0 && c.term != 0 && c.tail <= 1:
				r.term, r.tail = c.term, 1
			case n&sps != 0 && c.term != 0:
				r.term, r.tail = c.term, 2
			}
			r.ul = n&(up|low) != 0
			return r
		}}
}
