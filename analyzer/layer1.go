package main

import (
	"bufio"
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const noVal = int64(-1) << 62

// LookupFacts is what the analysis of the class lookup established.
type LookupFacts struct {
	pkg   string
	fns   []*ssa.Function
	vals  []int64              // per code point
	bads  map[[2]int]*badPiece // malformed pieces by width and announced length
	viol  []*Report
	paths int
	runes int
	bad   int
	instr int64
}

// badPiece describes what the lookup does with malformed text that it takes as
// one item.
type badPiece struct {
	vals  []int64
	lead  map[int64]bool
	inner [4]map[int64]bool
	early bool // accepted although fewer bytes than announced may be available
}

func (lf *LookupFacts) badPiece(w, n int) *badPiece {
	b := lf.bads[[2]int{w, n}]
	if b == nil {
		b = &badPiece{lead: map[int64]bool{}}
		lf.bads[[2]int{w, n}] = b
	}
	return b
}

// stray is the class of a lone continuation byte.
func (lf *LookupFacts) stray() (int64, bool) {
	b := lf.bads[[2]int{1, 1}]
	if b == nil || len(b.vals) != 1 {
		return 0, false
	}
	return b.vals[0], true
}

func keys64(m map[int64]bool) (v []int64) {
	for k := range m {
		v = append(v, k)
	}
	return uniq(v)
}

func byteUniverse() *Universe {
	var atoms []Atom
	for b := 0; b < 256; b++ {
		a := Atom{Kind: AtomByte, Width: 1, LookW: 1, ASCII: -1, Lead: []int64{int64(b)}, Name: fmt.Sprintf("%02X", b)}
		if b < 128 {
			a.ASCII = b
			if b > 32 && b < 127 {
				a.Name = string(rune(b))
			}
		}
		atoms = append(atoms, a)
	}
	return NewUniverse(atoms)
}

// need is the encoded length announced by a lead byte (1 when it is none).
func need(b int) int {
	switch {
	case b < 0xC2:
		return 1
	case b < 0xE0:
		return 2
	case b < 0xF0:
		return 3
	case b < 0xF8:
		return 4
	}
	return 1
}

// AnalyseLookup interprets the class lookup over all byte sequences.
func AnalyseLookup(p *Program, pkg string) *LookupFacts {
	lf := &LookupFacts{pkg: pkg, bads: map[[2]int]*badPiece{}}
	lf.fns = p.lookupInstances(pkg)
	if len(lf.fns) == 0 {
		lf.viol = append(lf.viol, &Report{Kind: "undecided", Msg: "no class lookup function found in package " + pkg, Engine: pkg})
		return lf
	}
	for k, fn := range lf.fns {
		vals := make([]int64, 0x110000)
		for i := range vals {
			vals[i] = noVal
		}
		lf.one(p, fn, vals)
		if len(lf.viol) > 0 {
			return lf
		}
		if k == 0 {
			lf.vals = vals
		} else {
			for r := range vals {
				if vals[r] != lf.vals[r] {
					lf.viol = append(lf.viol, &Report{Kind: "table", Engine: pkg, Msg: fmt.Sprintf("string and byte-slice lookups disagree on U+%04X", r),
						Pos: shortPos(p.fset.Position(fn.Pos()))})
					return lf
				}
			}
		}
	}
	for r := 0; r < 0x110000; r++ {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		if lf.vals[r] == noVal {
			lf.viol = append(lf.viol, &Report{Kind: "table", Engine: pkg, Msg: fmt.Sprintf("no class value derived for U+%04X", r)})
			return lf
		}
		lf.runes++
	}
	return lf
}

func (lf *LookupFacts) one(p *Program, fn *ssa.Function, vals []int64) {
	u := byteUniverse()
	e := NewEngine(p, u, "lookup:"+lf.pkg)
	e.unroll = true // a lookup reads a few bytes
	bad := func(format string, a ...interface{}) {
		if len(lf.viol) < 3 {
			lf.viol = append(lf.viol, &Report{Kind: "lookup", Engine: lf.pkg, Msg: fmt.Sprintf(format, a...), Pos: shortPos(p.fset.Position(fn.Pos()))})
		}
	}
	e.onEnd = func(s *State, r Value) {
		a, ok := r.(*Agg)
		if !ok || len(a.f) != 2 {
			bad("lookup returns %T", r)
			return
		}
		lf.paths++
		tp := s.tapes[0]
		var sets [][]int
		varNode := map[int]int{}
		for i, n := range tp.nodes {
			if n.v < 0 {
				bad("internal: run in lookup")
				return
			}
			varNode[n.v] = i
			var x []int
			u.each(s.vars[n.v], func(k int) { x = append(x, k) })
			sets = append(sets, x)
		}
		k := len(sets)
		all := make([]int, 256)
		for i := range all {
			all[i] = i
		}
		eval := func(v Value, bs *[4]int) (int64, bool) {
			switch x := v.(type) {
			case CInt:
				return int64(x), true
			case FnVal:
				a1 := 0
				if x.n == 2 {
					a1 = bs[varNode[x.v[1]]]
				}
				id := u.at(x, bs[varNode[x.v[0]]], a1)
				if id == ValTop || len(u.vals[id]) != 1 {
					return 0, false
				}
				return u.vals[id][0], true
			case *Lin:
				if l, ok := s.resolveLin(x).(CInt); ok {
					return int64(l), true
				}
				lo, hi, _ := s.bounds(x)
				return lo, lo == hi
			}
			return 0, false
		}
		get := func(i int) []int {
			if i < k {
				return sets[i]
			}
			if tp.closed {
				return nil
			}
			return all
		}
		check := func(bs *[4]int, n int) (int64, int64, bool) { // n bytes are fixed
			v, ok1 := eval(a.f[0], bs)
			w, ok2 := eval(a.f[1], bs)
			if !ok1 || !ok2 {
				bad("class or width not derivable for byte sequence % X", bs[:n])
				return 0, 0, false
			}
			return v, w, true
		}
		// valid encodings
		valid, total := 0, 1
		for i := 0; i < k; i++ {
			total *= len(sets[i])
		}
		var bs [4]int
		for _, b0 := range sets[0] {
			bs[0] = b0
			if b0 < 0x80 {
				v, w, ok := check(&bs, 1)
				if !ok {
					return
				}
				if w != 1 {
					bad("ASCII byte %02X: lookup reports width %d", b0, w)
					return
				}
				vals[b0] = v
				valid++
				continue
			}
			L := need(b0)
			if L == 1 || b0 > 0xF4 {
				continue
			}
			lo1, hi1 := 0x80, 0xBF
			switch b0 {
			case 0xE0:
				lo1 = 0xA0
			case 0xED:
				hi1 = 0x9F
			case 0xF0:
				lo1 = 0x90
			case 0xF4:
				hi1 = 0x8F
			}
			if k < L && tp.closed {
				// a truncated character (when the bytes present fit)
				fits := true
				for i := 1; i < k; i++ {
					ok := false
					for _, b := range sets[i] {
						if i == 1 && b >= lo1 && b <= hi1 || i > 1 && b >= 0x80 && b <= 0xBF {
							ok = true
							bs[i] = b
							break
						}
					}
					if !ok {
						fits = false
					}
				}
				if fits {
					_, w, ok := check(&bs, k)
					if !ok {
						return
					}
					if w != 0 {
						bad("truncated character % X: lookup reports width %d instead of asking for more", bs[:k], w)
						return
					}
				}
				continue
			}
			var rec func(i int) bool
			rec = func(i int) bool {
				if i == L {
					v, w, ok := check(&bs, L)
					if !ok {
						return false
					}
					var raw [4]byte
					for j := 0; j < L; j++ {
						raw[j] = byte(bs[j])
					}
					r, rw := utf8.DecodeRune(raw[:L])
					if rw != L {
						return true
					}
					valid++
					if w != int64(L) {
						bad("U+%04X: lookup reports width %d, encoded in %d bytes", r, w, L)
						return false
					}
					if vals[r] != noVal && vals[r] != v {
						bad("U+%04X: class depends on the following text", r)
						return false
					}
					vals[r] = v
					return true
				}
				for _, b := range get(i) {
					if i == 1 && (b < lo1 || b > hi1) || b < 0x80 || b > 0xBF {
						continue
					}
					bs[i] = b
					if !rec(i + 1) {
						return false
					}
				}
				return true
			}
			if !rec(1) {
				return
			}
		}
		// width bounds on the whole path
		ws := map[int64]bool{}
		switch w := a.f[1].(type) {
		case FnVal:
			for _, id := range u.fns[w.id].tab {
				if id == ValTop {
					bad("lookup width unknown")
					return
				}
				for _, x := range u.vals[id] {
					ws[x] = true
				}
			}
		default:
			x, ok := eval(w, &bs)
			if !ok {
				bad("lookup width unknown")
				return
			}
			ws[x] = true
		}
		for w := range ws {
			if w < 0 || w > 4 {
				bad("lookup reports width %d", w)
				return
			}
			if w > int64(k) {
				bad("lookup consumes %d bytes when as few as %d may be available", w, k)
				return
			}
			if w == 0 {
				for _, b := range sets[0] {
					if !tp.closed || k >= need(b) {
						bad("lookup asks for more after lead byte %02X with %d bytes available", b, k)
						return
					}
				}
			}
			if w > 0 && valid < total {
				lf.bad++
				for _, b := range sets[0] {
					bp := lf.badPiece(int(w), need(b))
					bp.lead[int64(b)] = true
					if k < need(b) {
						bp.early = true
					}
					for i := 1; i < int(w); i++ {
						if bp.inner[i] == nil {
							bp.inner[i] = map[int64]bool{}
						}
						for _, c := range sets[i] {
							bp.inner[i][int64(c)] = true
						}
					}
					switch v := a.f[0].(type) {
					case CInt:
						bp.vals = append(bp.vals, int64(v))
					case FnVal:
						for _, id := range u.fns[v.id].tab {
							bp.vals = append(bp.vals, u.vals[id]...)
						}
					default:
						bad("class of malformed text is unknown")
						return
					}
				}
			}
		}
	}
	s := &State{e: e, heap: map[int32]*Obj{}, pred: -1}
	t := s.newTape()
	s.extend(t, u.full)
	_, str := fn.Params[0].Type().Underlying().(*types.Basic)
	e.ExploreFrom(s, fn, []Value{TSlice{tape: t, lo: Pos{bosMark(t), 0}, hi: Pos{endMark(t), 0}, str: str}})
	lf.viol = append(lf.viol, e.viol...)
	lf.instr += e.nInstr
	for _, b := range lf.bads {
		b.vals = uniq(b.vals)
	}
}

func uniq(v []int64) []int64 {
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	k := 0
	for i, x := range v {
		if i == 0 || x != v[k-1] {
			v[k] = x
			k++
		}
	}
	return v[:k]
}

// ---------------------------------------------------------------------------
// reference data

type RefData struct {
	names []string
	ref   []uint32 // per code point
	combo []string
}

func LoadRef(pkg string) *RefData {
	b, err := dataFS.ReadFile("data/" + pkg + ".txt")
	if err != nil {
		panic(err)
	}
	rd := &RefData{ref: make([]uint32, 0x110000)}
	idx := map[string]int{}
	sc := bufio.NewScanner(strings.NewReader(string(b)))
	for sc.Scan() {
		l := sc.Text()
		if l == "" || l[0] == '#' {
			continue
		}
		f := strings.Fields(l)
		r := strings.Split(f[0], "..")
		lo, _ := strconv.ParseInt(r[0], 16, 32)
		hi, _ := strconv.ParseInt(r[1], 16, 32)
		var m uint32
		for _, n := range strings.Split(f[1], "|") {
			k, ok := idx[n]
			if !ok {
				k = len(rd.names)
				idx[n] = k
				rd.names = append(rd.names, n)
			}
			m |= 1 << k
		}
		for c := lo; c <= hi; c++ {
			rd.ref[c] = m
		}
	}
	return rd
}

func (rd *RefData) className(m uint32) string {
	if m == 0 {
		return "Other"
	}
	var s []string
	for i, n := range rd.names {
		if m>>i&1 != 0 {
			s = append(s, n)
		}
	}
	return strings.Join(s, "|")
}

// classBits reads the class constants (_Name) declared in the package.
func (p *Program) classBits(pkg string, rd *RefData) (map[string]int64, bool) {
	sc := p.pkgs[pkg].Pkg.Scope()
	out := map[string]int64{}
	for _, n := range rd.names {
		c, ok := sc.Lookup("_" + n).(*types.Const)
		if !ok {
			return nil, false
		}
		v, ok := constant.Int64Val(c.Val())
		if !ok {
			return nil, false
		}
		out[n] = v
	}
	return out, true
}

// CompareTables checks the class of every character against the reference.
func (p *Program) CompareTables(lf *LookupFacts, rd *RefData) (viol []*Report, classes int) {
	pos := shortPos(p.fset.Position(lf.fns[0].Pos()))
	bits, named := p.classBits(lf.pkg, rd)
	want := map[uint32]int64{}
	rev := map[int64]uint32{}
	var bad []string
	nbad := 0
	// majority mapping first, so that a wrong entry is reported as such
	count := map[uint32]map[int64]int{}
	for r := range lf.vals {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		m := count[rd.ref[r]]
		if m == nil {
			m = map[int64]int{}
			count[rd.ref[r]] = m
		}
		m[lf.vals[r]]++
	}
	for ref, m := range count {
		best, bn := int64(0), -1
		for v, n := range m {
			if n > bn || n == bn && v < best {
				best, bn = v, n
			}
		}
		if named {
			best = 0
			for i, n := range rd.names {
				if ref>>i&1 != 0 {
					best |= bits[n]
				}
			}
		}
		want[ref] = best
	}
	for ref, v := range want {
		if o, ok := rev[v]; ok && o != ref {
			viol = append(viol, &Report{Kind: "table", Engine: lf.pkg, Pos: pos, Msg: fmt.Sprintf("classes %s and %s are not told apart", rd.className(o), rd.className(ref))})
		}
		rev[v] = ref
	}
	for r := range lf.vals {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		if lf.vals[r] != want[rd.ref[r]] {
			nbad++
			if len(bad) < 5 {
				got := fmt.Sprintf("%#x", lf.vals[r])
				if o, ok := rev[lf.vals[r]]; ok {
					got = rd.className(o)
				}
				bad = append(bad, fmt.Sprintf("U+%04X is %s, Unicode 17 assigns %s", r, got, rd.className(rd.ref[r])))
			}
		}
	}
	if nbad > 0 {
		viol = append(viol, &Report{Kind: "table", Engine: lf.pkg, Pos: pos, Msg: fmt.Sprintf("%d characters have the wrong class: %s", nbad, strings.Join(bad, "; "))})
	}
	return viol, len(want)
}

// staleIdeographs compares the class _BleveIdeographic with the scripts Han,
// Hiragana and Katakana of Unicode 17. The reference classes of words have the
// characters of Unicode 15, which the table was generated from; where the two
// differ the reference is made to follow the table, and the characters the table
// has wrong are reported, range by range.
func (p *Program) staleIdeographs(lf *LookupFacts, rd *RefData) (viol []*Report) {
	bits, named := p.classBits(lf.pkg, rd)
	if !named {
		return nil
	}
	ideo := LoadRef("ideographic")
	var bit, kana uint32
	for i, n := range rd.names {
		switch n {
		case "BleveIdeographic":
			bit = 1 << i
		case "Katakana":
			kana = 1 << i
		}
	}
	lo, hi, now := 0, -2, ""
	flush := func() {
		if hi >= lo {
			viol = append(viol, &Report{Kind: "table", Engine: lf.pkg, Pos: shortPos(p.fset.Position(lf.fns[0].Pos())),
				Msg: fmt.Sprintf("U+%04X..U+%04X: %s", lo, hi, now)})
		}
	}
	for r := range lf.vals {
		if r >= 0xD800 && r < 0xE000 || rd.ref[r]&kana != 0 {
			continue
		}
		want, had := ideo.ref[r] != 0, rd.ref[r]&bit != 0
		if want == had {
			continue
		}
		has := lf.vals[r]&bits["BleveIdeographic"] != 0
		rd.ref[r] &^= bit
		if has {
			rd.ref[r] |= bit
		}
		if has == want {
			continue
		}
		msg := "of script Han, Hiragana or Katakana in Unicode 17, but BleveIdeographic does not hold of it"
		if !want {
			msg = "not of script Han, Hiragana or Katakana in Unicode 17, but BleveIdeographic holds of it"
		}
		if r != hi+1 || msg != now {
			flush()
			lo, now = r, msg
		}
		hi = r
	}
	flush()
	return viol
}
