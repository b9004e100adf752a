package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Atoms: the finite alphabet the analysis distinguishes. An atom stands for all
// characters that agree on reference class, class value computed by the
// package's own tables, encoded width and, for ASCII, the byte itself.

type AtomKind int

const (
	AtomRune    AtomKind = iota // a complete valid character
	AtomBad                     // a malformed piece that lookup consumes as one item
	AtomByte                    // a raw byte (byte universe)
	AtomBadTail                 // incomplete sequence, only possible at end of data
)

type Atom struct {
	Kind   AtomKind
	Ref    uint32 // reference classes, bit i = spec.classes[i]
	Val    int64  // class value given by the implementation's tables
	Width  int    // encoded width
	LookW  int    // width reported by lookup
	ASCII  int    // byte value, or -1
	Lead   []int64
	Kinds  uint64    // general categories and white space (kindOf) of its characters
	Lo, Hi rune      // smallest and largest character
	JM, JL int       // joiner element index (1,2) or 0
	Need   int       // malformed piece: bytes its lead byte announces
	Early  bool      // lookup may accept it with fewer bytes available
	Inner  [][]int64 // malformed piece: values of its further bytes
	Name   string
}

type SetID int32
type FnID int32
type GMID int32
type ValID int32

const ValTop ValID = 0

// Universe interns atom sets, value sets, and finite functions over atoms.
type Universe struct {
	atoms []Atom
	words int
	full  SetID
	empty SetID

	sets    [][]uint64
	setIdx  map[string]SetID
	interC  map[[2]SetID]SetID
	unionC  map[[2]SetID]SetID
	minusC  map[[2]SetID]SetID
	widthC  map[SetID][2]int
	vals    [][]int64
	valIdx  map[string]ValID
	gms     [][]int32
	gmN     []int
	gmIdx   map[string]GMID
	fns     []*FnTab
	fnIdx   map[string]FnID
	restr   map[restrKey]FnID
	refineC map[[2]GMID]refineRes
	templ   []SetID // coarse sets used when merging unread text
	snapC   map[SetID]SetID
}

type restrKey struct {
	f    FnID
	s, t SetID
}

// FnTab is a function from one or two atoms to value sets. gm groups atoms.
type FnTab struct {
	n   int
	gm  [2]GMID
	tab []ValID // row major: g0*n1+g1
}

type refineRes struct {
	gm   GMID
	a, b []int32 // new group -> old group in each
}

func NewUniverse(atoms []Atom) *Universe {
	u := &Universe{atoms: atoms, words: (len(atoms) + 63) / 64,
		setIdx: map[string]SetID{}, interC: map[[2]SetID]SetID{}, unionC: map[[2]SetID]SetID{}, minusC: map[[2]SetID]SetID{},
		widthC: map[SetID][2]int{}, valIdx: map[string]ValID{}, gmIdx: map[string]GMID{}, fnIdx: map[string]FnID{},
		restr: map[restrKey]FnID{}, refineC: map[[2]GMID]refineRes{}, snapC: map[SetID]SetID{}}
	u.vals = append(u.vals, nil) // ValTop
	u.empty = u.internSet(make([]uint64, u.words))
	f := make([]uint64, u.words)
	for i := range atoms {
		f[i/64] |= 1 << (i % 64)
	}
	u.full = u.internSet(f)
	return u
}

func (u *Universe) internSet(b []uint64) SetID {
	buf := make([]byte, 8*len(b))
	for i, w := range b {
		binary.LittleEndian.PutUint64(buf[8*i:], w)
	}
	if id, ok := u.setIdx[string(buf)]; ok {
		return id
	}
	id := SetID(len(u.sets))
	u.sets = append(u.sets, append([]uint64(nil), b...))
	u.setIdx[string(buf)] = id
	return id
}

func (u *Universe) setOf(pred func(a *Atom) bool) SetID {
	b := make([]uint64, u.words)
	for i := range u.atoms {
		if pred(&u.atoms[i]) {
			b[i/64] |= 1 << (i % 64)
		}
	}
	return u.internSet(b)
}

func (u *Universe) inter(a, b SetID) SetID {
	if a == b || b == u.full {
		return a
	}
	if a == u.full {
		return b
	}
	if r, ok := u.interC[[2]SetID{a, b}]; ok {
		return r
	}
	x := make([]uint64, u.words)
	for i := range x {
		x[i] = u.sets[a][i] & u.sets[b][i]
	}
	r := u.internSet(x)
	u.interC[[2]SetID{a, b}] = r
	return r
}
func (u *Universe) union(a, b SetID) SetID {
	if a == b {
		return a
	}
	if r, ok := u.unionC[[2]SetID{a, b}]; ok {
		return r
	}
	x := make([]uint64, u.words)
	for i := range x {
		x[i] = u.sets[a][i] | u.sets[b][i]
	}
	r := u.internSet(x)
	u.unionC[[2]SetID{a, b}] = r
	return r
}
func (u *Universe) minus(a, b SetID) SetID {
	if r, ok := u.minusC[[2]SetID{a, b}]; ok {
		return r
	}
	x := make([]uint64, u.words)
	for i := range x {
		x[i] = u.sets[a][i] &^ u.sets[b][i]
	}
	r := u.internSet(x)
	u.minusC[[2]SetID{a, b}] = r
	return r
}
func (u *Universe) subset(a, b SetID) bool { return a == b || b == u.full || u.inter(a, b) == a }
func (u *Universe) has(s SetID, atom int) bool {
	return u.sets[s][atom/64]>>(atom%64)&1 != 0
}
func (u *Universe) each(s SetID, f func(i int)) {
	for w, x := range u.sets[s] {
		for x != 0 {
			i := bits.TrailingZeros64(x)
			f(w*64 + i)
			x &= x - 1
		}
	}
}
func (u *Universe) first(s SetID) int {
	for w, x := range u.sets[s] {
		if x != 0 {
			return w*64 + bits.TrailingZeros64(x)
		}
	}
	return -1
}

// widths returns the min and max encoded width of the atoms in s.
func (u *Universe) widths(s SetID) (int, int) {
	if r, ok := u.widthC[s]; ok {
		return r[0], r[1]
	}
	lo, hi := 99, 0
	u.each(s, func(i int) {
		w := u.atoms[i].Width
		if w < lo {
			lo = w
		}
		if w > hi {
			hi = w
		}
	})
	u.widthC[s] = [2]int{lo, hi}
	return lo, hi
}

// snap returns the smallest template set containing s.
func (u *Universe) snap(s SetID) SetID {
	if r, ok := u.snapC[s]; ok {
		return r
	}
	r := u.full
	for _, t := range u.templ {
		if u.subset(s, t) {
			r = u.inter(r, t)
		}
	}
	u.snapC[s] = r
	return r
}

func (u *Universe) describe(s SetID) string {
	if s == u.full {
		return "any"
	}
	n := 0
	names := map[string]int{}
	var order []string
	u.each(s, func(i int) {
		n++
		nm := u.atoms[i].Name
		if names[nm] == 0 {
			order = append(order, nm)
		}
		names[nm]++
	})
	if len(order) > 5 {
		return "{" + strings.Join(order[:4], ",") + fmt.Sprintf(",..%d}", len(order))
	}
	return "{" + strings.Join(order, ",") + "}"
}

// ---------------------------------------------------------------------------
// value sets

func (u *Universe) valSet(v []int64) ValID {
	if len(v) > 256 {
		return ValTop
	}
	sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	k := 0
	for i, x := range v {
		if i == 0 || x != v[k-1] {
			v[k] = x
			k++
		}
	}
	v = v[:k]
	buf := make([]byte, 8*len(v))
	for i, w := range v {
		binary.LittleEndian.PutUint64(buf[8*i:], uint64(w))
	}
	if id, ok := u.valIdx[string(buf)]; ok {
		return id
	}
	id := ValID(len(u.vals))
	u.vals = append(u.vals, append([]int64(nil), v...))
	u.valIdx[string(buf)] = id
	return id
}
func (u *Universe) val1(x int64) ValID { return u.valSet([]int64{x}) }

// valOp applies f elementwise.
func (u *Universe) valOp2(a, b ValID, f func(x, y int64) (int64, bool)) ValID {
	if a == ValTop || b == ValTop {
		return ValTop
	}
	if len(u.vals[a])*len(u.vals[b]) > 4096 {
		return ValTop
	}
	var out []int64
	for _, x := range u.vals[a] {
		for _, y := range u.vals[b] {
			r, ok := f(x, y)
			if !ok {
				return ValTop
			}
			out = append(out, r)
		}
	}
	return u.valSet(out)
}

// ---------------------------------------------------------------------------
// group maps and functions

func (u *Universe) internGM(g []int32) (GMID, int) {
	// normalise group numbers by first occurrence (caller already did), -1 allowed
	buf := make([]byte, 4*len(g))
	mx := int32(-1)
	for i, x := range g {
		binary.LittleEndian.PutUint32(buf[4*i:], uint32(x))
		if x > mx {
			mx = x
		}
	}
	if id, ok := u.gmIdx[string(buf)]; ok {
		return id, u.gmN[id]
	}
	id := GMID(len(u.gms))
	u.gms = append(u.gms, append([]int32(nil), g...))
	u.gmN = append(u.gmN, int(mx)+1)
	u.gmIdx[string(buf)] = id
	return id, int(mx) + 1
}

func (u *Universe) internFn(t *FnTab) FnID {
	buf := make([]byte, 0, 16+4*len(t.tab))
	buf = append(buf, byte(t.n))
	buf = binary.LittleEndian.AppendUint32(buf, uint32(t.gm[0]))
	buf = binary.LittleEndian.AppendUint32(buf, uint32(t.gm[1]))
	for _, v := range t.tab {
		buf = binary.LittleEndian.AppendUint32(buf, uint32(v))
	}
	if id, ok := u.fnIdx[string(buf)]; ok {
		return id
	}
	id := FnID(len(u.fns))
	u.fns = append(u.fns, t)
	u.fnIdx[string(buf)] = id
	return id
}

// makeFn1 builds a one-variable function from a per-atom value.
func (u *Universe) makeFn1(f func(i int) ValID) FnID {
	g := make([]int32, len(u.atoms))
	idx := map[ValID]int32{}
	var tab []ValID
	for i := range u.atoms {
		v := f(i)
		k, ok := idx[v]
		if !ok {
			k = int32(len(tab))
			idx[v] = k
			tab = append(tab, v)
		}
		g[i] = k
	}
	gm, _ := u.internGM(g)
	return u.internFn(&FnTab{n: 1, gm: [2]GMID{gm, 0}, tab: tab})
}

func (u *Universe) refine(a, b GMID) refineRes {
	if r, ok := u.refineC[[2]GMID{a, b}]; ok {
		return r
	}
	ga, gb := u.gms[a], u.gms[b]
	g := make([]int32, len(ga))
	idx := map[[2]int32]int32{}
	var res refineRes
	for i := range ga {
		if ga[i] < 0 || gb[i] < 0 {
			g[i] = -1
			continue
		}
		k, ok := idx[[2]int32{ga[i], gb[i]}]
		if !ok {
			k = int32(len(res.a))
			idx[[2]int32{ga[i], gb[i]}] = k
			res.a = append(res.a, ga[i])
			res.b = append(res.b, gb[i])
		}
		g[i] = k
	}
	res.gm, _ = u.internGM(g)
	u.refineC[[2]GMID{a, b}] = res
	return res
}

// FnVal is a value that is a finite function of one or two character variables.
type FnVal struct {
	v  [2]int // variable ids
	n  int
	id FnID
}

func (u *Universe) gmCount(g GMID) int { return u.gmN[g] }

// at returns the value of f for atoms a0 (and a1).
func (u *Universe) at(f FnVal, a0, a1 int) ValID {
	t := u.fns[f.id]
	g0 := u.gms[t.gm[0]][a0]
	if t.n == 1 {
		return t.tab[g0]
	}
	g1 := u.gms[t.gm[1]][a1]
	return t.tab[int(g0)*u.gmN[t.gm[1]]+int(g1)]
}

// map1 applies an elementwise function to a FnVal.
func (u *Universe) map1(f FnVal, op func(ValID) ValID) FnVal {
	t := u.fns[f.id]
	nt := &FnTab{n: t.n, gm: t.gm, tab: make([]ValID, len(t.tab))}
	cache := map[ValID]ValID{}
	for i, v := range t.tab {
		r, ok := cache[v]
		if !ok {
			r = op(v)
			cache[v] = r
		}
		nt.tab[i] = r
	}
	if t.n == 1 {
		return FnVal{v: f.v, n: 1, id: u.normFn1(nt)}
	}
	return FnVal{v: f.v, n: 2, id: u.internFn(nt)}
}

func (u *Universe) normFn1(t *FnTab) FnID {
	g := u.gms[t.gm[0]]
	ng := make([]int32, len(g))
	idx := map[ValID]int32{}
	var tab []ValID
	for i := range g {
		if g[i] < 0 {
			ng[i] = -1
			continue
		}
		v := t.tab[g[i]]
		k, ok := idx[v]
		if !ok {
			k = int32(len(tab))
			idx[v] = k
			tab = append(tab, v)
		}
		ng[i] = k
	}
	gm, _ := u.internGM(ng)
	return u.internFn(&FnTab{n: 1, gm: [2]GMID{gm, 0}, tab: tab})
}

// combine applies op to two FnVals whose variables together number at most two.
// ok is false when more than two variables are involved.
func (u *Universe) combine(a, b FnVal, op func(x, y ValID) ValID) (FnVal, bool) {
	vars := []int{}
	add := func(v int) {
		for _, x := range vars {
			if x == v {
				return
			}
		}
		vars = append(vars, v)
	}
	for i := 0; i < a.n; i++ {
		add(a.v[i])
	}
	for i := 0; i < b.n; i++ {
		add(b.v[i])
	}
	if len(vars) > 2 {
		return FnVal{}, false
	}
	sort.Ints(vars)
	ta, tb := u.fns[a.id], u.fns[b.id]
	// per variable: refined group map and projections
	var gm [2]GMID
	var pa, pb [2][]int32 // projection new group -> old group for a / b (nil if var not in it)
	for k, v := range vars {
		ia, ib := -1, -1
		for i := 0; i < a.n; i++ {
			if a.v[i] == v {
				ia = i
			}
		}
		for i := 0; i < b.n; i++ {
			if b.v[i] == v {
				ib = i
			}
		}
		switch {
		case ia >= 0 && ib >= 0:
			r := u.refine(ta.gm[ia], tb.gm[ib])
			gm[k], pa[k], pb[k] = r.gm, r.a, r.b
		case ia >= 0:
			gm[k] = ta.gm[ia]
			pa[k] = ident(u.gmN[gm[k]])
		default:
			gm[k] = tb.gm[ib]
			pb[k] = ident(u.gmN[gm[k]])
		}
	}
	cache := map[[2]ValID]ValID{}
	ap := func(x, y ValID) ValID {
		if r, ok := cache[[2]ValID{x, y}]; ok {
			return r
		}
		r := op(x, y)
		cache[[2]ValID{x, y}] = r
		return r
	}
	get := func(f FnVal, t *FnTab, p [2][]int32, g [2]int) ValID {
		// index into t for the groups g of vars
		var idx [2]int
		for i := 0; i < f.n; i++ {
			for k, v := range vars {
				if f.v[i] == v {
					idx[i] = int(p[k][g[k]])
				}
			}
		}
		if f.n == 1 {
			return t.tab[idx[0]]
		}
		return t.tab[idx[0]*u.gmN[t.gm[1]]+idx[1]]
	}
	if len(vars) == 1 {
		n := u.gmN[gm[0]]
		nt := &FnTab{n: 1, gm: [2]GMID{gm[0], 0}, tab: make([]ValID, n)}
		for g := 0; g < n; g++ {
			nt.tab[g] = ap(get(a, ta, pa, [2]int{g}), get(b, tb, pb, [2]int{g}))
		}
		return FnVal{v: [2]int{vars[0]}, n: 1, id: u.normFn1(nt)}, true
	}
	n0, n1 := u.gmN[gm[0]], u.gmN[gm[1]]
	nt := &FnTab{n: 2, gm: gm, tab: make([]ValID, n0*n1)}
	for g0 := 0; g0 < n0; g0++ {
		for g1 := 0; g1 < n1; g1++ {
			nt.tab[g0*n1+g1] = ap(get(a, ta, pa, [2]int{g0, g1}), get(b, tb, pb, [2]int{g0, g1}))
		}
	}
	return FnVal{v: [2]int{vars[0], vars[1]}, n: 2, id: u.internFn(nt)}, true
}

func ident(n int) []int32 {
	r := make([]int32, n)
	for i := range r {
		r[i] = int32(i)
	}
	return r
}

// restrict narrows f to the current variable sets and normalises it. When the
// result no longer depends on a variable it is dropped. konst reports a single
// value set independent of all variables.
func (u *Universe) restrict(f FnVal, s0, s1 SetID) (r FnVal, konst ValID, isConst bool) {
	t := u.fns[f.id]
	if t.n == 1 {
		key := restrKey{f.id, s0, -1}
		id, ok := u.restr[key]
		if !ok {
			g := u.gms[t.gm[0]]
			ng := make([]int32, len(g))
			for i := range ng {
				ng[i] = -1
			}
			idx := map[ValID]int32{}
			var tab []ValID
			u.each(s0, func(i int) {
				if g[i] < 0 {
					panic(fmt.Sprint("restrict: undefined group"))
				}
				v := t.tab[g[i]]
				k, ok := idx[v]
				if !ok {
					k = int32(len(tab))
					idx[v] = k
					tab = append(tab, v)
				}
				ng[i] = k
			})
			gm, _ := u.internGM(ng)
			id = u.internFn(&FnTab{n: 1, gm: [2]GMID{gm, 0}, tab: tab})
			u.restr[key] = id
		}
		if len(u.fns[id].tab) == 1 {
			return FnVal{}, u.fns[id].tab[0], true
		}
		return FnVal{v: f.v, n: 1, id: id}, 0, false
	}
	key := restrKey{f.id, s0, s1}
	id, ok := u.restr[key]
	if !ok {
		// rows / columns present
		g0, g1 := u.gms[t.gm[0]], u.gms[t.gm[1]]
		n1 := u.gmN[t.gm[1]]
		live0, live1 := map[int32]bool{}, map[int32]bool{}
		u.each(s0, func(i int) { live0[g0[i]] = true })
		u.each(s1, func(i int) { live1[g1[i]] = true })
		var cols []int32
		for c := range live1 {
			cols = append(cols, c)
		}
		sort.Slice(cols, func(i, j int) bool { return cols[i] < cols[j] })
		var rows []int32
		for c := range live0 {
			rows = append(rows, c)
		}
		sort.Slice(rows, func(i, j int) bool { return rows[i] < rows[j] })
		sigRow := func(r int32) string {
			var b []byte
			for _, c := range cols {
				b = binary.LittleEndian.AppendUint32(b, uint32(t.tab[int(r)*n1+int(c)]))
			}
			return string(b)
		}
		sigCol := func(c int32) string {
			var b []byte
			for _, r := range rows {
				b = binary.LittleEndian.AppendUint32(b, uint32(t.tab[int(r)*n1+int(c)]))
			}
			return string(b)
		}
		rs, cs := map[int32]string{}, map[int32]string{}
		for _, r := range rows {
			rs[r] = sigRow(r)
		}
		for _, c := range cols {
			cs[c] = sigCol(c)
		}
		mk := func(g []int32, s SetID, sig map[int32]string) (GMID, []int32) {
			ng := make([]int32, len(g))
			for i := range ng {
				ng[i] = -1
			}
			idx := map[string]int32{}
			var rep []int32
			u.each(s, func(i int) {
				k, ok := idx[sig[g[i]]]
				if !ok {
					k = int32(len(rep))
					idx[sig[g[i]]] = k
					rep = append(rep, g[i])
				}
				ng[i] = k
			})
			gm, _ := u.internGM(ng)
			return gm, rep
		}
		gm0, rep0 := mk(g0, s0, rs)
		gm1, rep1 := mk(g1, s1, cs)
		nt := &FnTab{n: 2, gm: [2]GMID{gm0, gm1}, tab: make([]ValID, len(rep0)*len(rep1))}
		for i, r := range rep0 {
			for j, c := range rep1 {
				nt.tab[i*len(rep1)+j] = t.tab[int(r)*n1+int(c)]
			}
		}
		id = u.internFn(nt)
		u.restr[key] = id
	}
	nt := u.fns[id]
	n0, n1 := u.gmN[nt.gm[0]], u.gmN[nt.gm[1]]
	if n0 == 1 && n1 == 1 {
		return FnVal{}, nt.tab[0], true
	}
	if n0 == 1 {
		return FnVal{v: [2]int{f.v[1]}, n: 1, id: u.normFn1(&FnTab{n: 1, gm: [2]GMID{nt.gm[1], 0}, tab: nt.tab})}, 0, false
	}
	if n1 == 1 {
		return FnVal{v: [2]int{f.v[0]}, n: 1, id: u.normFn1(&FnTab{n: 1, gm: [2]GMID{nt.gm[0], 0}, tab: nt.tab})}, 0, false
	}
	return FnVal{v: f.v, n: 2, id: id}, 0, false
}

// groupSet returns the atoms of s that lie in group k of gm.
func (u *Universe) groupSet(gm GMID, k int32, s SetID) SetID {
	b := make([]uint64, u.words)
	g := u.gms[gm]
	u.each(s, func(i int) {
		if g[i] == k {
			b[i/64] |= 1 << (i % 64)
		}
	})
	return u.internSet(b)
}
