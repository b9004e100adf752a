package main

import (
	"sort"
	"sync"
	"unicode"
)

// General categories and white space, as the unicode package of the standard
// library has them. A kind is 2*category + space.

var (
	catOnce  sync.Once
	catKind  []uint8 // per code point
	catNames []string
)

func kindOf(r rune) uint8 {
	catOnce.Do(func() {
		catKind = make([]uint8, 0x110000)
		for n := range unicode.Categories {
			if len(n) == 2 && n != "LC" && n != "Cn" {
				catNames = append(catNames, n)
			}
		}
		sort.Strings(catNames)
		catNames = append([]string{"Cn"}, catNames...)
		if len(catNames) > 32 {
			panic("too many categories")
		}
		for i, n := range catNames[1:] {
			t := unicode.Categories[n]
			for _, x := range t.R16 {
				for r := int(x.Lo); r <= int(x.Hi); r += int(x.Stride) {
					catKind[r] = uint8(2 * (i + 1))
				}
			}
			for _, x := range t.R32 {
				for r := int(x.Lo); r <= int(x.Hi); r += int(x.Stride) {
					catKind[r] = uint8(2 * (i + 1))
				}
			}
		}
		for r := range catKind {
			if unicode.IsSpace(rune(r)) {
				catKind[r]++
			}
		}
	})
	return catKind[r]
}

// inCat reports whether a kind is in a general category, named by one or two letters.
func inCat(kind uint8, names ...string) bool {
	c := catNames[kind/2]
	for _, n := range names {
		if n == c || len(n) == 1 && c[:1] == n {
			return true
		}
	}
	return false
}

// predicates of the unicode package, by kind
var kindPreds = map[string]func(k uint8) bool{
	"IsLetter":  func(k uint8) bool { return inCat(k, "L") },
	"IsNumber":  func(k uint8) bool { return inCat(k, "N") },
	"IsDigit":   func(k uint8) bool { return inCat(k, "Nd") },
	"IsUpper":   func(k uint8) bool { return inCat(k, "Lu") },
	"IsLower":   func(k uint8) bool { return inCat(k, "Ll") },
	"IsTitle":   func(k uint8) bool { return inCat(k, "Lt") },
	"IsMark":    func(k uint8) bool { return inCat(k, "M") },
	"IsPunct":   func(k uint8) bool { return inCat(k, "P") },
	"IsSymbol":  func(k uint8) bool { return inCat(k, "S") },
	"IsControl": func(k uint8) bool { return inCat(k, "Cc") },
	"IsGraphic": func(k uint8) bool { return inCat(k, "L", "M", "N", "P", "S", "Zs") },
	"IsSpace":   func(k uint8) bool { return k&1 == 1 },
}

// tables of the unicode package that are unions of categories
var kindTables = map[string][]string{
	"Letter": {"L"}, "L": {"L"}, "Number": {"N"}, "N": {"N"}, "Digit": {"Nd"}, "Nd": {"Nd"}, "Nl": {"Nl"}, "No": {"No"},
	"Mark": {"M"}, "M": {"M"}, "Mn": {"Mn"}, "Mc": {"Mc"}, "Me": {"Me"}, "Punct": {"P"}, "P": {"P"}, "Symbol": {"S"}, "S": {"S"},
	"Upper": {"Lu"}, "Lu": {"Lu"}, "Lower": {"Ll"}, "Ll": {"Ll"}, "Title": {"Lt"}, "Lt": {"Lt"}, "Lm": {"Lm"}, "Lo": {"Lo"},
	"Cc": {"Cc"}, "Cf": {"Cf"}, "Zs": {"Zs"}, "Zl": {"Zl"}, "Zp": {"Zp"}, "Space": {"Z"}, "Z": {"Z"},
}

// kindPred applies a predicate on kinds to a character value.
func (s *State) kindPred(v Value, pred func(k uint8) bool) Value {
	u := s.e.u
	one := func(r int64) int64 {
		if r < 0 || r > 0x10FFFF {
			return 0
		}
		return b2i(pred(kindOf(rune(r))))
	}
	switch x := v.(type) {
	case CInt:
		return CInt(one(int64(x)))
	case RuneOf:
		kindOf(0)
		return s.mkFn(FnVal{v: [2]int{x.v}, n: 1, id: u.makeFn1(func(i int) ValID {
			var vs []int64
			for k := 0; k < 64; k++ {
				if u.atoms[i].Kinds>>k&1 != 0 {
					vs = append(vs, b2i(pred(uint8(k))))
				}
			}
			if len(vs) == 0 {
				vs = []int64{0, 1}
			}
			return u.valSet(vs)
		})})
	case FnVal:
		return s.mkFn(u.map1(x, func(y ValID) ValID {
			return u.valOp2(y, u.val1(0), func(p, _ int64) (int64, bool) { return one(p), true })
		}))
	}
	return Top{}
}

// tableArg resolves a *unicode.RangeTable to its categories.
func tableArg(v Value) ([]string, bool) {
	o, ok := v.(Opaque)
	if !ok {
		return nil, false
	}
	const pre = "unicode."
	if len(o.name) <= len(pre) || o.name[:len(pre)] != pre {
		return nil, false
	}
	c, ok := kindTables[o.name[len(pre):]]
	return c, ok
}

func init() {
	for n, p := range kindPreds {
		p := p
		stdModels["unicode."+n] = func(s *State, in *ssaCall, args []Value) Value { return s.kindPred(args[0], p) }
	}
	stdModels["unicode.Is"] = func(s *State, in *ssaCall, args []Value) Value {
		c, ok := tableArg(args[0])
		if !ok {
			return Top{}
		}
		return s.kindPred(args[1], func(k uint8) bool { return inCat(k, c...) })
	}
	in := func(s *State, r Value, tabs []Value) Value {
		var all []string
		for _, t := range tabs {
			c, ok := tableArg(t)
			if !ok {
				return Top{}
			}
			all = append(all, c...)
		}
		return s.kindPred(r, func(k uint8) bool { return inCat(k, all...) })
	}
	stdModels["unicode.In"] = func(s *State, _ *ssaCall, args []Value) Value { return in(s, args[0], s.elems(args[1])) }
	stdModels["unicode.IsOneOf"] = func(s *State, _ *ssaCall, args []Value) Value { return in(s, args[1], s.elems(args[0])) }
}
