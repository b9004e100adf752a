package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis over the call graph (C13): where may a function write?
//
// Every address, slice and map is given a set of origins: memory the function
// allocated itself ("fresh"), the object a parameter points at ("p<i>"), memory
// reachable through it ("d<i>"), a package-level variable ("g:name") or memory
// of unknown owner ("u"). Writes are summarised per function in these terms and
// carried to the callers.

type origins map[string]bool

func (o origins) addAll(x origins) origins {
	for k := range x {
		o[k] = true
	}
	return o
}

type effSummary struct {
	writes map[string]string // origin -> where
	rets   []origins
	other  []effect // goroutines, channels
}

type effect struct{ pos, msg string }

type effAnalysis struct {
	p       *Program
	sums    map[*ssa.Function]*effSummary
	busy    map[*ssa.Function]bool
	taken   []*ssa.Function // functions used as values
	content map[fieldKey]int
	stores  map[fieldKey][]*ssa.Store
	nCalls  int64
	nWrites int64
	again   bool
}

func (p *Program) effects() *effAnalysis {
	a := &effAnalysis{p: p, sums: map[*ssa.Function]*effSummary{}, busy: map[*ssa.Function]bool{}, content: map[fieldKey]int{}, stores: map[fieldKey][]*ssa.Store{}}
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						k := fieldKeyOf(fa)
						a.stores[k] = append(a.stores[k], st)
					}
				}
				var buf [8]*ssa.Value
				for k, op := range in.Operands(buf[:0]) {
					if op == nil {
						continue
					}
					f, ok := (*op).(*ssa.Function)
					if !ok || seen[f] {
						continue
					}
					if c, isCall := in.(ssa.CallInstruction); isCall && k == 0 && c.Common().Value == *op && !c.Common().IsInvoke() {
						continue
					}
					if !p.inModule(f) && f.Synthetic == "" || p.isHarnessFn(f) {
						continue
					}
					seen[f] = true
					a.taken = append(a.taken, f)
				}
			}
		}
	}
	sort.Slice(a.taken, func(i, j int) bool { return a.taken[i].String() < a.taken[j].String() })
	return a
}

func (p *Program) isHarnessFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return p.harness[p.fset.Position(fn.Pos()).Filename]
}

// purePkgs neither write through their arguments nor to package-level state,
// apart from the functions listed in extWrites.
var purePkgs = map[string]bool{"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "math": true, "math/bits": true, "strings": true,
	"bytes": true, "errors": true, "strconv": true, "cmp": true, "fmt": true, "unsafe": true, "internal/bytealg": true, "internal/stringslite": true}

// followed: their bodies are analysed like the module's.
var followPkgs = map[string]bool{"sort": true, "slices": true, "maps": true, "iter": true}

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// follow reports whether the body of fn is analysed.
func (a *effAnalysis) follow(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	return a.p.inModule(fn) || followPkgs[fnPkg(fn)] || fn.Synthetic != "" && fn.Pkg == nil
}

func (a *effAnalysis) where(in ssa.Instruction) string {
	pos := in.Pos()
	if pos == token.NoPos {
		pos = blockPos(in.Block())
	}
	return a.p.relPos(pos)
}

func (p *Program) relPos(pos token.Pos) string {
	q := p.fset.Position(pos)
	q.Filename = strings.TrimPrefix(q.Filename, repoDir+"/")
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// pointerish: values through which memory can be reached.
func pointerish(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerish(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerish(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerish(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// origin of a value: what it points at.
func (a *effAnalysis) origin(v ssa.Value, busy map[ssa.Value]bool) origins {
	if busy[v] || !pointerish(v.Type()) {
		return origins{}
	}
	busy[v] = true
	defer delete(busy, v)
	switch x := v.(type) {
	case *ssa.Const:
		return origins{}
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		return origins{"fresh": true}
	case *ssa.MakeClosure:
		o := origins{"fresh": true}
		return o
	case *ssa.Function, *ssa.Builtin:
		return origins{}
	case *ssa.Global:
		return origins{"g:" + x.String(): true}
	case *ssa.Parameter:
		for i, q := range x.Parent().Params {
			if q == x {
				return origins{fmt.Sprintf("p%d", i): true}
			}
		}
	case *ssa.FreeVar:
		return a.freeVar(x)
	case *ssa.FieldAddr:
		return a.origin(x.X, busy)
	case *ssa.IndexAddr:
		return a.origin(x.X, busy)
	case *ssa.Field:
		return a.origin(x.X, busy)
	case *ssa.Index:
		return a.origin(x.X, busy)
	case *ssa.Slice:
		return a.origin(x.X, busy)
	case *ssa.ChangeType:
		return a.origin(x.X, busy)
	case *ssa.ChangeInterface:
		return a.origin(x.X, busy)
	case *ssa.MakeInterface:
		return a.origin(x.X, busy)
	case *ssa.TypeAssert:
		return a.origin(x.X, busy)
	case *ssa.SliceToArrayPointer:
		return a.origin(x.X, busy)
	case *ssa.Convert:
		if pointerish(x.X.Type()) {
			return a.origin(x.X, busy) // unsafe pointers
		}
		return origins{"fresh": true} // text is copied
	case *ssa.MultiConvert:
		return a.origin(x.X, busy).addAll(origins{"fresh": true})
	case *ssa.Phi:
		o := origins{}
		for _, e := range x.Edges {
			o.addAll(a.origin(e, busy))
		}
		return o
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return a.callResult(c, x.Index, busy)
		}
		return a.origin(x.Tuple, busy)
	case *ssa.Call:
		return a.callResult(x, 0, busy)
	case *ssa.Lookup:
		return a.deref(a.origin(x.X, busy))
	case *ssa.Next:
		return a.origin(x.Iter, busy)
	case *ssa.Range:
		return a.deref(a.origin(x.X, busy))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return a.loaded(x.X, busy)
		}
		if x.Op == token.ARROW {
			return origins{"u": true}
		}
	}
	return origins{"u": true}
}

func (a *effAnalysis) freeVar(x *ssa.FreeVar) origins {
	fn := x.Parent()
	k := -1
	for i, q := range fn.FreeVars {
		if q == x {
			k = i
		}
	}
	o := origins{}
	found := false
	if par := fn.Parent(); par != nil {
		for _, b := range par.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					found = true
					for s := range a.origin(mc.Bindings[k], map[ssa.Value]bool{}) {
						switch {
						case s == "fresh":
							o["fresh"] = true
						case strings.HasPrefix(s, "g:"):
							o[s] = true
						default:
							o["u"] = true
						}
					}
				}
			}
		}
	}
	if !found {
		o["u"] = true
	}
	return o
}

func (a *effAnalysis) deref(o origins) origins {
	r := origins{}
	for s := range o {
		if s[0] == 'p' {
			s = "d" + s[1:]
		}
		r[s] = true
	}
	return r
}

// loaded is the origin of what is stored at an address.
func (a *effAnalysis) loaded(addr ssa.Value, busy map[ssa.Value]bool) origins {
	if fa, ok := addr.(*ssa.FieldAddr); ok && a.ownField(fieldKeyOf(fa)) {
		return origins{"fresh": true}
	}
	o := a.origin(addr, busy)
	r := origins{}
	if o["fresh"] {
		// what the function itself put there
		r.addAll(a.storedIn(addr, busy))
	}
	for s := range o {
		if s != "fresh" {
			r.addAll(a.deref(origins{s: true}))
		}
	}
	return r
}

// storedIn collects the values stored into the allocation behind an address.
func (a *effAnalysis) storedIn(addr ssa.Value, busy map[ssa.Value]bool) origins {
	base := addr
	field := -1
	for {
		switch x := base.(type) {
		case *ssa.FieldAddr:
			field = x.Field
			base = x.X
			continue
		case *ssa.IndexAddr:
			base = x.X
			continue
		case *ssa.Slice:
			base = x.X
			continue
		}
		break
	}
	al, ok := base.(*ssa.Alloc)
	if !ok {
		return origins{"fresh": true, "u": true}
	}
	r := origins{}
	var visit func(v ssa.Value, f int, depth int)
	visit = func(v ssa.Value, f int, depth int) {
		if v.Referrers() == nil || depth > 6 {
			r["u"] = true
			return
		}
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == v && (f < 0 || field < 0 || f == field) {
					r.addAll(a.origin(x.Val, busy))
				}
			case *ssa.FieldAddr:
				g := f
				if g < 0 {
					g = x.Field
				}
				visit(x, g, depth+1)
			case *ssa.IndexAddr:
				visit(x, f, depth+1)
			case *ssa.Slice:
				visit(x, f, depth+1)
			case *ssa.Call:
				// a callee may store its other arguments in the object
				if fn := x.Call.StaticCallee(); fn != nil && a.p.inModule(fn) && fn.Signature.Recv() != nil {
					for i, arg := range x.Call.Args {
						if i > 0 {
							r.addAll(a.origin(arg, busy))
						}
					}
				}
			}
		}
	}
	visit(al, -1, 0)
	return r
}

// ownField reports that a struct field only ever holds memory the module
// allocated itself.
func (a *effAnalysis) ownField(k fieldKey) bool {
	switch a.content[k] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	a.content[k] = 3
	own := len(a.stores[k]) > 0
	for _, st := range a.stores[k] {
		for s := range a.origin(st.Val, map[ssa.Value]bool{}) {
			if s != "fresh" {
				own = false
			}
		}
	}
	a.content[k] = 2
	if own {
		a.content[k] = 1
	}
	return own
}

// callees of a call; known is false if others are possible.
func (a *effAnalysis) callees(c *ssa.CallCommon) (fns []*ssa.Function, known bool) {
	if c.IsInvoke() {
		for _, fn := range a.p.fns {
			if fn.Name() == c.Method.Name() && fn.Signature.Recv() != nil && types.Identical(sigNoRecv(fn.Signature), sigNoRecv(c.Method.Type().(*types.Signature))) {
				fns = append(fns, fn)
			}
		}
		return fns, false
	}
	if fn := c.StaticCallee(); fn != nil {
		return []*ssa.Function{fn}, true
	}
	sig := c.Value.Type().Underlying().(*types.Signature)
	for _, fn := range a.taken {
		s := fn.Signature
		if types.Identical(sigNoRecv(s), sigNoRecv(sig)) && (s.Recv() == nil || len(fn.FreeVars) > 0 || fn.Synthetic != "") {
			fns = append(fns, fn)
		}
	}
	return fns, false
}

func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// subst expresses an origin of a callee in terms of the caller.
func (a *effAnalysis) subst(s string, args []ssa.Value, busy map[ssa.Value]bool) origins {
	if s[0] == 'p' || s[0] == 'd' {
		i := 0
		fmt.Sscanf(s[1:], "%d", &i)
		if i >= len(args) {
			return origins{"u": true}
		}
		o := a.origin(args[i], busy)
		if s[0] == 'd' {
			r := origins{}
			for k := range a.deref(o) {
				if k == "fresh" {
					// what hangs off fresh memory: look at what was put there
					r.addAll(a.storedIn(args[i], busy))
					continue
				}
				r[k] = true
			}
			return r
		}
		return o
	}
	return origins{s: true}
}

func (a *effAnalysis) callResult(c *ssa.Call, i int, busy map[ssa.Value]bool) origins {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && len(c.Call.Args) > 0 {
			return a.origin(c.Call.Args[0], busy).addAll(origins{"fresh": true})
		}
		return origins{"fresh": true}
	}
	fns, known := a.callees(&c.Call)
	o := origins{}
	for _, fn := range fns {
		if a.follow(fn) {
			s := a.summary(fn)
			if i < len(s.rets) {
				for k := range s.rets[i] {
					o.addAll(a.subst(k, c.Call.Args, busy))
				}
			}
			continue
		}
		known = known && (purePkgs[fnPkg(fn)] || fnPkg(fn) == "bufio")
		o["fresh"] = true
		if fnPkg(fn) == "bufio" {
			continue // a reader or scanner of its own
		}
		for _, arg := range c.Call.Args {
			o.addAll(a.origin(arg, busy))
		}
	}
	if !known {
		o["u"] = true
	}
	return o
}

// extWrites lists the arguments a function outside the module may write to.
func (a *effAnalysis) extWrites(fn *ssa.Function) (idx []int, global bool) {
	pk, name := fnPkg(fn), fn.Name()
	n := fn.Signature.Params().Len()
	recv := fn.Signature.Recv() != nil
	if recv {
		n++
	}
	if purePkgs[pk] {
		if recv {
			if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
				return []int{0}, false
			}
			return nil, false
		}
		if pk == "unicode/utf8" && (name == "EncodeRune" || name == "AppendRune") || strings.HasPrefix(name, "Append") ||
			pk == "fmt" && (strings.HasPrefix(name, "Fprint") || strings.HasPrefix(name, "Sscan") || strings.HasPrefix(name, "Fscan") || strings.HasPrefix(name, "Scan")) {
			for i := 0; i < n; i++ {
				idx = append(idx, i)
			}
		}
		return
	}
	if pk == "bufio" && name == "NewScanner" {
		return nil, false
	}
	for i := 0; i < n; i++ {
		idx = append(idx, i)
	}
	return idx, false
}

func (a *effAnalysis) summary(fn *ssa.Function) *effSummary {
	if s, ok := a.sums[fn]; ok {
		if a.busy[fn] {
			a.again = true
		}
		return s
	}
	s := &effSummary{writes: map[string]string{}, rets: make([]origins, fn.Signature.Results().Len())}
	for i := range s.rets {
		s.rets[i] = origins{}
	}
	a.sums[fn] = s
	a.busy[fn] = true
	for {
		a.again = false
		n := len(s.writes)
		for _, o := range s.rets {
			n += len(o)
		}
		s.other = nil
		a.scan(fn, s)
		m := len(s.writes)
		for _, o := range s.rets {
			m += len(o)
		}
		if m == n {
			break
		}
	}
	delete(a.busy, fn)
	return s
}

func (a *effAnalysis) scan(fn *ssa.Function, s *effSummary) {
	write := func(o origins, in ssa.Instruction, what string) {
		a.nWrites++
		for k := range o {
			if k == "fresh" {
				continue
			}
			if _, ok := s.writes[k]; !ok {
				s.writes[k] = a.where(in) + ": " + fnName(fn) + " " + what
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			nb := func() map[ssa.Value]bool { return map[ssa.Value]bool{} }
			switch x := in.(type) {
			case *ssa.Store:
				write(a.origin(x.Addr, nb()), in, "stores")
			case *ssa.MapUpdate:
				write(a.origin(x.Map, nb()), in, "writes to a map")
			case *ssa.Send:
				s.other = append(s.other, effect{a.where(in), fnName(fn) + " sends on a channel"})
			case *ssa.Select:
				s.other = append(s.other, effect{a.where(in), fnName(fn) + " selects on channels"})
			case *ssa.Go:
				s.other = append(s.other, effect{a.where(in), fnName(fn) + " starts a goroutine"})
			case *ssa.Return:
				for i, r := range x.Results {
					if i < len(s.rets) {
						s.rets[i].addAll(a.origin(r, nb()))
					}
				}
			}
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			a.nCalls++
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "append":
					// writes past the length of its first argument
					write(a.origin(cc.Args[0], nb()), in, "appends in place")
				case "copy":
					write(a.origin(cc.Args[0], nb()), in, "copies into it")
				case "delete", "clear":
					write(a.origin(cc.Args[0], nb()), in, bi.Name()+"s")
				}
				continue
			}
			fns, _ := a.callees(cc)
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
				// an unknown method may write to slices it is given
				for _, arg := range cc.Args {
					if _, ok := arg.Type().Underlying().(*types.Slice); ok {
						write(a.origin(arg, nb()), in, "hands it to "+cc.Method.Name()+", which may write")
					}
				}
			}
			for _, f := range fns {
				if a.follow(f) {
					sm := a.summary(f)
					s.other = append(s.other, sm.other...)
					for k, w := range sm.writes {
						for o := range a.subst(k, args, nb()) {
							if o == "fresh" {
								continue
							}
							if _, ok := s.writes[o]; !ok {
								s.writes[o] = w + " < " + fnName(fn) + " at " + a.where(in)
							}
						}
					}
					continue
				}
				idx, _ := a.extWrites(f)
				for _, i := range idx {
					if i < len(args) {
						if _, isFn := args[i].Type().Underlying().(*types.Signature); isFn {
							continue // code, not memory
						}
						write(a.origin(args[i], nb()), in, "passes it to "+f.String()+", which may write")
					}
				}
			}
		}
	}
}

// apiRoots lists the exported functions and methods of the packages (as
// instantiated by the clients), and functions held in exported variables.
func (p *Program) apiRoots(pkgs []string) (roots []*ssa.Function) {
	in := map[*types.Package]bool{}
	for _, n := range pkgs {
		if pk := p.pkgs[n]; pk != nil {
			in[pk.Pkg] = true
		}
	}
	for _, fn := range p.fns {
		if p.isHarnessFn(fn) || fn.Parent() != nil || fn.Synthetic != "" && fn.Origin() == nil {
			continue
		}
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		} else if tp := fn.TypeParams(); tp != nil && tp.Len() > 0 {
			continue
		}
		if len(fn.Blocks) == 0 || o.Pkg == nil || !in[o.Pkg.Pkg] {
			continue
		}
		if r := o.Signature.Recv(); r != nil {
			t := r.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := t.(*types.Named); !ok || !n.Obj().Exported() || !o.Object().Exported() {
				// split functions held by iterators count, whatever their name
				if !splitSig(sigNoRecv(fn.Signature)) {
					continue
				}
			}
		} else if !token.IsExported(o.Name()) && !splitSig(fn.Signature) {
			continue
		}
		roots = append(roots, fn)
	}
	return
}

func effectTask(pkgs []string) Task {
	return Task{"effects", func(c *Ctx) *Result {
		r := newResult()
		a := c.p.effects()
		roots := c.p.apiRoots(pkgs)
		seen := map[string]bool{}
		report := func(kind, where, msg string) {
			if !seen[where+msg] {
				seen[where+msg] = true
				r.viol = append(r.viol, &Report{Kind: kind, Msg: msg, Pos: strings.SplitN(where, ": ", 2)[0], Stack: []string{where}})
			}
		}
		for _, fn := range roots {
			s := a.summary(fn)
			r.counts["entry_points"]++
			for _, e := range s.other {
				report("concurrency", e.pos, e.msg)
			}
			keys := make([]string, 0, len(s.writes))
			for k := range s.writes {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				w := s.writes[k]
				switch {
				case strings.HasPrefix(k, "g:"):
					report("shared-write", w, fmt.Sprintf("%s writes package-level state %s", fnName(fn), k[2:]))
				case k == "u":
					report("foreign-write", w, fmt.Sprintf("%s writes to memory it does not own", fnName(fn)))
				default:
					i := 0
					fmt.Sscanf(k[1:], "%d", &i)
					if i >= len(fn.Params) {
						continue
					}
					t := fn.Params[i].Type()
					if k[0] == 'p' && ownState(t) {
						continue
					}
					switch t.Underlying().(type) {
					case *types.Interface, *types.Signature:
						continue // a reader the caller handed over, a function
					}
					what := "its argument " + fn.Params[i].Name()
					if k[0] == 'd' {
						what = "memory its argument " + fn.Params[i].Name() + " refers to"
					}
					report("foreign-write", w, fmt.Sprintf("%s writes to %s", fnName(fn), what))
				}
			}
		}
		for fn := range a.sums {
			r.funcs[fnName(fn)] = true
		}
		r.counts["functions"] = int64(len(a.sums))
		r.counts["call_sites"] = a.nCalls
		r.counts["writes_classified"] = a.nWrites
		return r
	}}
}

// ownState: the types whose objects an operation may change.
func ownState(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && (n.Obj().Name() == "Iterator" || n.Obj().Name() == "Scanner")
}
