package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Analysis of the table generator (C18): error discipline by path exploration,
// determinism by rules over map iteration and sources of nondeterminism.

type genCheck struct {
	prog  *ssa.Program
	fset  *token.FileSet
	fns   []*ssa.Function // reachable, in the module
	in    map[*ssa.Function]bool
	r     *Result
	sums  map[string]*callSum
	steps int
}

const genDir = "internal/gen"

func (g *genCheck) inMod(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	return strings.HasPrefix(fnPkg(fn), modPath) && len(fn.Blocks) > 0
}

func (g *genCheck) at(p token.Pos, fn *ssa.Function) string {
	if p == token.NoPos {
		return fn.RelString(nil)
	}
	q := g.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoDir+"/"), q.Line)
}

func (g *genCheck) bad(kind string, p token.Pos, fn *ssa.Function, format string, a ...interface{}) {
	g.r.viol = append(g.r.viol, &Report{Kind: kind, Msg: fmt.Sprintf(format, a...), Pos: g.at(p, fn), Stack: []string{fn.RelString(nil)}})
}

func genTask() Task {
	return Task{"generator", func(c *Ctx) *Result {
		r := newResult()
		env := append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: filepath.Join(repoDir, genDir), Env: env, Fset: token.NewFileSet()}
		pkgs, err := packages.Load(cfg, "./...")
		if err != nil {
			r.fail("undecided", genDir, "the generator cannot be loaded: %v", err)
			return r
		}
		for _, p := range pkgs {
			for _, e := range p.Errors {
				r.fail("undecided", genDir, "the generator cannot be type-checked: %v", e)
				return r
			}
		}
		prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		g := &genCheck{prog: prog, fset: prog.Fset, in: map[*ssa.Function]bool{}, r: r, sums: map[string]*callSum{}}
		var main *ssa.Function
		for _, p := range sp {
			if p != nil && p.Pkg.Name() == "main" {
				main = p.Func("main")
				g.reach(main)
			}
			if p != nil {
				g.reach(p.Func("init"))
			}
		}
		if main == nil {
			r.fail("undecided", genDir, "no main function in the generator")
			return r
		}
		for _, fn := range g.fns {
			r.funcs[fn.RelString(nil)] = true
			if fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			g.errors(fn)
			g.resources(fn)
			g.nondet(fn)
			g.mapRanges(fn)
		}
		r.counts["functions"] = int64(len(g.fns))
		r.counts["path_steps"] = int64(g.steps)
		return r
	}}
}

// reach collects the functions of the module that main can reach: called,
// referred to, or a method that an interface call may select.
func (g *genCheck) reach(fn *ssa.Function) {
	if fn == nil || g.in[fn] || !g.inMod(fn) {
		return
	}
	g.in[fn] = true
	g.fns = append(g.fns, fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var buf [8]*ssa.Value
			for _, op := range in.Operands(buf[:0]) {
				if op == nil {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok {
					g.reach(f)
				}
			}
			if mi, ok := in.(*ssa.MakeInterface); ok {
				ms := g.prog.MethodSets.MethodSet(mi.X.Type())
				for i := 0; i < ms.Len(); i++ {
					if f := g.prog.MethodValue(ms.At(i)); f != nil {
						g.reach(f)
					}
				}
			}
		}
	}
	for _, f := range fn.AnonFuncs {
		g.reach(f)
	}
}

func isErrType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// errResult is the index of the error among the results, or -1.
func errResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------------------
// Paths

type status int8

const (
	unknown status = iota
	isNil
	nonNil
	theErr // the failure whose fate is followed
	yes
	no
)

// pstate is what is known on a path.
type pstate struct {
	st       map[string]status
	codes    *[8]uint64 // HTTP status codes still possible (100..611)
	released bool
}

func (s *pstate) clone() *pstate {
	t := &pstate{st: make(map[string]status, len(s.st)), released: s.released}
	for k, v := range s.st {
		t.st[k] = v
	}
	if s.codes != nil {
		c := *s.codes
		t.codes = &c
	}
	return t
}

func (s *pstate) key() string {
	ks := make([]string, 0, len(s.st))
	for k, v := range s.st {
		if v != unknown {
			ks = append(ks, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(ks)
	x := strings.Join(ks, ",")
	if s.codes != nil {
		x += fmt.Sprint(*s.codes)
	}
	return fmt.Sprint(s.released, x)
}

func (s *pstate) set(k string, v status) {
	if v == unknown {
		delete(s.st, k)
	} else {
		s.st[k] = v
	}
}

// walk explores the paths of one function.
type walk struct {
	g       *genCheck
	fn      *ssa.Function
	src     *ssa.Call          // the failing call, if followed
	reader  bool               // its failure may be the end of the input
	alias   map[ssa.Value]bool // the resource, if followed
	derived map[ssa.Value]bool // writers made from it
	rel     map[string]bool    // methods that release it
	strict  bool               // no other fallible step while it is open
	codeOf  map[ssa.Value]bool // resp, for status codes
	end     func(kind string, s *pstate, in ssa.Instruction)
	depth   int
	over    bool
}

type wnode struct {
	b    *ssa.BasicBlock
	i    int
	prev *ssa.BasicBlock
	s    *pstate
}

const maxPathSteps = 40000

func (w *walk) run(b *ssa.BasicBlock, i int, prev *ssa.BasicBlock, s *pstate) {
	seen := map[string]bool{}
	work := []wnode{{b, i, prev, s}}
	n := 0
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		w.g.steps++
		if n++; n > maxPathSteps {
			w.over = true
			return
		}
		if x.i == 0 {
			pi := -1
			if x.prev != nil {
				pi = x.prev.Index
			}
			k := fmt.Sprint(x.b.Index, "/", pi, "/", x.s.key())
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		work = append(work, w.block(x)...)
	}
}

func regName(v ssa.Value) string { return v.Name() }

// cellName names a memory cell of error type.
func cellName(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return "*" + x.Name()
	case *ssa.FieldAddr:
		return fmt.Sprintf("*%s.%d", x.X.Name(), x.Field)
	}
	return ""
}

func (w *walk) eval(v ssa.Value, s *pstate) status {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return isNil
		}
		if x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return yes
			}
			return no
		}
		return unknown
	case *ssa.MakeInterface:
		return nonNil
	case *ssa.ChangeInterface:
		return w.eval(x.X, s)
	case *ssa.BinOp:
		if t, ok := w.cond(x, s); ok {
			if t {
				return yes
			}
			return no
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			switch w.eval(x.X, s) {
			case yes:
				return no
			case no:
				return yes
			}
			return unknown
		}
		if _, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && isErrType(x.Type()) {
			return nonNil
		}
	}
	return s.st[regName(v)]
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func eofGlobal(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	gl, ok := u.X.(*ssa.Global)
	return ok && gl.Name() == "EOF" && gl.Pkg != nil && gl.Pkg.Pkg.Path() == "io"
}

// cond: the value of a comparison with nil, if known.
func (w *walk) cond(x *ssa.BinOp, s *pstate) (val, ok bool) {
	if x.Op != token.EQL && x.Op != token.NEQ {
		return
	}
	a, b := x.X, x.Y
	if isNilConst(a) {
		a, b = b, a
	}
	if !isNilConst(b) {
		return
	}
	switch w.eval(a, s) {
	case isNil:
		return x.Op == token.EQL, true
	case nonNil, theErr:
		return x.Op == token.NEQ, true
	}
	return
}

// assume refines the state by the outcome of a condition; false if impossible.
// The second result is set when the followed failure turns out to be the end of
// the input.
func (w *walk) assume(v ssa.Value, val bool, s *pstate) (ok, eof bool) {
	switch w.eval(v, s) {
	case yes:
		return val, false
	case no:
		return !val, false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return w.assume(x.X, !val, s)
		}
	case *ssa.BinOp:
		if s.codes != nil {
			if w.filterCodes(v, val, s) {
				return *s.codes != [8]uint64{}, false
			}
		}
		a, b := x.X, x.Y
		if x.Op == token.EQL || x.Op == token.NEQ {
			if isNilConst(a) || eofGlobal(a) {
				a, b = b, a
			}
			if isNilConst(b) && isErrType(a.Type()) {
				if val == (x.Op == token.EQL) {
					w.learn(a, isNil, s)
				} else {
					w.learn(a, nonNil, s)
				}
			}
			if eofGlobal(b) && val == (x.Op == token.EQL) {
				return true, w.eval(a, s) == theErr && w.reader
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && fnPkg(f) == "errors" && f.Name() == "Is" && val && len(x.Call.Args) == 2 {
			return true, eofGlobal(x.Call.Args[1]) && w.eval(x.Call.Args[0], s) == theErr && w.reader
		}
		if s.codes != nil && w.filterCodes(v, val, s) {
			return *s.codes != [8]uint64{}, false
		}
	}
	return true, false
}

func (w *walk) learn(v ssa.Value, st status, s *pstate) {
	s.set(regName(v), st)
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if c := cellName(u.X); c != "" {
			s.set(c, st)
		}
	}
}

// block runs from x.i to the end of the block.
func (w *walk) block(x wnode) []wnode {
	b, s := x.b, x.s.clone()
	if x.i == 0 && x.prev != nil {
		idx := -1
		for i, p := range b.Preds {
			if p == x.prev {
				idx = i
			}
		}
		vals := map[string]status{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals[regName(phi)] = w.eval(phi.Edges[idx], s)
		}
		for k, v := range vals {
			s.set(k, v)
		}
	}
	states := []*pstate{s}
	for i := x.i; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		var next []*pstate
		for _, s := range states {
			next = append(next, w.step(in, s)...)
		}
		states = next
		if len(states) == 0 {
			return nil
		}
	}
	var out []wnode
	last := b.Instrs[len(b.Instrs)-1]
	for _, s := range states {
		if br, ok := last.(*ssa.If); ok {
			for k, succ := range b.Succs {
				t := s.clone()
				ok, eof := w.assume(br.Cond, k == 0, t)
				if !ok || eof {
					continue
				}
				out = append(out, wnode{succ, 0, b, t})
			}
			continue
		}
		for _, succ := range b.Succs {
			out = append(out, wnode{succ, 0, b, s})
		}
	}
	return out
}

// step runs one instruction; no states when the path ends.
func (w *walk) step(in ssa.Instruction, s *pstate) []*pstate {
	one := []*pstate{s}
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Store:
		if isErrType(x.Val.Type()) {
			if c := cellName(x.Addr); c != "" {
				s.set(c, w.eval(x.Val, s))
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && isErrType(x.Type()) {
			if _, ok := x.X.(*ssa.Global); !ok {
				s.set(regName(x), s.st[cellName(x.X)])
			}
		}
	case *ssa.Panic:
		w.end("abort", s, in)
		return nil
	case *ssa.Return:
		w.end("return", s, in)
		return nil
	case *ssa.RunDefers:
		// closures run now, the last one first
		for _, b := range w.fn.Blocks {
			for _, di := range b.Instrs {
				d, ok := di.(*ssa.Defer)
				if !ok {
					continue
				}
				mc, _ := d.Call.Value.(*ssa.MakeClosure)
				if mc == nil {
					continue
				}
				var next []*pstate
				for _, t := range one {
					next = append(next, w.closure(mc, t)...)
				}
				one = next
			}
		}
		return one
	case *ssa.Call:
		return w.call(x, s)
	case ssa.Value:
		if isErrType(x.Type()) {
			switch x.(type) {
			case *ssa.Extract, *ssa.MakeInterface, *ssa.ChangeInterface:
			default:
				s.set(regName(x), unknown)
			}
		}
	}
	return one
}

// closure runs a closure of this function, whose variables are cells here.
func (w *walk) closure(mc *ssa.MakeClosure, s *pstate) []*pstate {
	fn := mc.Fn.(*ssa.Function)
	if w.depth > 3 || !w.g.inMod(fn) {
		return []*pstate{s}
	}
	in := s.clone()
	in.st = map[string]status{}
	binds := map[string]string{}
	for i, b := range mc.Bindings {
		if c := cellName(b); c != "" {
			f := "*" + fn.FreeVars[i].Name()
			binds[f] = c
			in.set(f, s.st[c])
		}
	}
	sub := &walk{g: w.g, fn: fn, depth: w.depth + 1, reader: w.reader, rel: w.rel, alias: w.alias, derived: w.derived, codeOf: w.codeOf}
	var outs []*pstate
	seen := map[string]bool{}
	sub.end = func(kind string, e *pstate, _ ssa.Instruction) {
		if kind == "abort" {
			w.end("abort", s, nil)
			return
		}
		t := s.clone()
		t.released = e.released
		t.codes = e.codes
		for f, c := range binds {
			t.set(c, e.st[f])
		}
		if k := t.key(); !seen[k] {
			seen[k] = true
			outs = append(outs, t)
		}
	}
	sub.run(fn.Blocks[0], 0, nil, in)
	if sub.over {
		w.over = true
	}
	return outs
}

// callSum: what a function of the module does with a failure it is given.
type callSum struct {
	aborts, returns, stores bool // on every path
}

func (g *genCheck) given(fn *ssa.Function, param int, depth int) *callSum {
	k := fmt.Sprintf("%s/%d", fn.RelString(nil), param)
	if s := g.sums[k]; s != nil {
		return s
	}
	s := &callSum{}
	g.sums[k] = s
	if depth > 4 || !g.inMod(fn) {
		return s
	}
	aborts, returns, stores, any := true, true, true, false
	w := &walk{g: g, fn: fn, depth: depth + 1}
	w.end = func(kind string, e *pstate, in ssa.Instruction) {
		any = true
		if kind == "abort" {
			return
		}
		aborts = false
		if !returnsErr(w, e, in) {
			returns = false
		}
		if !storesErr(e) {
			stores = false
		}
	}
	st := &pstate{st: map[string]status{}}
	if param >= 0 {
		st.st[regName(fn.Params[param])] = theErr
	}
	w.run(fn.Blocks[0], 0, nil, st)
	if w.over || !any {
		return s
	}
	s.aborts, s.returns, s.stores = aborts, returns, stores
	return s
}

func returnsErr(w *walk, e *pstate, in ssa.Instruction) bool {
	ret, ok := in.(*ssa.Return)
	if !ok {
		return false
	}
	for _, v := range ret.Results {
		if isErrType(v.Type()) {
			if st := w.eval(v, e); st == nonNil || st == theErr {
				return true
			}
		}
	}
	return false
}

// storesErr: an error was put in a field, to be reported later.
func storesErr(e *pstate) bool {
	for k, v := range e.st {
		if strings.HasPrefix(k, "*") && strings.Contains(k, ".") && (v == nonNil || v == theErr) {
			return true
		}
	}
	return false
}

func aborter(f *ssa.Function, cc *ssa.CallCommon) bool {
	switch fnPkg(f) {
	case "log":
		return strings.HasPrefix(f.Name(), "Fatal") || strings.HasPrefix(f.Name(), "Panic")
	case "os":
		if f.Name() == "Exit" && len(cc.Args) == 1 {
			c, ok := cc.Args[0].(*ssa.Const)
			return ok && c.Value != nil && c.Int64() != 0
		}
	}
	return false
}

func (w *walk) call(x *ssa.Call, s *pstate) []*pstate {
	one := []*pstate{s}
	cc := &x.Call
	// results are new values
	if isErrType(x.Type()) {
		s.set(regName(x), unknown)
	}
	if refs := x.Referrers(); refs != nil {
		for _, r := range *refs {
			if e, ok := r.(*ssa.Extract); ok {
				s.set(regName(e), unknown)
			}
		}
	}
	if w.alias != nil && w.onResource(x, s) {
		return one
	}
	f := cc.StaticCallee()
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok && len(mc.Bindings) > 0 {
		one = w.closure(mc, s)
	}
	if f == nil {
		return one
	}
	if aborter(f, cc) {
		w.end("abort", s, x)
		return nil
	}
	setRes := func(st status) {
		if isErrType(x.Type()) {
			s.set(regName(x), st)
		}
		if refs := x.Referrers(); refs != nil {
			for _, r := range *refs {
				if e, ok := r.(*ssa.Extract); ok && isErrType(e.Type()) {
					s.set(regName(e), st)
				}
			}
		}
	}
	switch fnPkg(f) {
	case "fmt":
		if f.Name() == "Errorf" {
			setRes(nonNil)
		}
		return one
	case "errors":
		if f.Name() == "New" {
			setRes(nonNil)
		}
		return one
	}
	if w.g.inMod(f) && w.depth < 5 {
		if w.g.given(f, -1, w.depth).aborts {
			w.end("abort", s, x)
			return nil
		}
		for i, a := range cc.Args {
			if !isErrType(a.Type()) || i >= len(f.Params) {
				continue
			}
			if st := w.eval(a, s); st == nonNil || st == theErr {
				sum := w.g.given(f, i, w.depth)
				switch {
				case sum.aborts:
					w.end("abort", s, x)
					return nil
				case sum.returns:
					setRes(theErr)
				case sum.stores:
					s.set("*stored.err", theErr)
				}
			}
		}
	}
	return one
}

// dominating facts about errors at the start of a block
func (w *walk) facts(b *ssa.BasicBlock, s *pstate) {
	for d := b; d != nil; d = d.Idom() {
		up := d.Idom()
		if up == nil || len(up.Instrs) == 0 {
			break
		}
		br, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, succ := range up.Succs {
			if succ == d && len(d.Preds) == 1 {
				w.assume(br.Cond, k == 0, s)
			}
		}
	}
}

// ---------------------------------------------------------------------------
// Error discipline

func writerCannotFail(v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		// an io.Writer that is a hash
		return strings.HasPrefix(v.Type().String(), "hash.")
	}
	switch mi.X.Type().String() {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	case "*os.File":
		if u, ok := mi.X.(*ssa.UnOp); ok {
			if gl, ok := u.X.(*ssa.Global); ok && gl.Pkg.Pkg.Path() == "os" && (gl.Name() == "Stdout" || gl.Name() == "Stderr") {
				return true
			}
		}
	}
	return strings.HasPrefix(mi.X.Type().String(), "hash.")
}

// writers wraps ChangeInterface and friends
func under(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return v
	}
}

// cannotFail: calls whose error result says nothing.
func cannotFail(cc *ssa.CallCommon) bool {
	if cc.IsInvoke() {
		t := cc.Value.Type().String()
		if strings.HasPrefix(t, "hash.") {
			return true
		}
		// closing what was read from
		return cc.Method.Name() == "Close" && t == "io.ReadCloser"
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	name := f.Name()
	if recv := f.Signature.Recv(); recv != nil {
		switch recv.Type().String() {
		case "*bytes.Buffer", "*strings.Builder":
			return strings.HasPrefix(name, "Write")
		case "*os.File":
			return name == "Close" && openedForReading(cc.Args[0])
		}
		return false
	}
	switch fnPkg(f) {
	case "fmt":
		if name == "Print" || name == "Printf" || name == "Println" {
			return true
		}
		return strings.HasPrefix(name, "Fprint") && writerCannotFail(under(cc.Args[0]))
	case "io":
		return name == "WriteString" && writerCannotFail(under(cc.Args[0]))
	case "encoding/binary":
		return name == "Write" && (writerCannotFail(under(cc.Args[0])) || strings.HasPrefix(under(cc.Args[0]).Type().String(), "hash."))
	}
	return false
}

func openedForReading(v ssa.Value) bool {
	if e, ok := v.(*ssa.Extract); ok {
		if c, ok := e.Tuple.(*ssa.Call); ok {
			f := c.Call.StaticCallee()
			return f != nil && fnPkg(f) == "os" && f.Name() == "Open"
		}
	}
	return false
}

func callName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Value.Type().String() + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.RelString(nil)
	}
	return "a function value"
}

func isReader(cc *ssa.CallCommon) bool {
	n := ""
	if cc.IsInvoke() {
		n = cc.Method.Name()
	} else if f := cc.StaticCallee(); f != nil {
		n = f.Name()
		if p := fnPkg(f); p != "bufio" && p != "io" && p != "os" && p != "bytes" && p != "strings" && p != "encoding/csv" && p != "compress/gzip" {
			// a helper of the module may pass the end of the input on
			return strings.HasPrefix(p, modPath)
		}
	}
	return strings.HasPrefix(n, "Read") || n == "Copy" || n == "Next"
}

func (g *genCheck) errors(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Defer, *ssa.Go:
				cc := in.(ssa.CallInstruction).Common()
				if errResult(cc.Signature()) < 0 || cannotFail(cc) {
					continue
				}
				n := callName(cc)
				if strings.HasSuffix(n, ".Close") || strings.HasSuffix(n, ".Flush") {
					continue // the rule on written files decides
				}
				g.bad("error", in.Pos(), fn, "%s ignores the error of deferred %s", fn.RelString(nil), n)
			case *ssa.Call:
				cc := &x.Call
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					if cc.Value.Name() == "recover" {
						g.bad("error", in.Pos(), fn, "%s recovers from a panic", fn.RelString(nil))
					}
					continue
				}
				k := errResult(cc.Signature())
				if k < 0 || cannotFail(cc) {
					continue
				}
				if f := cc.StaticCallee(); f != nil && (fnPkg(f) == "errors" || fnPkg(f) == "fmt" && f.Name() == "Errorf") {
					continue // makes an error, that is no failure
				}
				g.r.counts["error_sources"]++
				g.follow(fn, b, i, x)
			case *ssa.UnOp:
				// an error kept in a field
				fa, ok := x.X.(*ssa.FieldAddr)
				if !ok || x.Op != token.MUL || !isErrType(x.Type()) {
					continue
				}
				g.r.counts["error_sources"]++
				w := &walk{g: g, fn: fn}
				s := &pstate{st: map[string]status{}}
				w.facts(b, s)
				s.st[regName(x)] = theErr
				s.st[cellName(fa)] = theErr
				g.judge(w, fn, x.Pos(), "the error kept in a field")
				w.run(b, i+1, nil, s)
			}
		}
	}
}

// judge reports the paths that forget the failure.
func (g *genCheck) judge(w *walk, fn *ssa.Function, pos token.Pos, what string) {
	done := false
	w.end = func(kind string, e *pstate, in ssa.Instruction) {
		if kind == "abort" || done {
			return
		}
		if returnsErr(w, e, in) || storesErr(e) {
			return
		}
		if errResult(fn.Signature) < 0 {
			for i, fv := range fn.FreeVars {
				if st := e.st["*"+fv.Name()]; (st == theErr || st == nonNil) && g.resultCell(fn, i) {
					return
				}
			}
		}
		done = true
		where := ""
		if in != nil && in.Pos() != token.NoPos {
			where = " (the return at " + g.at(in.Pos(), fn) + ")"
		}
		g.bad("error", pos, fn, "%s goes on after a failure of %s%s", fn.RelString(nil), what, where)
	}
}

// resultCell: the captured variable is a named result of the parent.
func (g *genCheck) resultCell(fn *ssa.Function, i int) bool {
	par := fn.Parent()
	if par == nil {
		return false
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			refs := mc.Bindings[i].Referrers()
			if refs == nil {
				continue
			}
			for _, r := range *refs {
				if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && u.Referrers() != nil {
					for _, q := range *u.Referrers() {
						if _, ok := q.(*ssa.Return); ok {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (g *genCheck) follow(fn *ssa.Function, b *ssa.BasicBlock, i int, x *ssa.Call) {
	w := &walk{g: g, fn: fn, src: x, reader: isReader(&x.Call)}
	s := &pstate{st: map[string]status{}}
	w.facts(b, s)
	if isErrType(x.Type()) {
		s.st[regName(x)] = theErr
	} else if refs := x.Referrers(); refs != nil {
		for _, r := range *refs {
			if e, ok := r.(*ssa.Extract); ok && isErrType(e.Type()) {
				s.st[regName(e)] = theErr
			}
		}
	}
	g.judge(w, fn, x.Pos(), callName(&x.Call))
	w.run(b, i+1, nil, s)
	if w.over {
		g.bad("undecided", x.Pos(), fn, "too many paths after %s", callName(&x.Call))
	}
}

// ---------------------------------------------------------------------------
// Resources: written files, buffered writers, scanners, HTTP responses

type resKind struct {
	what   string
	rel    map[string]bool
	strict bool
	http   bool
}

func resourceOf(cc *ssa.CallCommon) *resKind {
	f := cc.StaticCallee()
	if f == nil {
		return nil
	}
	set := func(xs ...string) map[string]bool {
		m := map[string]bool{}
		for _, x := range xs {
			m[x] = true
		}
		return m
	}
	switch fnPkg(f) {
	case "os":
		switch f.Name() {
		case "Create":
			return &resKind{what: "the file written", rel: set("Close"), strict: true}
		case "OpenFile":
			if c, ok := cc.Args[1].(*ssa.Const); ok && c.Int64()&3 == 0 {
				return nil
			}
			return &resKind{what: "the file written", rel: set("Close"), strict: true}
		case "CreateTemp":
			return &resKind{what: "the file written", rel: set("Close")}
		}
	case "bufio":
		switch f.Name() {
		case "NewWriter", "NewWriterSize":
			return &resKind{what: "the buffered writer", rel: set("Flush")}
		case "NewScanner":
			return &resKind{what: "the scanner", rel: set("Err")}
		}
	case "text/tabwriter":
		if f.Name() == "NewWriter" {
			return &resKind{what: "the tab writer", rel: set("Flush")}
		}
	case "net/http":
		switch f.Name() {
		case "Get", "Do", "Head", "Post", "PostForm":
			return &resKind{what: "the response", http: true}
		}
	}
	return nil
}

// aliases: the same value under other names, in this function and its closures.
func aliases(v ssa.Value) (alias, derived map[ssa.Value]bool) {
	alias, derived = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	var work []ssa.Value
	add := func(m map[ssa.Value]bool, v ssa.Value) {
		if v != nil && !alias[v] && !m[v] {
			m[v] = true
			work = append(work, v)
		}
	}
	add(alias, v)
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		m := alias
		if derived[v] {
			m = derived
		}
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.Phi:
				add(m, x)
			case *ssa.MakeInterface:
				add(m, x)
			case *ssa.ChangeInterface:
				add(m, x)
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					loads(a, func(l ssa.Value) { add(m, l) })
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && x.Val == v {
					add(derived, ia.X) // variadic arguments
				}
			case *ssa.Slice:
				add(m, x)
			case *ssa.Call:
				add(derived, x)
			case *ssa.Extract:
				add(m, x)
			case *ssa.UnOp:
				if derived[v] {
					add(derived, x)
				}
			}
		}
	}
	return
}

// loads of a variable, also from closures that capture it
func loads(a ssa.Value, f func(ssa.Value)) {
	refs := a.Referrers()
	if refs == nil {
		return
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				f(x)
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == a {
					loads(x.Fn.(*ssa.Function).FreeVars[i], f)
				}
			}
		}
	}
}

// onResource handles calls that concern the followed resource; true when the
// call is dealt with.
func (w *walk) onResource(x *ssa.Call, s *pstate) bool {
	cc := &x.Call
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	touches := false
	for i, a := range args {
		if w.alias[a] {
			touches = true
			name := ""
			if cc.IsInvoke() {
				name = cc.Method.Name()
			} else if f := cc.StaticCallee(); f != nil {
				name = f.Name()
			}
			if i == 0 && w.rel[name] {
				s.released = true
			}
			if f := cc.StaticCallee(); f != nil && w.g.inMod(f) && i < len(f.Params) && w.depth < 4 {
				w.handOver(f, i, s)
			}
		}
		touches = touches || w.derived[a]
	}
	if w.strict && !s.released && !touches && errResult(cc.Signature()) >= 0 && !cannotFail(cc) {
		if f := cc.StaticCallee(); f == nil || !(fnPkg(f) == "errors" || fnPkg(f) == "fmt" && f.Name() == "Errorf") {
			w.end("late:"+callName(cc), s, x)
		}
	}
	return false
}

// handOver: a function of the module takes over the resource.
func (w *walk) handOver(f *ssa.Function, param int, s *pstate) {
	al, de := aliases(f.Params[param])
	sub := &walk{g: w.g, fn: f, depth: w.depth + 1, alias: al, derived: de, rel: w.rel, codeOf: al}
	in := &pstate{st: map[string]status{}, codes: s.codes, released: s.released}
	rel, any := true, false
	var codes [8]uint64
	errs := errResult(f.Signature) >= 0
	sub.end = func(kind string, e *pstate, r ssa.Instruction) {
		if kind != "return" || returnsErr(sub, e, r) {
			return
		}
		any = true
		rel = rel && e.released
		if e.codes != nil {
			for i := range codes {
				codes[i] |= e.codes[i]
			}
		}
	}
	sub.run(f.Blocks[0], 0, nil, in.clone())
	if sub.over || !any {
		return
	}
	s.released = s.released || rel
	// what the helper let pass when it returned no error; that its error is
	// respected is an obligation of its own
	if s.codes != nil && (errs || f.Signature.Results().Len() == 0) {
		s.codes = &codes
	}
}

const firstCode = 100

func allCodes() *[8]uint64 {
	var c [8]uint64
	for i := range c {
		c[i] = ^uint64(0)
	}
	return &c
}

// filterCodes evaluates a condition for every status code.
func (w *walk) filterCodes(v ssa.Value, val bool, s *pstate) bool {
	var keep [8]uint64
	for i := 0; i < 512; i++ {
		c, ok := w.evalCode(v, int64(firstCode+i), nil, 0)
		if !ok || c.Kind() != constant.Bool {
			return false
		}
		if constant.BoolVal(c) == val {
			keep[i/64] |= 1 << (i % 64)
		}
	}
	for i := range keep {
		s.codes[i] &= keep[i]
	}
	return true
}

func (w *walk) evalCode(v ssa.Value, code int64, env map[ssa.Value]constant.Value, depth int) (constant.Value, bool) {
	if c, ok := env[v]; ok {
		return c, c != nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil, false
		}
		return x.Value, true
	case *ssa.UnOp:
		if x.Op == token.MUL {
			fa, ok := x.X.(*ssa.FieldAddr)
			if ok && w.codeOf[fa.X] {
				st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if st.Field(fa.Field).Name() == "StatusCode" {
					return constant.MakeInt64(code), true
				}
			}
			return nil, false
		}
		a, ok := w.evalCode(x.X, code, env, depth)
		if !ok {
			return nil, false
		}
		return constant.UnaryOp(x.Op, a, 0), true
	case *ssa.BinOp:
		a, ok := w.evalCode(x.X, code, env, depth)
		b, ok2 := w.evalCode(x.Y, code, env, depth)
		if !ok || !ok2 {
			return nil, false
		}
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return constant.MakeBool(constant.Compare(a, x.Op, b)), true
		case token.QUO:
			if constant.Sign(b) == 0 {
				return nil, false
			}
			return constant.BinaryOp(a, token.QUO_ASSIGN, b), true
		case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR:
			if x.Op == token.REM && constant.Sign(b) == 0 {
				return nil, false
			}
			return constant.BinaryOp(a, x.Op, b), true
		}
	case *ssa.Convert:
		return w.evalCode(x.X, code, env, depth)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !w.g.inMod(f) || depth > 3 {
			return nil, false
		}
		sub := map[ssa.Value]constant.Value{}
		al := map[ssa.Value]bool{}
		for i, a := range x.Call.Args {
			if i >= len(f.Params) {
				return nil, false
			}
			if w.codeOf[a] {
				al[f.Params[i]] = true
				continue
			}
			if c, ok := w.evalCode(a, code, env, depth); ok {
				sub[f.Params[i]] = c
			}
		}
		sw := &walk{g: w.g, fn: f, codeOf: al}
		return sw.runCode(code, sub, depth+1)
	}
	return nil, false
}

// runCode evaluates a predicate on the status code.
func (w *walk) runCode(code int64, env map[ssa.Value]constant.Value, depth int) (constant.Value, bool) {
	b, prev := w.fn.Blocks[0], (*ssa.BasicBlock)(nil)
	for n := 0; n < 100; n++ {
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for i, p := range b.Preds {
					if p == prev {
						c, ok := w.evalCode(phi.Edges[i], code, env, depth)
						if !ok {
							return nil, false
						}
						env[phi] = c
					}
				}
			}
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if len(x.Results) != 1 {
				return nil, false
			}
			return w.evalCode(x.Results[0], code, env, depth)
		case *ssa.If:
			c, ok := w.evalCode(x.Cond, code, env, depth)
			if !ok || c.Kind() != constant.Bool {
				return nil, false
			}
			k := 1
			if constant.BoolVal(c) {
				k = 0
			}
			prev, b = b, b.Succs[k]
		case *ssa.Jump:
			prev, b = b, b.Succs[0]
		default:
			return nil, false
		}
	}
	return nil, false
}

func errorCodes(c *[8]uint64) (int, bool) {
	for i := 0; i < 512; i++ {
		code := firstCode + i
		if (code < 200 || code > 299) && c[i/64]&(1<<(i%64)) != 0 && code >= 300 && code < 600 {
			return code, true
		}
	}
	return 0, false
}

func (g *genCheck) resources(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			kind := resourceOf(&x.Call)
			if kind == nil {
				kind = g.returned(x.Call.StaticCallee(), 0)
			}
			if kind == nil {
				continue
			}
			g.r.counts["resources"]++
			v := ssa.Value(x)
			if _, tup := x.Type().(*types.Tuple); tup {
				v = nil
				for _, r := range *x.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && !isErrType(e.Type()) {
						v = e
					}
				}
			}
			s := &pstate{st: map[string]status{}}
			for _, r := range *x.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && isErrType(e.Type()) {
					s.st[regName(e)] = isNil
				}
			}
			w := &walk{g: g, fn: fn, rel: kind.rel, strict: kind.strict}
			if v == nil {
				w.alias, w.derived = map[ssa.Value]bool{}, map[ssa.Value]bool{}
			} else {
				w.alias, w.derived = aliases(v)
			}
			if kind.http {
				w.codeOf = w.alias
				s.codes = allCodes()
			}
			w.facts(b, s)
			done := false
			w.end = func(how string, e *pstate, at ssa.Instruction) {
				if done || how == "abort" {
					return
				}
				if strings.HasPrefix(how, "late:") {
					done = true
					g.bad("resource", at.Pos(), fn, "%s calls %s, which may fail, after the output file is created", fn.RelString(nil), how[5:])
					return
				}
				if returnsErr(w, e, at) {
					return
				}
				if ret, ok := at.(*ssa.Return); ok {
					for _, rv := range ret.Results {
						if w.alias[rv] {
							return // the caller's business now
						}
					}
				}
				if kind.http {
					if code, bad := errorCodes(e.codes); bad {
						done = true
						g.bad("resource", x.Pos(), fn, "%s uses the response of %s although its status may be %d", fn.RelString(nil), callName(&x.Call), code)
					}
					return
				}
				if !e.released {
					done = true
					var ms []string
					for m := range kind.rel {
						ms = append(ms, m)
					}
					g.bad("resource", x.Pos(), fn, "%s ends without checking %s of %s", fn.RelString(nil), strings.Join(ms, "/"), kind.what)
				}
			}
			w.run(b, i+1, nil, s)
			if w.over {
				g.bad("undecided", x.Pos(), fn, "too many paths after %s", callName(&x.Call))
			}
		}
	}
}

// returned: the resource that a function of the module returns.
func (g *genCheck) returned(fn *ssa.Function, depth int) *resKind {
	if !g.inMod(fn) || depth > 3 {
		return nil
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			k := resourceOf(&x.Call)
			if k == nil {
				k = g.returned(x.Call.StaticCallee(), depth+1)
			}
			if k == nil {
				continue
			}
			al := map[ssa.Value]bool{}
			if _, tup := x.Type().(*types.Tuple); tup {
				for _, r := range *x.Referrers() {
					if e, ok := r.(*ssa.Extract); ok && !isErrType(e.Type()) {
						a, _ := aliases(e)
						for v := range a {
							al[v] = true
						}
					}
				}
			} else {
				al, _ = aliases(x)
			}
			for _, c := range fn.Blocks {
				if ret, ok := c.Instrs[len(c.Instrs)-1].(*ssa.Return); ok {
					for _, rv := range ret.Results {
						if al[rv] {
							if k.http && !g.leaks(fn, x) {
								return nil // its status has been checked
							}
							return k
						}
					}
				}
			}
		}
	}
	return nil
}

// leaks: the function returns the response with an error status.
func (g *genCheck) leaks(fn *ssa.Function, x *ssa.Call) bool {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			if in != ssa.Instruction(x) {
				continue
			}
			w := &walk{g: g, fn: fn}
			s := &pstate{st: map[string]status{}, codes: allCodes()}
			for _, r := range *x.Referrers() {
				if e, ok := r.(*ssa.Extract); ok {
					if isErrType(e.Type()) {
						s.st[regName(e)] = isNil
					} else {
						w.alias, w.derived = aliases(e)
						w.codeOf = w.alias
					}
				}
			}
			leak := false
			w.end = func(how string, e *pstate, at ssa.Instruction) {
				if how != "return" || returnsErr(w, e, at) {
					return
				}
				if _, bad := errorCodes(e.codes); bad {
					leak = true
				}
			}
			w.run(b, i+1, nil, s)
			return leak || w.over
		}
	}
	return true
}
