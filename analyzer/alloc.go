package main

import (
	"bufio"
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Allocation analysis (C14): which code reachable from the tokenizing
// operations may allocate? Objects, slices, closures and boxed values are
// judged by the escape analysis of the Go compiler itself (its report for the
// current source); conversions of text, concatenation, append, maps and calls
// out of the module by their instructions.

type diag struct {
	file      string
	line, col int
	msg       string
}

var diagRE = regexp.MustCompile(`^(.+\.go):(\d+):(\d+): (.*)$`)

// escapes runs the compiler for its escape analysis.
func escapes(dirs []string) ([]diag, error) {
	args := []string{"build", "-gcflags=-m"}
	for _, d := range dirs {
		args = append(args, "./"+d)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("go build -gcflags=-m: %v: %s", err, out)
	}
	var ds []diag
	sc := bufio.NewScanner(bytes.NewReader(out))
	sc.Buffer(nil, 1<<22)
	for sc.Scan() {
		m := diagRE.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		if !strings.Contains(m[4], "escapes to heap") && !strings.Contains(m[4], "moved to heap") {
			continue
		}
		l, _ := strconv.Atoi(m[2])
		c, _ := strconv.Atoi(m[3])
		f := m[1]
		if !filepath.IsAbs(f) {
			f = filepath.Join(repoDir, f)
		}
		ds = append(ds, diag{filepath.Clean(f), l, c, m[4]})
	}
	return ds, nil
}

// doomed blocks: every path from them ends in a panic.
func doomed(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	d := map[*ssa.BasicBlock]bool{}
	for {
		changed := false
		for _, b := range fn.Blocks {
			if d[b] || len(b.Instrs) == 0 {
				continue
			}
			_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
			if !ok && len(b.Succs) > 0 {
				ok = true
				for _, s := range b.Succs {
					ok = ok && d[s]
				}
			}
			if ok {
				d[b] = true
				changed = true
			}
		}
		if !changed {
			return d
		}
	}
}

// liveBlocks are those reachable once tests of statically known types are
// resolved.
func liveBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	live := map[*ssa.BasicBlock]bool{}
	if len(fn.Blocks) == 0 {
		return live
	}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if live[b] {
			continue
		}
		live[b] = true
		succs := b.Succs
		if len(b.Instrs) > 0 {
			if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if ex, ok := br.Cond.(*ssa.Extract); ok && ex.Index == 1 {
					if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok && ta.CommaOk && !types.IsInterface(ta.AssertedType) {
						if mi, ok := ta.X.(*ssa.MakeInterface); ok && !types.IsInterface(mi.X.Type()) {
							if types.Identical(mi.X.Type(), ta.AssertedType) {
								succs = succs[:1]
							} else {
								succs = succs[1:]
							}
						}
					}
				}
			}
		}
		work = append(work, succs...)
	}
	return live
}

// noAlloc: functions outside the module known not to allocate.
func noAlloc(fn *ssa.Function) bool {
	pk, name := fnPkg(fn), fn.Name()
	has := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(name, p) {
				return true
			}
		}
		return false
	}
	switch pk {
	case "unicode", "math", "math/bits", "cmp", "internal/bytealg":
		return true
	case "unicode/utf8":
		return !has("Append")
	case "strings", "bytes":
		return fn.Signature.Recv() == nil && (has("Index", "LastIndex", "Has", "Contains", "Compare", "Equal", "Count", "Cut") || has("Trim"))
	case "slices":
		return has("Contains", "Index", "BinarySearch", "Equal", "Max", "Min")
	case "sort":
		return has("Search")
	}
	return false
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func allocTask(pkgs []string) Task {
	return Task{"allocations", func(c *Ctx) *Result {
		r := newResult()
		p := c.p
		a := p.effects()
		var roots []*ssa.Function
		for _, fn := range p.apiRoots(pkgs) {
			switch {
			case splitSig(sigNoRecv(fn.Signature)):
			case fn.Signature.Recv() != nil && strings.Contains(fn.Signature.Recv().Type().String(), ".Iterator[") &&
				map[string]bool{"Next": true, "Value": true, "Start": true, "End": true, "Reset": true, "SetText": true, "First": true}[fn.Name()]:
			default:
				continue
			}
			roots = append(roots, fn)
		}
		via := map[*ssa.Function]string{}
		var order []*ssa.Function
		var work []*ssa.Function
		for _, fn := range roots {
			via[fn] = fnName(fn)
			work = append(work, fn)
		}
		report := func(in ssa.Instruction, fn *ssa.Function, msg string) {
			w := a.where(in)
			r.viol = append(r.viol, &Report{Kind: "allocation", Msg: fnName(fn) + " " + msg, Pos: w, Stack: strings.Split(via[fn], " < ")})
		}
		for len(work) > 0 {
			fn := work[len(work)-1]
			work = work[:len(work)-1]
			order = append(order, fn)
			live, doom := liveBlocks(fn), doomed(fn)
			for _, b := range fn.Blocks {
				if !live[b] || doom[b] {
					continue
				}
				for _, in := range b.Instrs {
					r.counts["instructions"]++
					switch x := in.(type) {
					case *ssa.Convert:
						from, to := x.X.Type(), x.Type()
						if _, isConst := x.X.(*ssa.Const); isConst && isStr(to) {
							break
						}
						if isStr(to) && !isStr(from) && pointerish(from) || isStr(from) && !isStr(to) && pointerish(to) || isStr(to) && isInt(from) {
							if !onlyCompared(x) {
								report(in, fn, "converts text, which copies it")
							}
						}
					case *ssa.BinOp:
						if x.Op == token.ADD && isStr(x.Type()) {
							report(in, fn, "concatenates strings")
						}
					case *ssa.MapUpdate:
						report(in, fn, "inserts into a map")
					case *ssa.Go:
						report(in, fn, "starts a goroutine")
					case *ssa.MakeChan:
						report(in, fn, "makes a channel")
					case *ssa.MakeMap:
						report(in, fn, "makes a map")
					}
					call, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := call.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" {
							report(in, fn, "appends, which may grow the slice")
						}
						continue
					}
					r.counts["call_sites"]++
					fns, _ := a.callees(cc)
					for _, f := range fns {
						if f.Synthetic != "" && f.Pkg == nil && len(f.Blocks) > 0 || p.inModule(f) {
							if _, seen := via[f]; !seen {
								via[f] = fnName(f) + " < " + via[fn]
								work = append(work, f)
							}
							continue
						}
						if !noAlloc(f) {
							report(in, fn, "calls "+f.String()+", which may allocate")
						}
					}
				}
			}
		}
		// the compiler's escape analysis
		var dirs []string
		for _, n := range pkgs {
			dirs = append(dirs, pkgDirs[n])
		}
		ds, err := escapes(dirs)
		if err != nil {
			r.fail("undecided", "", "%v", err)
			return r
		}
		r.counts["escape_reports"] = int64(len(ds))
		seen := map[string]bool{}
		sort.Slice(order, func(i, j int) bool { return fnName(order[i]) < fnName(order[j]) })
		for _, fn := range order {
			r.funcs[fnName(fn)] = true
			syn := fn.Syntax()
			if syn == nil {
				continue
			}
			from := p.fset.Position(syn.Pos())
			doom := doomed(fn)
			for _, d := range ds {
				if d.file != filepath.Clean(from.Filename) || !within(p.fset, syn, d) {
					continue
				}
				if _, lit := syn.(*ast.FuncLit); lit && d.line == from.Line && d.col <= from.Column {
					continue // the literal itself belongs to its parent
				}
				if strings.HasPrefix(d.msg, "\"") && strings.HasSuffix(d.msg, "\" escapes to heap") {
					continue // a constant string in an interface is static data
				}
				if inNested(p.fset, syn, d) || inPanic(p.fset, syn, d) || onlyDoomed(p, fn, doom, d) {
					continue
				}
				k := fmt.Sprintf("%s:%d:%d %s", d.file, d.line, d.col, d.msg)
				if seen[k] {
					continue
				}
				seen[k] = true
				r.viol = append(r.viol, &Report{Kind: "allocation", Msg: fnName(fn) + ": " + d.msg + " (escape analysis of the compiler)",
					Pos: strings.TrimPrefix(fmt.Sprintf("%s:%d", d.file, d.line), repoDir+"/"), Stack: strings.Split(via[fn], " < ")})
			}
		}
		r.counts["functions"] = int64(len(order))
		r.counts["entry_points"] = int64(len(roots))
		return r
	}}
}

// onlyCompared: the compiler does not copy text that is only compared or used
// as a map key.
func onlyCompared(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil || len(*refs) == 0 {
		return false
	}
	for _, in := range *refs {
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if x.Op == token.ADD {
				return false
			}
		case *ssa.Lookup:
			if _, ok := x.X.Type().Underlying().(*types.Map); !ok || x.Index != v {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func within(fs *token.FileSet, n ast.Node, d diag) bool {
	a, b := fs.Position(n.Pos()), fs.Position(n.End())
	if d.line < a.Line || d.line > b.Line {
		return false
	}
	return !(d.line == a.Line && d.col < a.Column || d.line == b.Line && d.col >= b.Column)
}

func inPanic(fs *token.FileSet, syn ast.Node, d diag) (r bool) {
	ast.Inspect(syn, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" && within(fs, c, d) {
				r = true
			}
		}
		return !r
	})
	return
}

// inNested: the position lies in the body of a function literal inside syn.
func inNested(fs *token.FileSet, syn ast.Node, d diag) (r bool) {
	ast.Inspect(syn, func(n ast.Node) bool {
		if l, ok := n.(*ast.FuncLit); ok && ast.Node(l) != syn && within(fs, l.Body, d) {
			r = true
		}
		return !r
	})
	return
}

// onlyDoomed: all code of that line is on the way to a panic.
func onlyDoomed(p *Program, fn *ssa.Function, doom map[*ssa.BasicBlock]bool, d diag) bool {
	any := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if in.Pos() == token.NoPos || p.fset.Position(in.Pos()).Line != d.line {
				continue
			}
			if !doom[b] {
				return false
			}
			any = true
		}
	}
	return any
}
