package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one run of the checker.
type Ctx struct {
	p        *Program
	tier     string
	deadline time.Time

	mu    sync.Mutex
	looks map[string]*lookOnce
	refs  map[string]*RefData
}

type lookOnce struct {
	once sync.Once
	lf   *LookupFacts
}

// Lookup returns the facts about the class lookup of a package.
func (c *Ctx) Lookup(pkg string) *LookupFacts {
	c.mu.Lock()
	l := c.looks[pkg]
	if l == nil {
		l = &lookOnce{}
		c.looks[pkg] = l
	}
	c.mu.Unlock()
	l.once.Do(func() { l.lf = AnalyseLookup(c.p, pkg) })
	return l.lf
}

func (c *Ctx) Ref(pkg string) *RefData {
	var lf *LookupFacts
	if pkg == "words" {
		lf = c.Lookup(pkg)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	rd := c.refs[pkg]
	if rd == nil {
		rd = LoadRef(pkg)
		if lf != nil && len(lf.viol) == 0 {
			c.p.staleIdeographs(lf, rd)
		}
		c.refs[pkg] = rd
	}
	return rd
}

// Result is what a task established.
type Result struct {
	viol    []*Report
	counts  map[string]int64 // states, instructions, ...
	funcs   map[string]bool  // functions of the code analysed
	samples []string
	notes   []string
}

func newResult() *Result {
	return &Result{counts: map[string]int64{}, funcs: map[string]bool{}}
}

func (r *Result) fail(kind, pos, format string, a ...interface{}) {
	r.viol = append(r.viol, &Report{Kind: kind, Pos: pos, Msg: fmt.Sprintf(format, a...)})
}

type Task struct {
	name string
	run  func(c *Ctx) *Result
}

// Property is a check.
type Property struct {
	id      string
	level   string
	rule    string // the rule applied, for the evidence
	assume  []string
	minimum map[string]int64 // counts confirmed by hand; fewer is a failure
	tasks   func(c *Ctx) []Task
	source  bool // needs no SSA of the tokenizers
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.id] = p }

// config is one way of running an exploration; all ways are sound, they differ
// in how much they remember.
type config struct {
	keepLast, keepText bool
	keepEnds           bool
	coarse             bool // leave the classes open
	joins              bool // merge at joins of the control flow, forget text read ahead
	forget             bool // forget text read ahead
	strategy           int
	budget             time.Duration
}

var stdConfigs = []config{
	{budget: 120 * time.Second},
	{keepLast: true, budget: 150 * time.Second},
	{keepLast: true, keepText: true, budget: 200 * time.Second},
	{keepLast: true, keepText: true, strategy: 1, budget: 200 * time.Second},
}

type exploreOpt struct {
	name    string
	pkg     string // package whose harness is run
	setup   string // package whose alphabet is used (default pkg)
	harness string
	uni     uniOpt
	configs []config
	// custom alphabet instead of the class alphabet of the package
	custom func(c *Ctx) *Setup
	prep   func(su *Setup, e *Engine)
	after  func(su *Setup, e *Engine, r *Result)
}

// explore interprets a client of the code abstractly until nothing new is found.
func explore(o exploreOpt) Task {
	if len(o.configs) == 0 {
		o.configs = stdConfigs
	}
	if o.setup == "" {
		o.setup = o.pkg
	}
	return Task{o.name, func(c *Ctx) *Result {
		r := newResult()
		fn := c.p.findFunc(o.pkg, o.harness)
		if fn == nil {
			r.fail("undecided", "", "client %s.%s not found", o.pkg, o.harness)
			return r
		}
		var best []*Report
		for k, cf := range o.configs {
			var su *Setup
			uni := o.uni
			uni.coarse = cf.coarse
			if o.custom != nil {
				su = o.custom(c)
			} else {
				lf := c.Lookup(o.setup)
				if len(lf.viol) > 0 {
					r.viol = append(r.viol, lf.viol...)
					return r
				}
				su = NewSetup(c.p, lf, c.Ref(o.setup), uni)
			}
			e := su.Engine(o.name)
			e.joins, e.coarse, e.forget = cf.joins, cf.coarse, cf.forget
			e.keepLast, e.keepText, e.keepEnds, e.strategy = cf.keepLast, cf.keepText, cf.keepEnds, cf.strategy
			e.deadline = time.Now().Add(cf.budget)
			if !c.deadline.IsZero() && e.deadline.After(c.deadline) {
				e.deadline = c.deadline
			}
			if os.Getenv("UAXDESCS") != "" {
				e.descs = []string{}
			}
			if o.prep != nil {
				o.prep(su, e)
			}
			safely(e, func() { e.Explore(fn, nil) })
			r.counts["abstract_states"] += e.nStates
			r.counts["instructions_interpreted"] += e.nInstr
			r.counts["paths"] += e.nPaths
			r.counts["boundary_obligations"] += e.nBound
			r.counts["obligations"] += e.nOblig
			r.counts["more_obligations"] += e.nMore
			r.counts["alphabet_classes"] += int64(len(su.u.atoms))
			for f := range e.fnSeen {
				if c.p.inModule(f) && !e.isHarness(f) {
					r.funcs[fnName(f)] = true
				}
			}
			if len(e.viol) == 0 {
				if k > 0 {
					r.notes = append(r.notes, fmt.Sprintf("%s: proved with configuration %d of %d", o.name, k+1, len(o.configs)))
				}
				if e.nStates == 0 {
					r.fail("undecided", "", "%s explored nothing", o.name)
				}
				if o.after != nil {
					o.after(su, e, r)
				}
				r.samples = append(r.samples, e.samples...)
				return r
			}
			if os.Getenv("UAXDEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%s config %d: %v\n", o.name, k, e.viol[0])
			}
			if best == nil || best[0].Kind == "undecided" {
				best = e.viol
			}
			if !c.deadline.IsZero() && time.Now().After(c.deadline) {
				break
			}
		}
		r.viol = append(r.viol, best...)
		return r
	}}
}

// safely turns a crash of the analyser into an undecided result.
func safely(e *Engine, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("UAXDEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
			}
			e.viol = append(e.viol, &Report{Kind: "undecided", Msg: fmt.Sprintf("analyser failure: %v", x), Engine: e.name})
		}
	}()
	f()
}

// ---------------------------------------------------------------------------

type known struct {
	property, key string
}

func loadKnown(path string) []known {
	var out []known
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		var k known
		rest := strings.TrimSpace(strings.TrimPrefix(line, "known:"))
		for _, w := range strings.SplitN(rest, " ", 2) {
			if strings.HasPrefix(w, "property=") {
				k.property = strings.TrimPrefix(w, "property=")
			} else if strings.HasPrefix(w, "key=") {
				k.key = strings.TrimPrefix(w, "key=")
			}
		}
		out = append(out, k)
	}
	return out
}

// Key identifies a finding by rule and construct.
func (r *Report) Key() string {
	fn := ""
	for _, s := range r.Stack {
		fn = s
		if i := strings.Index(fn, " ("); i > 0 {
			fn = fn[:i]
		}
		if !strings.HasPrefix(fn, "verif") {
			break
		}
	}
	return r.Engine + "/" + r.Kind + "/" + fn + "/" + r.Msg
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, err := os.Getwd()
	if err != nil {
		return "/verif"
	}
	return d
}

// runProperty runs one check and returns the exit status.
func runProperty(pr *Property) int {
	start := time.Now()
	go watchMemory(16 << 30)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{tier: tier, looks: map[string]*lookOnce{}, refs: map[string]*RefData{}, deadline: start.Add(780 * time.Second)}
	total := newResult()
	perTask := map[string]map[string]int64{}
	var taskNames []string
	load := time.Duration(0)
	func() {
		defer func() {
			if x := recover(); x != nil {
				total.fail("undecided", "", "analyser failure while loading: %v", x)
				if os.Getenv("UAXDEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		if !pr.source {
			p, err := Load()
			if err != nil {
				total.fail("undecided", "", "the code cannot be loaded: %v", err)
				return
			}
			c.p = p
		}
		load = time.Since(start)
		tasks := pr.tasks(c)
		if taskFilter != "" {
			var ts []Task
			for _, t := range tasks {
				if strings.Contains(t.name, taskFilter) {
					ts = append(ts, t)
				}
			}
			tasks = ts
		}
		results := make([]*Result, len(tasks))
		secs := make([]float64, len(tasks))
		sem := make(chan bool, runtime.NumCPU())
		var wg sync.WaitGroup
		for i, t := range tasks {
			i, t := i, t
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				t0 := time.Now()
				func() {
					defer func() {
						if x := recover(); x != nil {
							results[i] = newResult()
							results[i].fail("undecided", "", "analyser failure: %v", x)
							if os.Getenv("UAXDEBUG") != "" {
								fmt.Fprintf(os.Stderr, "%v\n%s\n", x, debug.Stack())
							}
						}
					}()
					results[i] = t.run(c)
				}()
				secs[i] = time.Since(t0).Seconds()
			}()
		}
		wg.Wait()
		for i, r := range results {
			for _, v := range r.viol {
				if v.Engine == "" {
					v.Engine = tasks[i].name
				}
			}
			total.viol = append(total.viol, r.viol...)
			perTask[tasks[i].name] = r.counts
			taskNames = append(taskNames, fmt.Sprintf("%s (%.1fs)", tasks[i].name, secs[i]))
			for k, v := range r.counts {
				total.counts[k] += v
			}
			for f := range r.funcs {
				total.funcs[f] = true
			}
			total.samples = append(total.samples, r.samples...)
			total.notes = append(total.notes, r.notes...)
		}
		if len(total.viol) == 0 {
			for k, min := range pr.minimum {
				if total.counts[k] < min {
					total.fail("vacuous", "", "only %d %s analysed, at least %d expected: the rule may have lost its subject", total.counts[k], k, min)
				}
			}
		}
	}()

	dir := verifDir()
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	kn := loadKnown(filepath.Join(dir, "known_findings.txt"))
	var fresh []*Report
	for _, v := range total.viol {
		isKnown := false
		for _, k := range kn {
			if k.property == pr.id && k.key == v.Key() {
				isKnown = true
			}
		}
		if isKnown {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.id, v.Msg)
		} else {
			fresh = append(fresh, v)
		}
	}
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].Kind != "undecided" && fresh[j].Kind == "undecided" })

	var fns []string
	for f := range total.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation": pr.rule,
		"tasks":       taskNames,
		"counts":      total.counts,
		"per_task":    perTask,
		"functions":   fns,
		"load_s":      load.Seconds(),
	}
	if len(total.samples) > 0 {
		cov["samples"] = total.samples
	}
	if len(total.notes) > 0 {
		cov["notes"] = total.notes
	}
	ev := map[string]interface{}{
		"property": pr.id, "tier": tier, "seed": seed, "level": pr.level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if len(pr.assume) > 0 {
		ev["assumptions"] = pr.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", pr.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	replay := filepath.Join(dir, "evidence", pr.id+".violation.txt")
	if taskFilter != "" {
		fmt.Println(taskNames, total.counts, total.notes)
	}
	if len(fresh) == 0 {
		os.Remove(replay)
		fmt.Printf("OK property=%s: %d functions, %v, %.1fs\n", pr.id, len(fns), total.counts, time.Since(start).Seconds())
		return 0
	}
	var sb strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&sb, "property %s, rule: %s\n  key: %s\n  %s: %s\n  at: %s\n  text: %s\n  call path: %s\n\n", pr.id, v.Engine, v.Key(), v.Kind, v.Msg, v.Pos, v.Text, strings.Join(v.Stack, " < "))
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", pr.id, replay)
	return 1
}

func fnName(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}
