package main

import (
	"fmt"
	"sort"
)

// The checks.

var pkgs4 = []string{"graphemes", "words", "phrases", "sentences"}

func specFor(su *Setup, joiners bool) *Spec {
	var rs *RuleSet
	switch su.pkg {
	case "graphemes":
		rs = graphemeRules(su.rd.names)
	case "words":
		rs = wordRules(su.rd.names, false, joiners)
	case "phrases":
		rs = wordRules(su.rd.names, true, joiners)
	case "sentences":
		rs = sentenceRules(su.rd.names)
	}
	return BuildSpec(rs, su.u)
}

// withSpec runs the boundary rules of the package alongside the code.
func withSpec(su *Setup, e *Engine) {
	sp := specFor(su, false)
	e.newMon = func(tape int) Monitor { return NewSpecMon(sp, tape) }
}

const ruleAI = "Abstract interpretation of the functions listed, from a client that drives them over an arbitrary text, to a fixpoint over a finite abstract domain (positions as linear forms over text marks, characters as sets of classes derived from the package's own tables): "

func specProp(id, pkg, what string, min int64) {
	register(&Property{
		id: id, level: "other",
		rule:    ruleAI + "in lock-step with " + what + ", tabulated as an automaton from the rule text. At every return of the split function, the reported boundary must be the next boundary of the automaton, for every text in the abstract state; the contract (no error, 0 < advance <= length, token is the bytes advanced over) is an obligation at the same sites.",
		assume:  []string{"reference class data in analyzer/data (Unicode 17.0.0)", "the class lookup behaves as its own analysis (C15) established"},
		minimum: map[string]int64{"abstract_states": min, "boundary_obligations": 20},
		tasks: func(c *Ctx) []Task {
			return []Task{explore(exploreOpt{name: pkg + "/split", pkg: pkg, harness: "verifSplitLoop", prep: withSpec})}
		},
	})
}

func init() {
	specProp("C01", "graphemes", "rules GB1-GB999 of UAX #29", 30)
	specProp("C02", "words", "rules WB1-WB999 of UAX #29", 100)
	specProp("C03", "sentences", "rules SB1-SB998 of UAX #29", 100)
	specProp("C04", "phrases", "the word rules WB1-WB999 with the two documented exceptions", 100)

	register(&Property{
		id: "C05", level: "other",
		rule:    ruleAI + "the client installs the reader-based scanner, takes the split function installed on it and feeds it every prefix (including prefixes that end inside a character) of every text, flagged as final or not. A token reported for a non-final prefix must end at the boundary the rules give for every continuation; a final prefix must yield its next boundary; the scanner reads from the caller's reader directly, with at least the default buffer limit.",
		assume:  []string{"bufio.Scanner as documented: it repeats the split call with more data until a token is returned, and delivers the token"},
		minimum: map[string]int64{"abstract_states": 500, "boundary_obligations": 80, "more_obligations": 10},
		tasks: func(c *Ctx) (ts []Task) {
			for _, pkg := range pkgs4 {
				ts = append(ts, explore(exploreOpt{name: pkg + "/scan", pkg: pkg, harness: "verifScanLoop", prep: withSpec}))
			}
			return
		},
	})
	register(&Property{
		id: "C06", level: "other",
		rule:    ruleAI + "clients drive the split function at end of input, the split function installed on the scanner over every prefix, and both iterators, over every byte sequence (malformed pieces are additional symbols of the alphabet, with the widths, announced lengths and byte values the analysis of the class lookup derived). Every reachable panic, out-of-range index or slice bound, write to the text, non-advancing or overlong advance, token other than the bytes advanced over, value other than the text from start to end, and every loop without a strictly advancing, bounded position is a violation.",
		minimum: map[string]int64{"abstract_states": 500},
		tasks: func(c *Ctx) (ts []Task) {
			term := func(su *Setup, e *Engine) { e.term = true }
			for _, pkg := range pkgs4 {
				for _, h := range []string{"verifSplitOnce", "verifSplitAny"} {
					ts = append(ts, explore(exploreOpt{name: pkg + "/" + h, pkg: pkg, harness: h, uni: uniOpt{bad: true}, prep: term,
						configs: []config{{coarse: true, joins: true, budget: 240e9}, {joins: true, budget: 300e9}, {joins: true, keepLast: true, keepText: true, budget: 300e9}}}))
				}
			}
			return append(ts, posTasks([]string{"verifPosB", "verifPosS"}, true)...)
		},
	})
	register(&Property{
		id: "C07", level: "other",
		rule:    ruleAI + "in lock-step with the boundary rules of the package, the client runs the byte-slice iterator and the string iterator to exhaustion; each value must be the text from start to end and each end the next boundary of the same automaton the split function is checked against (C01-C04), so the three agree token for token.",
		minimum: map[string]int64{"abstract_states": 500, "boundary_obligations": 100},
		tasks: func(c *Ctx) (ts []Task) {
			for _, pkg := range pkgs4 {
				for _, h := range []string{"verifIterBytes", "verifIterString"} {
					cfg := []config{{keepLast: true, budget: 240e9}, {keepLast: true, keepText: true, budget: 300e9}, {keepLast: true, keepText: true, strategy: 1, budget: 300e9}}
					if pkg == "words" {
						cfg = cfg[1:]
					}
					ts = append(ts, explore(exploreOpt{name: pkg + "/" + h, pkg: pkg, harness: h, prep: withSpec, configs: cfg}))
				}
			}
			return
		},
	})
	register(&Property{
		id: "C08", level: "other",
		rule:    ruleAI + "clients drive the iterators of all packages over every byte sequence, with the split function unknown but deterministic and within the contract C06 establishes. After any number of steps, start, end and value, exhaustion, and the effects of First, Reset and SetText (compared with a fresh iterator with the same options, step by step to the end) are obligations.",
		minimum: map[string]int64{"abstract_states": 200, "obligations": 100},
		tasks:   func(c *Ctx) []Task { return posTasks(posHarnesses, false) },
	})
	for id, c1 := range map[string]bool{"C09": false, "C10": true} {
		c1 := c1
		which := "Tokens that start at a raw C1 byte while the 8-bit option is on are left to C10."
		if c1 {
			which = "Tokens that do not start at a raw C1 byte while the 7-bit option is on are left to C09."
		}
		register(&Property{
			id: id, level: "other",
			rule:    ruleAI + "a client runs both iterators over every byte sequence, setting both options arbitrarily before every token, in lock-step with a twelve-state recogniser of ECMA-48 sequences restarted at every token. Where the option is on and the recogniser finds a complete sequence the token must end exactly at its end; every other token must be what the split function (unknown, deterministic, within its contract) answers for the remaining text, or ASCII before ASCII. " + which,
			assume:  []string{"the split function yields the ordinary grapheme clusters (C01)", "by the boundary rules, ASCII other than CR LF does not join ASCII"},
			minimum: map[string]int64{"abstract_states": 20, "obligations": 50},
			tasks:   func(c *Ctx) []Task { return ansiProp(c1) },
		})
	}
	register(&Property{
		id: "C11", level: "other",
		rule:    ruleAI + "in lock-step with the word rules, extended by the two joiner rules, with joiner lists of arbitrary characters (every character of the alphabet exists as a joiner and as none; a list is nil, empty, or two arbitrary characters), clients drive the string iterator, the byte iterator and, over every chunking, the scanner; every reported boundary must be the next boundary of the same automaton.",
		minimum: map[string]int64{"abstract_states": 200, "boundary_obligations": 50},
		tasks: func(c *Ctx) (ts []Task) {
			for _, h := range []string{"verifJoinScan", "verifJoinBytes", "verifJoinString"} { // longest first
				cfg := []config{{keepLast: true, keepText: true, budget: 400e9}, {keepLast: true, keepText: true, strategy: 1, budget: 400e9}}
				if h == "verifJoinScan" {
					cfg = nil
				}
				for _, n := range [][2]int{{2, 0}, {1, 1}, {1, 0}, {0, 2}, {0, 0}} {
					n := n
					if h == "verifJoinString" && n[0]+n[1] == 2 && n[0] != n[1] || h == "verifJoinBytes" && n[0] == 2 && c.tier != "thorough" {
						continue // the split function is generic; lists of two are covered through the scanner
					}
					ts = append(ts, explore(exploreOpt{name: fmt.Sprintf("words/%s/%d,%d", h, n[0], n[1]), pkg: "words", harness: h, uni: uniOpt{jm: n[0], jl: n[1]}, configs: cfg,
						prep: func(su *Setup, e *Engine) {
							sp := specFor(su, true)
							e.params = map[string]int64{"middle": int64(n[0]), "leading": int64(n[1])}
							e.newMon = func(tape int) Monitor { return NewSpecMon(sp, tape) }
						}}))
				}
			}
			return
		},
	})
	register(&Property{
		id: "C12", level: "other",
		rule:    ruleAI + "clients install a split function that may return anything (any advance within the data; an error; zero, negative, too large and overflowing advances) and iterate, reset and ask for the first token in any order over every byte sequence. Each token must be the bytes the function advanced over when given the remaining text (a single remaining byte is its own token); after a result outside the contract the call must panic: it may not return, ask again or loop.",
		minimum: map[string]int64{"abstract_states": 10, "obligations": 20},
		tasks:   func(c *Ctx) []Task { return customTasks() },
	})
	register(&Property{
		id: "C13", level: "other",
		rule:    "Effect analysis over the call graph of every exported function and method (as instantiated for byte slices and strings) and every split function: each store, map update, append, copy and call is attributed to the memory it may write (own allocation, argument, memory reachable through an argument, package-level variable). Only the iterator or scanner itself and fresh memory may be written; goroutines and channel operations are violations.",
		assume:  []string{"functions of unicode, utf8, strings, bytes, errors, strconv and fmt write only to receivers and the arguments documented", "split functions supplied by callers are outside the module"},
		minimum: map[string]int64{"entry_points": 30, "writes_classified": 20},
		tasks: func(c *Ctx) []Task {
			return []Task{effectTask([]string{"graphemes", "words", "phrases", "sentences", "iterators", "filter"})}
		},
	})
	register(&Property{
		id: "C14", level: "other",
		rule:    "Allocation effects over the call graph of Next, Value, Start, End, Reset, SetText, First and every split function, for byte slices and strings: no reachable object, slice, closure or boxed value may escape to the heap (escape analysis of the Go compiler for the current source), and no reachable instruction may convert or concatenate text, append, insert into a map or call a function outside the module that allocates. Code that only leads to a panic is exempt; branches on statically known types are resolved.",
		assume:  []string{"functions of unicode, utf8 and the searching functions of strings, bytes, sort and slices do not allocate", "the escape analysis of the installed compiler is that of the user's"},
		minimum: map[string]int64{"entry_points": 25, "functions": 25, "escape_reports": 1},
		tasks:   func(c *Ctx) []Task { return []Task{allocTask(pkgs4)} },
	})
	register(&Property{
		id: "C15", level: "other",
		rule:    "Abstract interpretation of the class lookup (both instantiations) over every byte sequence: the trie arrays are read as constants from the source, each path yields a decision over byte classes, and the resulting function from code points to class values is compared with the Unicode 17 reference data for all 1,112,064 scalar values (class constants are matched by name). Index bounds of every table access, widths between 1 and 4 and at most the bytes available, and width 0 only for a character cut short by the end of the data are obligations on every path.",
		assume:  []string{"reference class data in analyzer/data (Unicode 17.0.0)"},
		minimum: map[string]int64{"runes": 4 * 1112064, "lookup_instances": 4},
		tasks: func(c *Ctx) (ts []Task) {
			for _, pkg := range pkgs4 {
				pkg := pkg
				ts = append(ts, Task{"lookup/" + pkg, func(c *Ctx) *Result {
					r := newResult()
					lf := c.Lookup(pkg)
					r.viol = append(r.viol, lf.viol...)
					r.counts["paths"] = int64(lf.paths)
					r.counts["runes"] = int64(lf.runes)
					r.counts["malformed_paths"] = int64(lf.bad)
					r.counts["instructions_interpreted"] = lf.instr
					r.counts["lookup_instances"] = int64(len(lf.fns))
					for _, f := range lf.fns {
						r.funcs[fnName(f)] = true
					}
					if len(lf.viol) == 0 {
						v, n := c.p.CompareTables(lf, c.Ref(pkg))
						r.viol = append(r.viol, v...)
						r.counts["classes"] = int64(n)
					}
					return r
				}})
			}
			return
		},
	})
	register(&Property{
		id: "C16", level: "other",
		rule:    ruleAI + "clients ask each classifier about an arbitrary non-empty text, in lock-step with a three- to five-state automaton of the documented definition over the reference classes; every answer must be the automaton's. A second client passes every byte sequence (malformed pieces as further symbols): panics, bad bounds and loops without a bounded, strictly advancing position are violations.",
		assume:  []string{"reference class data in analyzer/data (Unicode 17.0.0)", "the class lookup behaves as its own analysis (C15) established"},
		minimum: map[string]int64{"abstract_states": 10, "obligations": 10},
		tasks: func(c *Ctx) (ts []Task) {
			for h, lang := range map[string]func(*Setup) *DFA{"verifNumeric": numericLang, "verifIdeographic": ideographicLang} {
				lang := lang
				ts = append(ts, explore(exploreOpt{name: "words/" + h, pkg: "words", harness: h, prep: func(su *Setup, e *Engine) {
					d := lang(su)
					e.newMon = func(tape int) Monitor { return &DFAMon{d: d, tape: tape, q: d.start, cur: bosMark(tape)} }
				}}))
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i].name < ts[j].name })
			ts = append(ts, Task{"words/ideographs", func(c *Ctx) *Result {
				r := newResult()
				lf := c.Lookup("words")
				if len(lf.viol) == 0 {
					r.viol = c.p.staleIdeographs(lf, LoadRef("words"))
					r.counts["runes"] = int64(lf.runes)
				}
				return r
			}})
			return append(ts, explore(exploreOpt{name: "words/verifBleveAny", pkg: "words", harness: "verifBleveAny", uni: uniOpt{bad: true},
				prep:    func(su *Setup, e *Engine) { e.term = true },
				configs: []config{{coarse: true, joins: true, budget: 240e9}, {joins: true, budget: 300e9}, {joins: true, keepLast: true, keepText: true, budget: 300e9}}}))
		},
	})
	register(&Property{
		id: "C17", level: "other",
		rule:    ruleAI + "a client asks the filter about an arbitrary text over an alphabet of general categories, in lock-step with the automaton of texts that contain a letter or number; every answer must be the automaton's. A second exploration passes every byte sequence: panics, bad bounds and loops without a bounded, strictly advancing position are violations.",
		assume:  []string{"unicode and utf8 as documented; categories are those of the unicode package of the installed toolchain"},
		minimum: map[string]int64{"abstract_states": 2, "obligations": 2},
		tasks: func(c *Ctx) (ts []Task) {
			return []Task{
				explore(exploreOpt{name: "filter/verifAlphaNumeric", pkg: "filter", harness: "verifAlphaNumeric",
					custom: func(c *Ctx) *Setup { return filterSetup(c.p, "filter", false) },
					prep: func(su *Setup, e *Engine) {
						d := letterLang(su)
						e.newMon = func(tape int) Monitor { return &DFAMon{d: d, tape: tape, q: d.start, cur: bosMark(tape)} }
					}}),
				explore(exploreOpt{name: "filter/any", pkg: "filter", harness: "verifAlphaNumeric",
					custom: func(c *Ctx) *Setup { return filterSetup(c.p, "filter", true) },
					prep:   func(su *Setup, e *Engine) { e.term = true }}),
			}
		},
	})
	register(&Property{
		id: "C18", level: "other", source: true,
		rule:    "Over the SSA form of the generator (internal/gen), from main: every call that can fail is followed over all paths of its function, with the error assumed present: each path must return an error, keep it, or abort (only the end of the input may end a read); written files must be closed with a check, buffered writers flushed, scanners asked for their error, responses used only with a 2xx status; no other fallible step once the output file exists. Ranging over a map may only have effects that do not depend on the order (own entries, commutative updates, collecting and sorting in a total order); no clocks, random numbers, goroutines, environment or addresses.",
		assume:  []string{"golang.org/x/text/unicode/rangetable, text/template, go/format and fmt are deterministic", "writes to bytes.Buffer, strings.Builder and hashes cannot fail; progress messages on standard output do not matter"},
		minimum: map[string]int64{"functions": 8, "error_sources": 10, "resources": 2, "map_ranges": 2},
		tasks:   func(c *Ctx) []Task { return []Task{genTask()} },
	})

}
