c("C01", AI + ", in lock-step with the UAX #29 rules as an automaton", TRUST + "Covers every valid UTF-8 text.")
c("C02", AI + ", in lock-step with the UAX #29 rules as an automaton", TRUST + "Covers every valid UTF-8 text.")
c("C03", AI + ", in lock-step with the UAX #29 rules as an automaton", TRUST + "Covers every valid UTF-8 text.")
c("C04", AI + ", in lock-step with the documented rules as an automaton", TRUST + "Covers every valid UTF-8 text. The phrase rules are written from the documentation (README of phrases).")
c("C05", AI + " over every prefix of every text", TRUST + "Covers every valid UTF-8 text and every chunking, given bufio.Scanner's documented protocol.")
c("C06", AI + ", over every byte sequence, with a ranking argument for every loop", TRUST + "Covers every byte sequence, valid or not.")
c("C07", AI + ", both iterators against the same boundary automaton", TRUST + "Covers every valid UTF-8 text.")
c("C08", AI + ", over every byte sequence and every history of the named calls", TRUST + "Covers every byte sequence, valid or not.")
c("C09", AI + ", in lock-step with a recogniser of ECMA-48 sequences started at every token", TRUST + "Covers every byte sequence and every setting of the options before each token.")
c("C10", AI + ", in lock-step with a recogniser of ECMA-48 sequences started at every token", TRUST + "Covers every byte sequence and every setting of the options before each token.")
c("C11", AI + ", in lock-step with the word rules extended by the joiner rules", TRUST + "Covers every valid UTF-8 text; joiner lists of up to two middle or two leading joiners (or one of each), over every choice of characters in them.")
c("C12", AI + ", against a split function that may return anything", TRUST + "Covers every text and every split function; results that panic in the caller's function are the caller's.")
c("C13", "static analysis: interprocedural effect analysis (flow-insensitive, field-based points-to and write effects over the SSA form, from every exported entry point)", TRUST + "Memory is told apart by owner (receiver, argument, package variable, fresh), not by index.")
c("C14", "static analysis: the Go compiler's escape analysis of the current source, joined with a rule over the SSA instructions of every function reachable from the tokenizing calls", TRUST + "Code on the way to a panic only is exempt. Trusts the compiler's own escape analysis and a list of standard functions that do not allocate.")
c("C15", "static analysis: abstract interpretation of the lookup over byte classes, tables read as constants from the source", TRUST + "Covers all 1,112,064 scalar values and every malformed byte sequence.")
c("C16", "static analysis: abstract interpretation of the classifiers in lock-step with automata of the documented definitions; termination measures", TRUST)
c("C17", "static analysis: abstract interpretation of the filter over general categories, in lock-step with an automaton; termination measures", TRUST + "Categories are those of the installed toolchain's unicode package.")
c("C18", "static analysis: path-sensitive error-flow and resource typestate analysis over the SSA of the generator, and rules on map iteration and sources of nondeterminism", "No code is run. Trusts the analyser, go/types and x/tools/go/ssa, and that the libraries the generator calls (rangetable, text/template, go/format, fmt) are deterministic.")
not_applicable = [
  {"property": "C19", "reason": "Running time is a runtime quantity; and the rules themselves (SB8) look ahead without bound, so no linear bound holds for the rescanning implementation. No sound static argument in reach."}]
