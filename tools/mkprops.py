#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe))))

prop("C01","Grapheme boundaries conform to UAX #29 for every text",
 "For every valid UTF-8 text, the grapheme split function, applied repeatedly at end of input, cuts the text exactly at the extended grapheme cluster boundaries that UAX #29 (Unicode 17) rules GB1-GB999 define: no boundary missing, none added.",
 ["inputs"],"every finite sequence of Unicode scalar values, hence every interleaving of the 13 Grapheme_Cluster_Break classes, Extended_Pictographic and Indic_Conjunct_Break, of any length",
 "The official suite has ~770 short strings; rule interactions at distance (conjuncts, ZWJ emoji chains, RI parity after other context, long Extend runs) form an infinite language the suite samples.",
 ["graphemes/splitfunc.go","graphemes/trie.go"],
 [("rule cascade GB3..GB13 over (current,last,lastExIgnore,lastLastExIgnore,incb,RI parity)","graphemes/splitfunc.go:splitFunc")],
 [("incb","conjunct state for GB9c","graphemes/splitfunc.go"),("regionalIndicatorCount","RI parity for GB12/13","graphemes/splitfunc.go"),("lastLastExIgnore","emoji context for GB11","graphemes/splitfunc.go")],
 ["SplitFunc return values"])
prop("C02","Word boundaries conform to UAX #29 for every text",
 "For every valid UTF-8 text, the word split function, applied repeatedly at end of input, cuts the text exactly at the word boundaries that UAX #29 (Unicode 17) rules WB1-WB999 define, including the ignoring of Extend/Format/ZWJ (WB4) and the look-ahead rules WB6, WB7b and WB12.",
 ["inputs"],"every finite sequence of Unicode scalar values, including unbounded look-ahead over ignorable characters",
 "The suite's ~1,900 strings are at most a handful of characters; WB4 makes every rule apply across arbitrarily long ignorable runs and the two-character look-back/look-ahead contexts combine freely.",
 ["words/splitfunc.go","words/seek.go","words/trie.go"],
 [("rule cascade WB3..WB16","words/splitfunc.go:splitFunc"),("look-ahead over ignorables","words/seek.go:subsequent")],
 [("lastExIgnore/lastLastExIgnore","previous one/two non-ignorable classes","words/splitfunc.go"),("regionalIndicatorCount","RI parity","words/splitfunc.go")],
 ["SplitFunc return values"])
prop("C03","Sentence boundaries conform to UAX #29 for every text",
 "For every valid UTF-8 text, the sentence split function, applied repeatedly at end of input, cuts the text exactly at the sentence boundaries that UAX #29 (Unicode 17) rules SB1-SB998 define, including the unbounded look-ahead of SB8.",
 ["inputs"],"every finite sequence of Unicode scalar values, including unbounded SB8 look-ahead and unbounded Close*/Sp* look-back",
 "The suite has ~500 short strings; SB8-SB11 quantify over arbitrarily long Close*, Sp* and neutral runs on both sides of a boundary.",
 ["sentences/splitfunc.go","sentences/seek.go","sentences/trie.go"],
 [("rule cascade SB3..SB998","sentences/splitfunc.go:splitFunc"),("SB8 scan and jump","sentences/splitfunc.go"),("look-ahead over ignorables","sentences/seek.go:subsequent")],
 [("lastExIgnoreSpClose etc.","context SATerm Close* Sp* ParaSep?","sentences/splitfunc.go")],
 ["SplitFunc return values"])
prop("C04","Phrase boundaries follow the documented variation of the word rules",
 "For every valid UTF-8 text, the phrase split function, applied repeatedly at end of input, cuts exactly where the word boundary rules do, with two documented exceptions: pictographic emoji count as letters, and word-segmenting spaces do not separate letters, numbers or other spaces from one another.",
 ["inputs"],"every finite sequence of Unicode scalar values",
 "There is no official suite for phrases; the tests pin a few dozen sentences, while the two relaxations interact with every word rule.",
 ["phrases/splitfunc.go","phrases/seek.go","phrases/trie.go","phrases/README.md"],
 [("modified rule cascade","phrases/splitfunc.go:splitFunc"),("look-ahead over ignorables","phrases/seek.go:subsequent")],
 [("lastExIgnore/lastLastExIgnore","previous one/two non-ignorable classes","phrases/splitfunc.go")],
 ["SplitFunc return values"])
prop("C05","Streaming gives the same tokens for every chunking",
 "For every valid UTF-8 text and every way its bytes arrive in chunks (including chunks that end inside a character), each of the four reader-based scanners delivers the same tokens as segmenting the whole text at once. When more input may follow, the split function behind the scanner either asks for more or returns a boundary no continuation can change, and it asks for more only while the next boundary is still undetermined.",
 ["inputs","schedules"],"every valid text, every byte position at which the available data may end, both values of the end-of-input flag",
 "The reader tests feed whole strings through one buffer size; each chunk end is a separate early-return site in each look-ahead, and only specific text/cut pairs exercise it.",
 ["graphemes/reader.go","words/reader.go","phrases/reader.go","sentences/reader.go","graphemes/splitfunc.go","words/splitfunc.go","phrases/splitfunc.go","sentences/splitfunc.go","words/seek.go","phrases/seek.go","sentences/seek.go"],
 [("atEOF early returns","*/splitfunc.go, */seek.go"),("scanner wiring","*/reader.go:FromReader")],(),["Scanner.Scan/Text","SplitFunc(data,false)"])
prop("C06","Any byte sequence is tokenized losslessly, without panic or hang",
 "For every byte sequence, valid UTF-8 or not, iterating any of the four tokenizers terminates without panicking and yields non-empty, contiguous tokens whose concatenation is the input. The split functions never return an error, never advance by zero at end of input or past the data, and always return as token exactly the bytes they advance over.",
 ["inputs"],"every byte sequence (including truncated, overlong, surrogate and stray-continuation sequences) and every setting of the iterator options",
 "Fuzz and invalid-input tests sample random corruptions; bounds, progress and the guard panics must hold for all byte strings.",
 ["graphemes/iterator.go","graphemes/ansi.go","graphemes/ansi8.go","graphemes/splitfunc.go","words/iterator.go","words/splitfunc.go","words/seek.go","phrases/iterator.go","phrases/splitfunc.go","phrases/seek.go","sentences/iterator.go","sentences/splitfunc.go","sentences/seek.go"],
 [("advance guards","*/iterator.go:Next"),("w==0 handling","*/splitfunc.go"),("lookup width contract","*/trie.go:lookup")],(),["Iterator.Next/Value","SplitFunc"])
prop("C07","String and byte iterators agree with the split function on every text",
 "For every valid UTF-8 text, iterating it as a string and as a byte slice yields the same tokens as the package's split function, token for token, for graphemes, words, phrases and sentences; the iterators' ASCII shortcuts never change a boundary.",
 ["inputs"],"every valid text, in particular every mix of ASCII runs with following non-ASCII or punctuation context; both instantiations of the generic iterator",
 "The shortcut paths are taken or abandoned depending on the character after an ASCII run; tests compare a few corpora, and the official suite mostly exercises the non-ASCII path.",
 ["graphemes/iterator.go","words/iterator.go","phrases/iterator.go","sentences/iterator.go"],
 [("ASCII hot path and fallback","*/iterator.go:Next"),("back-up by one byte","phrases/iterator.go, sentences/iterator.go")],(),["Iterator.Next/Value"])
prop("C08","Iterator positions, First, Reset and SetText are consistent",
 "At every point of an iteration, the value is the slice of the text from start to end, each start equals the previous end, and once exhausted the iterator stays exhausted. First always gives the token a fresh iteration with the same options would give first and leaves the iteration undisturbed; Reset and SetText restart from the beginning of the (new) text whatever was consumed before, with start and end at zero, keeping options and any custom splitting.",
 ["inputs","histories"],"every text and every sequence of Next/First/Reset/SetText/Value/Start/End calls",
 "Tests call these methods at a few fixed moments; state left over from an arbitrary point of an arbitrary history is not sampled.",
 ["graphemes/iterator.go","words/iterator.go","phrases/iterator.go","sentences/iterator.go","internal/iterators/iterator.go"],
 [("pos/start bookkeeping","*/iterator.go")],(("pos,start","token window","*/iterator.go"),),["Iterator.Value/Start/End/First/Reset/SetText"])
prop("C09","7-bit ANSI sequences form exactly one token each when enabled",
 "With the 7-bit ANSI option on, wherever a token starts at ESC and a complete ECMA-48 7-bit sequence begins there (CSI; OSC ended by BEL or ESC-backslash; DCS/SOS/PM/APC ended by ESC-backslash; control strings cancelled by, and not including, CAN or SUB; two-byte and nF escapes), that token is exactly that sequence. Everywhere else, including malformed or unterminated sequences, and whenever the option is off, tokens are the ordinary grapheme clusters.",
 ["inputs"],"every valid UTF-8 text with any placement of escape sequences, complete, malformed, nested or cut off",
 "Tests list some sixty sequences; parameter/intermediate/final byte ranges and terminators form regular languages with unbounded bodies.",
 ["graphemes/ansi.go","graphemes/iterator.go","graphemes/README.md"],
 [("CSI/OSC/ST/nF recognisers","graphemes/ansi.go")],(),["Iterator.Next/Value"])
prop("C10","8-bit C1 ANSI sequences form exactly one token each when enabled",
 "With the 8-bit ANSI option on, wherever a token starts at a raw C1 byte and a complete ECMA-48 8-bit sequence begins there (C1 CSI; C1 OSC ended by BEL or C1 ST; C1 DCS/SOS/PM/APC ended by C1 ST; control strings cancelled by, and not including, CAN or SUB; any other C1 byte alone), that token is exactly that sequence. Raw C1 bytes are never treated as sequences when the option is off, and each option is independent of the other.",
 ["inputs","configurations"],"every byte sequence with raw C1 bytes anywhere, all four option settings",
 "Tests list some dozens of sequences; 32 introducer bytes, unbounded bodies and the interplay of the two options are only sampled.",
 ["graphemes/ansi8.go","graphemes/ansi.go","graphemes/iterator.go","graphemes/README.md"],
 [("C1 recognisers","graphemes/ansi8.go")],(),["Iterator.Next/Value"])
prop("C11","Joiners change word boundaries exactly as documented, on every API",
 "For every valid text and every choice of joiner characters (other than line breaks and ignorables), a middle joiner that is not first in its token behaves as a character that joins letters with letters and numbers with numbers, and a leading joiner that is first in a token behaves as a letter; every other boundary is the standard one. The string iterator, the byte iterator and the reader-based scanner give the same tokens for the same joiners, and empty joiners change nothing.",
 ["inputs","configurations"],"every valid text, every pair of middle/leading joiner sets, three APIs, every chunking for the scanner",
 "Tests use two joiner sets on one sentence; joiners can coincide with characters of any class and the three APIs reach the rules by different paths.",
 ["words/joiners.go","words/splitfunc.go","words/iterator.go","words/reader.go"],
 [("class overlay for joiners","words/splitfunc.go"),("installation","words/joiners.go:Iterator.Joiners, words/reader.go:Scanner.Joiners")],(),["Iterator.Next/Value","Scanner.Scan/Text"])
prop("C12","A custom split function decides every token; misbehaviour is stopped",
 "Where a caller may supply the split function (the word iterator and the generic iterator), every token is exactly the bytes the supplied function advances over when it is given the whole remaining text, for every text and every function (a single remaining byte may be returned without asking). A function that returns an error, a non-positive advance or an advance past the data causes an immediate panic, never an endless loop, a skipped token or a token outside the text.",
 ["inputs","programs"],"every text and every split function, including misbehaving ones",
 "Tests use a couple of well-behaved functions and a few bad ones; the property is over all functions and texts.",
 ["words/iterator.go","internal/iterators/iterator.go"],
 [("Split / guards in Next and First","words/iterator.go, internal/iterators/iterator.go")],(),["Iterator.Split/Next/First"])
prop("C13","Tokenizing neither writes the input nor shared state (safe in parallel)",
 "No tokenizing operation ever modifies the caller's bytes, joiner sets or any package-level state, and none starts goroutines or keeps state outside the iterator or scanner it is called on. Hence any number of goroutines may tokenize the same or different texts with separate iterators without synchronization.",
 ["schedules","inputs"],"every interleaving of goroutines using separate iterators/scanners over possibly shared input; every reachable function",
 "Race tests explore a handful of schedules of a single goroutine; a write to shared state needs a rare path or interleaving to be seen.",
 ["graphemes","words","phrases","sentences","internal/iterators"],
 [("per-iterator state only","*/iterator.go"),("read-only tables","*/trie.go")],(),["data races","input bytes"])
prop("C14","Iteration is zero-copy and allocation-free",
 "Advancing an iterator, reading its value and calling a split function allocate no heap memory, whatever the text; the returned tokens are views into the caller's text, not copies.",
 ["inputs"],"every text and every path through the tokenizers, for string and byte-slice instantiations",
 "A release was retracted for allocations the tests did not catch; benchmarks only measure the paths their corpora take.",
 ["graphemes","words","phrases","sentences"],
 [("sub-slicing of the input","*/iterator.go:Value, */splitfunc.go"),("generics without conversion","*/trie.go:lookup, words/splitfunc.go:decodeRune")],(),["allocations per operation"])
prop("C15","Every character has its Unicode 17 class; lookups never overrun",
 "For each of the 1,112,064 Unicode scalar values, the grapheme, word, phrase and sentence tokenizers use exactly the segmentation class that Unicode 17 assigns it, and read exactly its encoded bytes. For every other byte sequence the class lookup stays inside its tables, consumes between one and four available bytes, or reports an incomplete character only at the end of the data.",
 ["inputs"],"all scalar values in four tables; all byte sequences of up to four bytes",
 "The official suites touch a few hundred code points per table; 1.1 million entries and the decoder's malformed-input branches are otherwise unchecked.",
 ["graphemes/trie.go","words/trie.go","phrases/trie.go","sentences/trie.go"],
 [("trie lookup","*/trie.go:lookup,lookupValue"),("tables","*/trie.go:*Values,*Index")],(),["class of a character as seen through boundaries"])
prop("C16","Bleve-compatible token classification",
 "A non-empty valid UTF-8 token is classified numeric exactly when it consists of digits and connectors (Numeric, ExtendNumLet), where a single mid-number mark, optionally followed by ignorables, may stand between two digits; it is classified ideographic exactly when it starts with a Han, Hiragana or Katakana character and continues with those, connectors or ignorables. Both classifiers terminate without panicking on every byte sequence.",
 ["inputs"],"every token (byte sequence), any length",
 "Tests compare a corpus and a few literals; the classifiers run their own rule cascade with look-ahead.",
 ["words/bleve_compat.go","words/seek.go"],
 [("BleveNumeric, BleveIdeographic","words/bleve_compat.go")],(),["BleveNumeric/BleveIdeographic results"])
prop("C17","The alphanumeric filter keeps exactly tokens with a letter or number",
 "For every byte sequence the alphanumeric filter terminates without panicking, and for valid UTF-8 it accepts a token exactly when some character in it is a Unicode letter or number.",
 ["inputs"],"every byte sequence",
 "There is no direct test; it is used by one compatibility test.",
 ["internal/iterators/filter/filter.go"],
 [("AlphaNumeric","internal/iterators/filter/filter.go")],(),["filter result"])
prop("C18","Regenerating the tables is deterministic and fails loudly",
 "Given the same Unicode data, the generator writes byte-identical tables and tests on every run: no output depends on map iteration order, time, randomness or scheduling. Any failure to fetch, read, parse, format or write is propagated and aborts the run instead of producing a partial table.",
 ["inputs","fault_sequences","schedules"],"every run of the generator; every failing call",
 "The generator needs the network and is never run by the tests; map order varies per run.",
 ["internal/gen/main.go","internal/gen/triegen/triegen.go","internal/gen/triegen/compact.go","internal/gen/triegen/print.go"],
 [("sorted property lists","internal/gen/main.go:generateTrie,writeTrie"),("error returns","internal/gen/main.go")],(),["generated files"])
prop("C19","Segmentation work grows linearly with the text",
 "The time to segment a text is bounded by a constant times its length, for every text.",
 ["inputs"],"every text, including adversarial ones",
 "Benchmarks measure ordinary corpora; worst cases need crafted input.",
 ["sentences/splitfunc.go","words/seek.go","graphemes/ansi.go"],
 [("look-ahead loops","sentences/splitfunc.go SB8, words/seek.go, graphemes/ansi.go")],(),["running time"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
