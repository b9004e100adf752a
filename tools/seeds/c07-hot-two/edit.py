PKG = "phrases"
EDITS = [
 ("phrases/iterator.go", """	// If we skipped any ASCII, back up one so splitfunc has "last" context
""", """	// Two ASCII punctuation marks in a row never join
	if iter.pos > iter.start && iter.pos+1 < len(iter.data) {
		if p, q := iter.data[iter.pos], iter.data[iter.pos+1]; p > ' ' && p < 0x60 && q > ' ' && q < '0' {
			return true
		}
	}

	// If we skipped any ASCII, back up one so splitfunc has "last" context
"""),
]
META = {"property": "C07", "needs": "an ASCII letter or digit, an underscore, then punctuation",
 "what_it_breaks": "the iterators' shortcut breaks before an underscore that WB13a joins"}
