PKG = "words"
EDITS = [
 ("words/splitfunc.go", """			advance, more := subsequent(_Numeric, data[pos+w:], atEOF)

			if more {
""", """			rest := data[pos+w:]
			advance, more := subsequent(_Numeric, rest, atEOF || (len(rest) > 0 && lastLastExIgnore.is(_Numeric|_MidNum)))

			if more {
"""),
]
META = {"property": "C05", "needs": "a scanner whose buffer ends between an ignorable character after a second mid-number mark and the digit that follows",
 "what_it_breaks": "the scanner splits a number at a buffer boundary that the iterators do not split"}
