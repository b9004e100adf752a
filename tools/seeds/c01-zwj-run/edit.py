PKG = "graphemes"
EDITS = [
 ("graphemes/splitfunc.go", """		if !last.is(_Ignore) {
			lastLastExIgnore = lastExIgnore
			lastExIgnore = last
		}
""", """		if !last.is(_Ignore) {
			if !(last & lastExIgnore).is(_ZWJ) {
				lastLastExIgnore = lastExIgnore
			}
			lastExIgnore = last
		}
"""),
]
META = {"property": "C01", "needs": "an emoji, two or more zero width joiners in a row, then another emoji",
 "what_it_breaks": "GB11 allows exactly one ZWJ after Extend*; a run of ZWJ now glues two pictographs together"}
