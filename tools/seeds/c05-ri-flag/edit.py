PKG = "graphemes"
EDITS = [
 ("graphemes/splitfunc.go", """			if !atEOF {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			// https://unicode.org/reports/tr29/#GB2
""", """			if !atEOF && !(regionalIndicatorCount > 1 || current.is(_T)) {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			// https://unicode.org/reports/tr29/#GB2
"""),
]
META = {"property": "C05", "needs": "a Hangul syllable ending in a trailing consonant at the end of the scanner's buffer, with a mark or another trailing consonant in the next read",
 "what_it_breaks": "the scanner does not wait for more input although the cluster may go on"}
