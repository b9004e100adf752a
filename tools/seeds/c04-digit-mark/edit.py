PKG = "phrases"
EDITS = [
 ("phrases/splitfunc.go", "current.is(_Numeric|_AHLetter|_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace)", "current.is(_Numeric|_AHLetter|_WSegSpace) && last.is(_Numeric|_AHLetter|_WSegSpace|_Extend)"),
]
META = {"property": "C04", "needs": "punctuation carrying a combining mark, followed by a letter or space",
 "what_it_breaks": "WB4: a mark takes the class of what it follows; a mark after punctuation now joins like a letter"}
