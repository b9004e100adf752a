PKG = "words"
EDITS = [
 ("words/splitfunc.go", "advance, more := subsequent(_HebrewLetter, data[pos+w:], atEOF)", "advance, more := subsequent(_AHLetter, data[pos+w:], atEOF)"),
]
META = {"property": "C02", "needs": "a Hebrew letter, a double quote, then a letter that is not Hebrew",
 "what_it_breaks": "WB7b only joins across the quote between two Hebrew letters"}
