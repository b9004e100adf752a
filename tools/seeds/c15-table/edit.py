PKG = "sentences"
EDITS = [
 ("sentences/trie.go", """0x1435: 0x0400,
	0x1436: 0x0400,
""", """0x1435: 0x0400,
	0x1436: 0x0008,
"""),
]
META = {"property": "C15", "needs": "U+1736 (Philippine double punctuation) at the end of a sentence",
 "what_it_breaks": "one character has the wrong class (Extend instead of STerm)"}
