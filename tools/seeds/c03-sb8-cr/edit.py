PKG = "sentences"
EDITS = [
 ("sentences/splitfunc.go", "if lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _SATerm) {", "if lookup.is(_OLetter | _Upper | _Lower | _Sep | _LF | _SATerm) {"),
]
META = {"property": "C03", "needs": "a full stop, a character that is no letter, a lone carriage return, and a lower case letter after it",
 "what_it_breaks": "the look-ahead of SB8 runs across a paragraph separator (CR not followed by LF)"}
